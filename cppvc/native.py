"""Running the real code: builds /repo's library with sanitizers in a scratch directory and runs generated
drivers against it.  Used only when an obligation was not discharged."""
import os, subprocess, glob, hashlib, shutil, sys, concurrent.futures as cf

REPO = os.environ.get('CPPVC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, 'out')
CXX = ['clang++', '-std=gnu++20', '-DFMT_SHARED', '-DSPDLOG_COMPILED_LIB', '-DSPDLOG_FMT_EXTERNAL', '-DSPDLOG_SHARED_LIB',
       '-I' + REPO + '/include', '-O1', '-g1', '-DNDEBUG', '-w']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
LIBS = ['-lfmt', '-lspdlog']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:abort_on_error=1:symbolize=1',
           UBSAN_OPTIONS='print_stacktrace=1:abort_on_error=1')


class Native(object):
    def __init__(self, work=None):
        self.work = work or os.path.join(OUT, 'work-%d' % os.getpid())
        self.lib = None
        self.flags = None
        self.error = None

    def clean(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def sources(self):
        return sorted(s for s in glob.glob(REPO + '/src/**/*.cpp', recursive=True) if '/cli/' not in s)

    def build(self):
        """the library with ASAN and UBSAN (and coverage for the fuzzer)"""
        if self.lib or self.error:
            return self.lib
        os.makedirs(self.work, exist_ok=True)
        objs = []

        def one(s):
            o = os.path.join(self.work, s[len(REPO) + 1:].replace('/', '_') + '.o')
            p = subprocess.run(CXX + SAN + ['-fsanitize=fuzzer-no-link', '-DBOOST_NO', '-c', s, '-o', o], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            return o, p
        with cf.ThreadPoolExecutor(8) as ex:
            for o, p in ex.map(one, self.sources()):
                if p.returncode:
                    self.error = p.stdout.decode(errors='replace')[-2000:]
                    return None
                objs.append(o)
        lib = os.path.join(self.work, 'lib.a')
        if os.path.exists(lib):
            os.unlink(lib)
        subprocess.run(['ar', 'crs', lib] + objs, check=True)
        self.lib = lib
        return lib

    def link(self, name, src_text, extra=()):
        """compile one driver; returns (binary, error text)"""
        if not self.build():
            return None, self.error
        src = os.path.join(self.work, name + '.cpp')
        with open(src, 'w') as f:
            f.write(src_text)
        b = os.path.join(self.work, name)
        extra = list(extra) + [l.split(':', 1)[1].strip() for l in src_text.splitlines()[:5] if l.startswith('// LINK:')]
        p = subprocess.run(CXX[:-4] + ['-O0', '-w', '-DNDEBUG'] + SAN + list(extra) + [src, self.lib, '-o', b] + LIBS,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return None, p.stdout.decode(errors='replace')[:3000]
        return b, None

    def run(self, cmd, timeout):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV, cwd=self.work)
            return p.returncode, p.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired as e:
            return 'timeout', (e.stdout or b'').decode(errors='replace')


def box_includes():
    hs = sorted(glob.glob(REPO + '/include/shiguredo/mp4/**/*.hpp', recursive=True))
    return ''.join('#include "%s"\n' % h[len(REPO + '/include/'):] for h in hs if '/box/' in h or h.endswith(('/box.hpp', '/box_type.hpp', '/box_types.hpp')))


def hexlit(b):
    return '"%s"' % ''.join('\\%03o' % x for x in b)


BOX_MAIN = r'''
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <memory>
#include <new>
#include <array>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <type_traits>
%(inc)s
void* operator new(std::size_t n) { if (n > (1ULL << 26)) throw std::bad_alloc(); void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
using Box = %(cls)s;
static std::string hex(const std::string& s) { std::string r; char b[4]; for (unsigned char c : s.substr(0, 400)) { snprintf(b, 4, "%%02x", c); r += b; } return r; }
template <typename B> static B* fresh_(const shiguredo::mp4::BoxType& t) {
  if constexpr (std::is_default_constructible_v<B>) { return new B(); } else { return new B(t); }
}
template <typename B> static void prep_(B* b, const B& like) {
  if constexpr (requires { b->setUnderWave(true); }) { if (like.toStringOnlyData().rfind("QuickTimeData=", 0) == 0) b->setUnderWave(true); }
}
static Box* fresh(const shiguredo::mp4::BoxType& t) { return fresh_<Box>(t); }
static int bad = 0;
static void fail(int i, const char* what, const std::string& a, const std::string& b) {
  ++bad;
  printf("FAIL %%d %%s\n  expected %%s\n  got      %%s\n", i, what, a.c_str(), b.c_str());
  fflush(stdout);
}
static void check(int i, const Box& box, const std::string& want, bool readable, const std::string& kinds) {
  using std::to_string;
  auto has = [&](const char* k) { return kinds.find(k) != std::string::npos; };
  std::ostringstream os;
  std::uint64_t bits = 0;
  try { bits = box.writeData(os); } catch (const std::exception& e) { fail(i, "writeData() threw", hex(want), e.what()); return; }
  if (has("layout") && os.str() != want) fail(i, "writeData() bytes", hex(want), hex(os.str()));
  if (has("size")) {
    if (bits != os.str().size() * 8) fail(i, "writeData() return value", to_string(os.str().size() * 8), to_string(bits));
    if (box.getDataSize() != os.str().size()) fail(i, "getDataSize()", to_string(os.str().size()), to_string(box.getDataSize()));
    if (box.getDataSize() != want.size()) fail(i, "getDataSize() against the layout", to_string(want.size()), to_string(box.getDataSize()));
  }
  if (has("read") && readable) {
    std::unique_ptr<Box> b(fresh(box.getType()));
    prep_<Box>(b.get(), box);
    std::istringstream is(want);
    std::uint64_t r = 0;
    try { r = b->readData(is); } catch (const std::exception& e) { fail(i, "readData() threw", hex(want), e.what()); return; }
    is.clear();
    if (r != want.size() * 8) fail(i, "readData() return value", to_string(want.size() * 8), to_string(r));
    if ((std::uint64_t)is.tellg() != want.size()) fail(i, "readData() consumed", to_string(want.size()), to_string((long)is.tellg()));
    std::ostringstream o2;
    try { b->writeData(o2); } catch (const std::exception& e) { fail(i, "writeData() of the decoded box threw", hex(want), e.what()); return; }
    if (o2.str() != want) fail(i, "re-encoded bytes", hex(want), hex(o2.str()));
    if (%(tostr)s && b->toStringOnlyData() != box.toStringOnlyData()) fail(i, "toStringOnlyData() of the decoded box", box.toStringOnlyData(), b->toStringOnlyData());
  }
}
int main(int argc, char** argv) {
  std::string kinds = argc > 1 ? argv[1] : "layout size read";
  std::vector<std::function<void(int)>> cases = {
%(cases)s
  };
  for (int i = 0; i < (int)cases.size(); ++i) {
    printf("CASE %%d\n", i); fflush(stdout);
    try { cases[i](i); } catch (const std::exception& e) { fail(i, "constructing the box threw", "", e.what()); }
  }
  printf("DONE %%d cases %%d failures\n", (int)cases.size(), bad);
  return bad ? 1 : 0;
}
'''

FUZZ_MAIN = r'''
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <new>
#include <memory>
#include <string>
#include <sstream>
#include <type_traits>
%(inc)s
void* operator new(std::size_t n) { if (n > (1ULL << 26)) throw std::bad_alloc(); void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
using Box = %(cls)s;
template <typename B> static B* fresh_(const shiguredo::mp4::BoxType& t) {
  if constexpr (std::is_default_constructible_v<B>) { return new B(); } else { return new B(t); }
}
template <typename B> static void prep_(B* b) {
  if constexpr (requires { b->setUnderWave(true); }) b->setUnderWave(true);
}
static Box* fresh() { return fresh_<Box>(shiguredo::mp4::BoxType(std::string("%(typ)s"))); }
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* d, std::size_t n) {
  std::size_t skip = n %% 3;                 // the payload may start anywhere in the stream
  std::string s(skip, 'x');
  s.append(reinterpret_cast<const char*>(d), n);
  std::istringstream is(s);
  is.seekg(skip);
  std::unique_ptr<Box> b(fresh());
  if (n %% 2) prep_<Box>(b.get());
  std::uint64_t r = 0;
  try { r = b->readData(is); } catch (const std::exception&) { return 0; }
  is.clear();
  std::uint64_t pos = is.tellg();
  std::uint64_t used = (pos - skip) * 8;
  if (pos < skip || pos > s.size() || used > r || r > n * 8) {
    fprintf(stderr, "BAD readData() returned %%llu bits after consuming %%llu of %%llu\n", (unsigned long long)r, (unsigned long long)used, (unsigned long long)n * 8);
    abort();
  }
  return 0;
}
'''


def tostr_ok(cls):
    # parameters without a representation show up in these strings
    return 'false'


def box_cases_source(cls, samples):
    cs = []
    for expr, payload, readable in samples:
        cs.append('    [](int i) { check(i, %s, std::string(%s, %d), %s, g_kinds); },' % (expr, hexlit(payload), len(payload), 'true' if readable else 'false'))
    src = BOX_MAIN % dict(inc=box_includes(), cls='shiguredo::mp4::box::' + cls, cases='\n'.join(cs), tostr=tostr_ok(cls))
    src = src.replace('static int bad = 0;', 'static int bad = 0;\nstatic std::string g_kinds;').replace(
        '  std::vector<std::function<void(int)>> cases', '  g_kinds = kinds;\n  std::vector<std::function<void(int)>> cases')
    return src


def run_box_cases(nat, cls, samples, kinds):
    """None if all hold, else (summary, replay dict)"""
    src = box_cases_source(cls, samples)
    b, err = nat.link('cases_' + cls, src)
    if not b:
        return {'error': 'driver does not compile: ' + (err or '')[:800]}
    rc, out = nat.run([b, ' '.join(kinds)], 120)
    n = len(samples)
    if rc == 0:
        return {'ok': n}
    fails = [i for i, l in enumerate(out.split('\n')) if l.startswith('FAIL ')]
    lines = out.split('\n')
    if fails:
        i = int(lines[fails[0]].split()[1])
        what = '\n'.join(lines[fails[0]:fails[0] + 3])
    else:
        cs = [l for l in lines if l.startswith('CASE ')]
        i = int(cs[-1].split()[1]) if cs else 0
        what = 'the driver died (%s) in this case:\n' % rc + '\n'.join(lines[-40:])
    return {'fail': what, 'case': samples[i], 'source': box_cases_source(cls, [samples[i]])}


def fuzz_box(nat, cls, payloads, secs, typ='mp4a', seed=1):
    src = FUZZ_MAIN % dict(inc=box_includes(), cls='shiguredo::mp4::box::' + cls, typ=typ)
    b, err = nat.link('fuzz_' + cls, src, ['-fsanitize=fuzzer'])
    if not b:
        return {'error': 'driver does not compile: ' + (err or '')[:800]}
    d = os.path.join(nat.work, 'corpus_' + cls)
    art = os.path.join(nat.work, 'art_%s-' % cls)
    os.makedirs(d, exist_ok=True)
    for i, p in enumerate(payloads):
        with open(os.path.join(d, 'p%d' % i), 'wb') as f:
            f.write(p)
        if len(p) > 1:
            with open(os.path.join(d, 't%d' % i), 'wb') as f:
                f.write(p[:len(p) // 2])
    rc, out = nat.run([b, d, '-max_total_time=%d' % secs, '-timeout=10', '-rss_limit_mb=3000', '-seed=%d' % seed, '-max_len=4096', '-verbosity=0',
                       '-print_final_stats=1', '-artifact_prefix=' + art], secs + 60)
    import re
    m = re.search(r'number_of_executed_units:\s*(\d+)', out)
    n = int(m.group(1)) if m else 0
    if rc == 0:
        return {'ok': n}
    arts = sorted(glob.glob(art + '*'))
    data = open(arts[0], 'rb').read() if arts else b''
    keep = [l for l in out.split('\n') if l.startswith(('BAD', 'SUMMARY')) or 'runtime error' in l or 'ERROR' in l or '    #' in l][:14]
    return {'fail': '\n'.join(keep) or out[-1500:], 'input': data, 'source': src, 'fuzz': True}
