"""Extraction of /repo's current sources through clang's AST.

Every run dumps the clang JSON AST of the requested translation units, strips
it to what the verifier needs and builds a program database.  What is dropped:
source ranges (only the start line is kept), comments, access specifiers,
attributes, templates that are not instantiated, and all of `namespace std`
(the standard library is represented by the contracts in std.py).
"""
import json, os, subprocess, sys, hashlib, pickle
from concurrent.futures import ProcessPoolExecutor

REPO = os.environ.get('CPPVC_REPO', '/repo')
FLAGS = ['-std=gnu++20', '-DFMT_SHARED', '-DSPDLOG_COMPILED_LIB', '-DSPDLOG_FMT_EXTERNAL',
         '-DSPDLOG_SHARED_LIB', '-DNDEBUG', '-I', 'include']

KEEP = ('kind', 'name', 'opcode', 'value', 'castKind', 'isArrow', 'isPostfix', 'isReversed',
        'valueCategory', 'hasElse', 'hasInit', 'hasVar', 'init', 'constructionKind', 'isArray', 'isPlacement',
        'storageDuration', 'list', 'argType', 'array_filler', 'field', 'isArrayAsWritten', 'elidable',
        'storageClass', 'isInitCapture', 'mutable', 'hasInClassInitializer', 'pure', 'virtual', 'isImplicit',
        'explicitlyDefaulted', 'explicitlyDeleted', 'inline', 'constexpr', 'mangledName', 'declId', 'zeroing')
EXPRISH_DROP = {'OverrideAttr', 'AccessSpecDecl', 'FinalAttr', 'WarnUnusedResultAttr', 'FullComment',
                'FallThroughAttr', 'BuiltinType', 'RecordType'}


class Node(object):
    __slots__ = ('kind', 'a', 'inner', 'ty', 'line', 'ref', 'nid')

    def __init__(self, kind):
        self.kind = kind
        self.a = None
        self.inner = ()
        self.ty = None
        self.line = 0
        self.ref = None      # resolved reference tuple
        self.nid = None

    def get(self, k, d=None):
        return self.a.get(k, d) if self.a else d

    def __getstate__(self):
        return (self.kind, self.a, self.inner, self.ty, self.line, self.ref, self.nid)

    def __setstate__(self, s):
        (self.kind, self.a, self.inner, self.ty, self.line, self.ref, self.nid) = s

    def __repr__(self):
        return '<%s L%s %s>' % (self.kind, self.line, self.ty)


def _tstr(t):
    if not t:
        return None
    return t.get('desugaredQualType') or t.get('qualType')


class TU(object):
    def __init__(self, tag, main):
        self.tag = tag
        self.main = main
        self.file = ''
        self.line = 0
        self.functions = {}   # mangled -> dict
        self.records = {}     # qname -> dict
        self.enums = {}       # qname -> dict
        self.globals = {}     # qname -> Node
        self.aliases = {}     # qname -> type string
        self.did = {}         # decl id -> ('fn',mangled)|('field',rec,name)|('enumc',value,ty)|('gvar',qname)
        self.recid = {}       # decl id -> qname
        self.lambda_fns = {}


class Extractor(object):
    def __init__(self, tag, main):
        self.tu = TU(tag, main)

    # --- pass 1: annotate locations in document order -------------------
    def loc(self, o):
        tu = self.tu
        if isinstance(o, dict):
            if 'offset' in o or 'line' in o or 'file' in o:
                if 'file' in o:
                    tu.file = o['file']
                if 'line' in o:
                    tu.line = o['line']
                return
            # spelling/expansion
            if 'spellingLoc' in o:
                self.loc(o['spellingLoc'])
            if 'expansionLoc' in o:
                self.loc(o['expansionLoc'])

    def annotate(self, n):
        if 'loc' in n:
            self.loc(n['loc'])
            n['_l'] = (self.tu.file, self.tu.line)
        r = n.get('range')
        if r:
            self.loc(r.get('begin', {}))
            if '_l' not in n or 'loc' not in n or not n['loc']:
                n['_l'] = (self.tu.file, self.tu.line)
            self.loc(r.get('end', {}))
        for c in n.get('inner', ()):
            if c:
                self.annotate(c)

    # --- pass 2: register declarations ----------------------------------
    def scan(self, n, scope, parent=None):
        k = n.get('kind')
        tu = self.tu
        if k in ('NamespaceDecl',):
            nm = n.get('name', '(anon)')
            sc = scope + [nm]
            for c in n.get('inner', ()):
                self.scan(c, sc, n)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            nm = n.get('name')
            if not nm:
                for c in n.get('inner', ()):
                    self.scan(c, scope + ['(anonrec)'], n)
                return
            q = '::'.join(scope + [nm])
            tu.recid[n['id']] = q
            if n.get('completeDefinition'):
                rec = {'name': q, 'bases': [_tstr(b['type']) for b in n.get('bases', ())], 'fields': [],
                       'tag': n.get('tagUsed'), 'ctors': [], 'methods': []}
                tu.records[q] = (rec, n)
            for c in n.get('inner', ()):
                if c.get('kind') == 'FieldDecl':
                    tu.did[c['id']] = ('field', q, c.get('name'))
                self.scan(c, scope + [nm], n)
        elif k == 'FunctionTemplateDecl':
            for c in n.get('inner', ()):
                if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                    c['_tmpl'] = not any(x.get('kind') == 'TemplateArgument' for x in c.get('inner', ()))
                    self.scan(c, scope, n)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            if n.get('_tmpl'):
                return
            m = n.get('mangledName')
            if not m:
                m = '::'.join(scope + [n.get('name', '?')]) + ' ' + (_tstr(n.get('type')) or '')
            if n.get('storageClass') == 'static' and k == 'FunctionDecl' or '(anon)' in scope:
                m = m + '@' + tu.tag
            cls = None
            if k != 'FunctionDecl':
                pid = n.get('parentDeclContextId')
                if pid and pid in tu.recid:
                    cls = tu.recid[pid]
                elif parent is not None and parent.get('kind') in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                    cls = tu.recid.get(parent['id'])
                elif parent is not None and parent.get('kind') == 'FunctionTemplateDecl':
                    cls = '::'.join(scope)
                else:
                    cls = tu.fncls.get(m) if hasattr(tu, 'fncls') else None
            if not hasattr(tu, 'fncls'):
                tu.fncls = {}
            if cls:
                tu.fncls[m] = cls
            else:
                cls = tu.fncls.get(m)
            q = (cls + '::' if cls else '::'.join(scope) + '::') + n.get('name', '?')
            tu.did[n['id']] = ('fn', m)
            e = tu.functions.get(m)
            body = any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', ()))
            parms = [c for c in n.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
            if e is None:
                e = {'mangled': m, 'qname': q, 'cls': cls, 'kind': k, 'name': n.get('name'), 'type': _tstr(n.get('type')),
                     'virtual': False, 'pure': False, 'body': None, 'defargs': {}, 'implicit': n.get('isImplicit', False),
                     'targs': [], 'defaulted': False, 'deleted': False, 'file': None, 'line': 0}
                tu.functions[m] = e
            if n.get('virtual') or any(c.get('kind') == 'OverrideAttr' for c in n.get('inner', ())):
                e['virtual'] = True
            if n.get('pure'):
                e['pure'] = True
            if n.get('explicitlyDefaulted') == 'default':
                e['defaulted'] = True
            if n.get('explicitlyDefaulted') == 'deleted' or n.get('explicitlyDeleted'):
                e['deleted'] = True
            for c in n.get('inner', ()):
                if c.get('kind') == 'TemplateArgument':
                    t = _tstr(c.get('type')) or str(c.get('value'))
                    if not body or True:
                        if len(e['targs']) < 8 and e.get('_tfrom') in (None, n['id']):
                            e['targs'].append(t)
                            e['_tfrom'] = n['id']
            for i, p in enumerate(parms):
                if p.get('init') and p.get('inner'):
                    e['defargs'].setdefault(i, p)
            if body or (k == 'CXXConstructorDecl' and any(c.get('kind') == 'CXXCtorInitializer' for c in n.get('inner', ()))):
                if e['body'] is None:
                    e['body'] = n
            # record membership
            if cls and k == 'CXXConstructorDecl':
                r = tu.records.get(cls)
                if r and m not in r[0]['ctors']:
                    r[0]['ctors'].append(m)
            elif cls:
                r = tu.records.get(cls)
                if r and m not in r[0]['methods']:
                    r[0]['methods'].append(m)
        elif k == 'EnumDecl':
            q = '::'.join(scope + [n.get('name', '(anonenum)')])
            vals = {}
            nxt = 0
            for c in n.get('inner', ()):
                if c.get('kind') == 'EnumConstantDecl':
                    v = None
                    for e in c.get('inner', ()):
                        v = _constval(e)
                    if v is None:
                        v = nxt
                    nxt = v + 1
                    vals[c['name']] = v
                    tu.did[c['id']] = ('enumc', v, _tstr(c.get('type')))
            und = _tstr(n.get('fixedUnderlyingType')) or ('unsigned int' if all(v >= 0 for v in vals.values()) else 'int')
            tu.enums[q] = {'name': q, 'vals': vals, 'underlying': und, 'scoped': n.get('scopedEnumTag')}
        elif k == 'VarDecl':
            q = '::'.join(scope + [n.get('name', '?')])
            tu.did[n['id']] = ('gvar', q)
            if any(True for c in n.get('inner', ()) if not c.get('kind', '').endswith('Attr')):
                tu.globals[q] = n
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            q = '::'.join(scope + [n.get('name', '?')])
            tu.aliases[q] = _tstr(n.get('type'))
        elif k in ('LinkageSpecDecl',):
            for c in n.get('inner', ()):
                self.scan(c, scope, n)

    # --- pass 3: convert to Node ----------------------------------------
    def conv(self, n):
        tu = self.tu
        k = n.get('kind')
        if k is None:
            return None
        o = Node(k)
        a = {}
        for key in KEEP:
            if key in n and key != 'kind':
                v = n[key]
                if key == 'argType':
                    v = _tstr(v)
                elif key in ('array_filler', 'field'):
                    continue
                a[key] = v
        t = n.get('type')
        o.ty = _tstr(t)
        l = n.get('_l')
        o.line = l[1] if l else 0
        if 'ctorType' in n:
            a['ctorType'] = _tstr(n['ctorType'])
        if k == 'CXXDefaultInitExpr' or k == 'CXXDefaultArgExpr':
            pass
        if 'computeResultType' in n:
            a['crt'] = _tstr(n['computeResultType'])
            a['clt'] = _tstr(n['computeLHSType'])
        rd = n.get('referencedDecl')
        if rd:
            o.ref = self.resolve(rd)
        rm = n.get('referencedMemberDecl')
        if rm:
            r = tu.did.get(rm)
            if r is not None:
                o.ref = r
            else:
                o.ref = ('stdmember', n.get('name'))
        if 'field' in n:   # member init in InitListExpr union
            a['ufield'] = n['field'].get('name')
        if 'anyInit' in n:
            ai = n['anyInit']
            a['initField'] = ai.get('name')
        if 'baseInit' in n:
            a['initBase'] = _tstr(n['baseInit'])
        if 'delegatingInit' in n:
            a['initDeleg'] = _tstr(n['delegatingInit'])
        if 'path' in n:
            a['path'] = [p.get('name') for p in n['path']]
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl', 'FieldDecl'):
            o.nid = tu.tag + n['id']
        if k == 'LambdaExpr':
            self.conv_lambda(n, o, a)
            o.a = a
            return o
        if k == 'CXXCatchStmt' or k == 'CXXTryStmt':
            pass
        inner = []
        for c in n.get('inner', ()):
            if c is None or not c:
                inner.append(None)
                continue
            ck = c.get('kind')
            if ck in EXPRISH_DROP or (ck or '').endswith('Comment'):
                continue
            if ck in ('CXXRecordDecl', 'TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'UsingDirectiveDecl'):
                continue
            inner.append(self.conv(c))
        if k == 'InitListExpr' and 'array_filler' in n:
            af = [self.conv(c) for c in n['array_filler'] if c]
            # first element of array_filler is the ImplicitValueInitExpr filler
            a['filler'] = af[0] if af else None
            a['explicit'] = af[1:]
        o.inner = tuple(inner)
        o.a = a or None
        return o

    def resolve(self, rd):
        tu = self.tu
        r = tu.did.get(rd['id'])
        if r is not None:
            return r
        k = rd.get('kind')
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl', 'DecompositionDecl'):
            if rd['id'] in self.locals:
                return ('local', tu.tag + rd['id'], rd.get('name'))
            return ('extvar', rd.get('name'), _tstr(rd.get('type')))
        if k == 'EnumConstantDecl':
            return ('extenum', rd.get('name'), _tstr(rd.get('type')))
        return ('ext', rd.get('name'), _tstr(rd.get('type')), k)

    def collect_locals(self, n):
        if not n:
            return
        if n.get('kind') in ('VarDecl', 'ParmVarDecl', 'BindingDecl', 'DecompositionDecl'):
            self.locals.add(n['id'])
        for c in n.get('inner', ()):
            if c:
                self.collect_locals(c)

    def conv_lambda(self, n, o, a):
        rec = next(c for c in n['inner'] if c.get('kind') == 'CXXRecordDecl')
        ops = []
        for c in rec.get('inner', ()):
            if c.get('kind') == 'FunctionTemplateDecl':
                for d in c.get('inner', ()):
                    if d.get('kind') == 'CXXMethodDecl' and any(x.get('kind') == 'TemplateArgument' for x in d.get('inner', ())):
                        ops.append(self.fnbody(d))
            elif c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                ops.append(self.fnbody(c))
        a['ops'] = [x for x in ops if x and x['body'] is not None]
        fields = [c for c in rec.get('inner', ()) if c.get('kind') == 'FieldDecl']
        a['capfields'] = [(_tstr(f.get('type'))) for f in fields]
        # captures: the expressions following the record, except the last CompoundStmt
        caps = [c for c in n['inner'] if c.get('kind') not in ('CXXRecordDecl', 'CompoundStmt')]
        a['caps'] = [self.conv(c) for c in caps]

    def fnbody(self, n):
        parms = [self.conv(c) for c in n.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        body = None
        inits = []
        for c in n.get('inner', ()):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                body = self.conv(c)
            elif c.get('kind') == 'CXXCtorInitializer':
                inits.append(self.conv(c))
        return {'params': parms, 'body': body, 'inits': inits, 'type': _tstr(n.get('type'))}

    def run(self, path):
        s = open(path).read()
        dec = json.JSONDecoder()
        i = 0
        docs = []
        L = len(s)
        while i < L:
            while i < L and s[i].isspace():
                i += 1
            if i >= L:
                break
            d, i = dec.raw_decode(s, i)
            docs.append(d)
        tu = self.tu
        for d in docs:
            self.annotate(d)
        for d in docs:
            if d.get('kind') == 'NamespaceDecl':
                self.scan(d, [])
        self.locals = set()
        out = {'functions': {}, 'records': {}, 'enums': tu.enums, 'globals': {}, 'aliases': tu.aliases}
        for d in docs:
            if d.get('kind') == 'NamespaceDecl':
                self.collect_locals(d)
        for m, e in tu.functions.items():
            e.pop('_tfrom', None)
            n = e['body']
            defargs = {}
            for i, p in e['defargs'].items():
                inn = [self.conv(c) for c in p.get('inner', ()) if c and not c['kind'].endswith('Comment')]
                defargs[i] = inn[0] if inn else None
            e['defargs'] = defargs
            if n is not None:
                l = n.get('_l', ('', 0))
                e['file'], e['line'] = l
                e['body'] = None
                if e['name'] in ('toString', 'toStringOnlyData') and e['qname'].find('BoxType') < 0:
                    e['skipped'] = True
                    out['functions'][m] = e
                    continue
                fb = self.fnbody(n)
                e.update(fb)
                if e['kind'] == 'CXXConstructorDecl' and e['body'] is None and not fb['inits']:
                    pass
            out['functions'][m] = e
        for q, (rec, n) in tu.records.items():
            for c in n.get('inner', ()):
                if c.get('kind') == 'FieldDecl':
                    f = self.conv(c)
                    rec['fields'].append((c.get('name'), f.ty, f.inner[0] if f.inner else None))
            rec['file'] = n.get('_l', ('', 0))[0]
            out['records'][q] = rec
        for q, n in tu.globals.items():
            out['globals'][q] = self.conv(n)
        return out


def _constval(e):
    if not e:
        return None
    if e.get('kind') == 'ConstantExpr' and 'value' in e:
        try:
            return int(e['value'])
        except ValueError:
            return None
    if e.get('kind') == 'IntegerLiteral':
        return int(e['value'])
    for c in e.get('inner', ()):
        v = _constval(c)
        if v is not None:
            return v
    return None


def dump_tu(args):
    src, tag, tmp = args
    sys.setrecursionlimit(20000)
    path = os.path.join(tmp, tag + '.json')
    with open(path, 'w') as f:
        p = subprocess.run(['clang++'] + FLAGS + ['-fsyntax-only', '-Xclang', '-ast-dump=json',
                            '-Xclang', '-ast-dump-filter=shiguredo', src], cwd=REPO, stdout=f, stderr=subprocess.PIPE)
    if p.returncode != 0:
        return src, None, p.stderr.decode()[-2000:]
    try:
        out = Extractor(tag, src).run(path)
    finally:
        os.unlink(path)
    return src, out, None


class Program(object):
    def __init__(self):
        self.functions = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.aliases = {}
        self.sources = {}

    def merge(self, src, out):
        for m, e in out['functions'].items():
            o = self.functions.get(m)
            if o is None:
                self.functions[m] = e
                continue
            if o.get('body') is None and e.get('body') is not None:
                da = dict(o['defargs']); da.update(e['defargs'])
                e['defargs'] = da
                e['virtual'] = e['virtual'] or o['virtual']
                e['pure'] = e['pure'] or o['pure']
                self.functions[m] = e
            else:
                for i, d in e['defargs'].items():
                    o['defargs'].setdefault(i, d)
                o['virtual'] = o['virtual'] or e['virtual']
        for q, r in out['records'].items():
            o = self.records.get(q)
            if o is None:
                self.records[q] = r
            else:
                for m in r['ctors']:
                    if m not in o['ctors']:
                        o['ctors'].append(m)
                for m in r['methods']:
                    if m not in o['methods']:
                        o['methods'].append(m)
        self.enums.update({k: v for k, v in out['enums'].items() if k not in self.enums})
        for q, n in out['globals'].items():
            self.globals.setdefault(q, n)
        for q, t in out['aliases'].items():
            self.aliases.setdefault(q, t)

    def finish(self):
        self.byq = {}
        for m, e in self.functions.items():
            self.byq.setdefault(e['qname'], []).append(m)
        self.short = {}
        for q in self.records:
            self.short.setdefault(q.split('::')[-1], []).append(q)


def all_sources():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        if d.endswith('/cli'):
            continue
        for f in fs:
            if f.endswith('.cpp') and f != 'version.cpp':
                r.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(r)


class ExtractionError(Exception):
    pass


def load(sources, jobs=8):
    import tempfile, shutil
    tmp = tempfile.mkdtemp(prefix='cppvc-ast-')
    P = Program()
    try:
        work = [(s, 't%d:' % i, tmp) for i, s in enumerate(sources)]
        with ProcessPoolExecutor(max_workers=jobs) as ex:
            for src, out, err in ex.map(dump_tu, work):
                if out is None:
                    raise ExtractionError('%s: %s' % (src, err))
                P.merge(src, out)
                P.sources[src] = hashlib.sha256(open(os.path.join(REPO, src), 'rb').read()).hexdigest()[:16]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    P.finish()
    return P


if __name__ == '__main__':
    import time
    t = time.time()
    srcs = sys.argv[1:] or all_sources()
    P = load(srcs)
    print(len(srcs), 'TUs', time.time() - t, 's;', len(P.functions), 'functions', sum(1 for e in P.functions.values() if e.get('body') is not None), 'bodies', len(P.records), 'records')
