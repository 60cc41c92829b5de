"""Path-forking symbolic executor for the C++ subset used by /repo, over clang's AST.

Forking is by re-execution: a path is a sequence of decisions; `explore` runs a
thunk once per feasible decision sequence.  Every undefined-behaviour condition
of the executed code (index, shift, division, null, signed overflow) is emitted
as an obligation.
"""
import sys, time
import z3
from .vals import *
from . import vals
from .streams import *
from . import solver

sys.setrecursionlimit(50000)


class CppThrow(Exception):
    def __init__(self, ty, node=None):
        self.ty = ty
        self.node = node


class Break_(Exception):
    pass


class Continue_(Exception):
    pass


class Return_(Exception):
    def __init__(self, v):
        self.v = v


class Infeasible(Exception):
    pass


class ExitCond(Exception):
    pass


class Outcome(object):
    __slots__ = ('kind', 'val', 'mem', 'pc', 'exc')

    def __init__(self, kind, val, mem, pc, exc=None):
        self.kind, self.val, self.mem, self.pc, self.exc = kind, val, mem, pc, exc


class Level(object):
    def __init__(self, tag):
        self.tag = tag          # names of constants owned by this level start with these
        self.prefix = []
        self.pos = 0
        self.decs = []
        self.pc = []


class Obligation(object):
    __slots__ = ('fn', 'label', 'line', 'status', 'time', 'backend', 'model', 'goal', 'pc', 'kind', 'detail')

    def as_dict(self):
        return {'function': self.fn, 'obligation': self.label, 'line': self.line, 'status': self.status,
                'backend': self.backend, 'time_s': round(self.time, 4), 'kind': self.kind, 'detail': self.detail}


class Frame(object):
    __slots__ = ('vars', 'this', 'fn')

    def __init__(self, this, fn):
        self.vars = {}
        self.this = this
        self.fn = fn


class Exec(object):
    UNROLL = 4500

    def __init__(self, prog, contracts=None, unit='?'):
        self.P = prog
        self.tp = TypeParser(prog)
        self.contracts = contracts or {}
        self.mem = {}
        self.cellty = {}
        self.quiet = 0
        self.levels = [Level('root')]
        self.ncell = 0
        self.nfresh = 0
        self.nloop = 0
        self.gens = []
        self.frames = []
        self.unit = unit
        self.obls = {}
        self.inlined = set()
        self.used_contracts = set()
        self.notes = []
        self.trusted = set()
        self.feas_cache = {}
        self.loop_cache = {}
        self.local_only = False
        self.nexplore = 0
        self.depth = 0
        self.assumptions = set()
        self.watch_reads = []
        self.safety = True
        self.split_width = None
        self.merge_ifs = False
        self.deadline = None
        self.facts_global = []
        self.ghost = {}
        vals.FIELD_TY[0] = self.field_ty
        self._fty = {}
        self._bases = {}

    # ------------------------------------------------------------ program info
    def T(self, s):
        return self.tp.parse(s)

    def bases(self, q):
        r = self._bases.get(q)
        if r is None:
            r = []
            rec = self.P.records.get(q)
            if rec is None:
                raise Unsupported('unknown record ' + q)
            for b in rec['bases']:
                t = self.T(b)
                if t.k == 'rec':
                    r.append(t.name)
            self._bases[q] = r
        return r

    def is_sub(self, q, base):
        if q == base:
            return True
        return any(self.is_sub(b, base) for b in self.bases(q))

    def all_fields(self, q):
        """(name, Ty, init node, owner) including bases"""
        out = []
        for b in self.bases(q):
            out += self.all_fields(b)
        for (n, t, i) in self.fields(q):
            out.append((n, self.T(t), i, q))
        return out

    def fk(self, q, n):
        """key of field n of class q (qualified when it hides a base-class field)"""
        k = ('fk', q, n)
        if k not in self._fty:
            sh = any(self.has_field(b, n) for b in self.bases(q))
            self._fty[k] = q.split('::')[-1] + '::' + n if sh else n
        return self._fty[k]

    def has_field(self, q, n):
        return any(f[0] == n for f in self.P.records[q]['fields']) or any(self.has_field(b, n) for b in self.bases(q))

    def fields(self, q):
        return [(self.fk(q, n), t, i) for (n, t, i) in self.P.records[q]['fields']]

    def field_ty(self, q, f):
        k = (q, f)
        if k not in self._fty:
            for (n, t, i, o) in self.all_fields(q):
                self._fty[(q, n)] = t
        return self._fty.get(k)

    # ------------------------------------------------------------ memory
    def new_cell(self, v, ty=None):
        self.ncell += 1
        c = 'c%d' % self.ncell
        self.mem[c] = v
        self.cellty[c] = ty
        return LV(c)

    def type_at(self, cell, path):
        """static type of a location, or None"""
        v = self.mem.get(cell)
        t = self.cellty.get(cell)
        for p in path:
            if isinstance(p, tuple):
                v = self.elem(v, p[1]) if isinstance(v, (ArrV,)) else None
                t = t.to if t is not None and t.k in ('vec', 'arr', 'str') else None
            else:
                if isinstance(v, RecV):
                    t = self.field_ty(v.q, p)
                    v = v.f.get(p)
                elif t is not None and t.k == 'rec':
                    t = self.field_ty(t.name, p)
                else:
                    t = None
        return t

    def load(self, lv):
        try:
            v = self.mem[lv.cell]
        except KeyError:
            raise Unsupported('dangling cell ' + str(lv))
        for p in lv.path:
            if isinstance(p, tuple):
                v = v.items[p[1]][1] if p[0] == 'map' else self.elem(v, p[1])
            else:
                if not isinstance(v, RecV):
                    raise Unsupported('field %s of %r' % (p, v))
                if p not in v.f:
                    raise Unsupported('no field %s in %s' % (p, v.q))
                v = v.f[p]
        return v

    def elem(self, v, i):
        if isinstance(v, MapV):
            k, x = v.items[i]
            return RecV('std::pair', {'first': k, 'second': x})
        i = conc(i) if is_sym(i) else i
        if isinstance(v, ArrV):
            if isinstance(i, int):
                if i >= len(v.items):
                    raise Unsupported('index out of array')
                return v.items[i]
            r = v.items[-1]
            for j in range(len(v.items) - 2, -1, -1):
                r = vite(EQ(i, j), v.items[j], r, v.to)
            return r
        if isinstance(v, VecV):
            if v.tag and v.tag[0] == 'ph':
                self.on_ph_read(v, i)
            if v.items is not None and isinstance(i, int) and i >= len(v.items):
                raise Unsupported('index out of vector')
            return v.get(i)
        raise Unsupported('element of %r' % (v,))

    def store(self, lv, val):
        self.mem[lv.cell] = self._upd(self.mem.get(lv.cell), lv.path, val)

    def _upd(self, v, path, val):
        if not path:
            return val
        p = path[0]
        if isinstance(p, tuple):
            i = conc(p[1]) if is_sym(p[1]) else p[1]
            old = None
            if len(path) > 1:
                old = v.items[i][1] if p[0] == 'map' else self.elem(v, i)
            new = self._upd(old, path[1:], val) if len(path) > 1 else val
            if isinstance(v, ArrV):
                if isinstance(i, int):
                    it = list(v.items)
                    it[i] = new
                else:
                    it = [vite(EQ(i, j), new, o, v.to) for j, o in enumerate(v.items)]
                return ArrV(v.to, it)
            if isinstance(v, VecV):
                return self.vec_store(v, i, new)
            if isinstance(v, MapV):
                it = list(v.items)
                it[i] = (it[i][0], new) if p[0] == 'map' else (new.f['first'], new.f['second'])
                return MapV(it)
            raise Unsupported('indexed store into %r' % (v,))
        if not isinstance(v, RecV):
            raise Unsupported('field store %s into %r' % (p, v))
        return v.with_(p, self._upd(v.f.get(p), path[1:], val))

    def vec_store(self, v, i, new):
        if v.items is not None and isinstance(i, int):
            it = list(v.items)
            it[i] = new
            return VecV(v.to, it)
        if v.items is not None:
            return VecV(v.to, [vite(EQ(i, j), new, o, v.to) for j, o in enumerate(v.items)])
        base, ov = v, []
        if v.tag and v.tag[0] == 'store':
            base, ov = v.tag[1], list(v.tag[2])
        ov = [(a, b) for (a, b) in ov if not self._same(a, i)] + [(i, new)]
        ov = tuple(ov)

        def fn(j, base=base, ov=ov, to=v.to, self=self):
            r = None
            for a, b in reversed(ov):
                e = EQ(j, a)
                if e is True:
                    if r is None:
                        return b
            # general case
            r = self.elem(base, j)
            for a, b in ov:
                r = vite(EQ(j, a), b, r, to)
            return r
        return VecV(v.to, None, v.n, fn, ('store', base, ov))

    @staticmethod
    def _same(a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if is_sym(a) and is_sym(b):
            return a.eq(b) or conc(a == b) is True
        return False

    def vec_append(self, v, val):
        if v.items is not None:
            return VecV(v.to, v.items + (val,))
        n0 = v.n

        def fn(j, v=v, n0=n0, val=val, self=self):
            e = EQ(j, n0)
            if e is True:
                return val
            if e is False:
                return self.elem(v, j)
            if isinstance(val, (PtrV, NullV)):
                return val if self.decide(e) else self.elem(v, j)
            return vite(e, val, self.elem(v, j), v.to)
        return VecV(v.to, None, add(n0, 1), fn, ('append', v, val))

    def vec_concat(self, a, b):
        if a.items is not None and b.items is not None:
            return VecV(a.to, a.items + b.items)
        if a.items is not None and not a.items:
            return VecV(a.to, b.items, b.n, b.fn)
        if b.items is not None and not b.items:
            return a
        n0 = a.n

        def fn(j, a=a, b=b, n0=n0):
            c = ULT(j, n0)
            if c is True:
                return a.get(j)
            if c is False:
                return b.get(sub(j, n0))
            if a.to is not None and a.to.k == 'ptr':
                return a.get(j) if self.decide(c) else b.get(sub(j, n0))
            return vite(c, a.get(j), b.get(sub(j, n0)), a.to)
        return VecV(a.to, None, add(n0, b.n), fn, ('concat', a, b))

    def on_ph_read(self, v, i):
        for w in self.watch_reads:
            if w['name'] == v.tag[1]:
                w['reads'].append(i)

    # ------------------------------------------------------------ fresh symbols
    def fresh_name(self, hint):
        self.nfresh += 1
        return '%s#%d' % (hint, self.nfresh)

    def fresh(self, ty, hint, args=None):
        args = list(self.gens) if args is None else args
        return self.sym(ty, self.fresh_name(hint), args)

    def sym(self, ty, name, args):
        """a fully symbolic value of a type; scalars are uninterpreted functions of the index args"""
        args = list(args)
        if ty.k == 'int':
            return uf(name, args, z3.BitVecSort(ty.w))
        if ty.k == 'bool':
            return uf(name, args, z3.BoolSort())
        if ty.k == 'flt':
            return uf(name, args, FSort)
        if ty.k in ('vec', 'str'):
            n = uf(name + '.len', args, z3.BitVecSort(64))
            if not args:
                self.assume(z3.ULE(n, z3.BitVecVal(1 << 47, 64)), outer=True)
            to = ty.to
            return VecV(to, None, n, lambda i, name=name, args=args, to=to, self=self: self.sym(to, name + '[]', args + [i]), ('sym', name))
        if ty.k == 'arr':
            return ArrV(ty.to, [self.sym(ty.to, '%s.%d' % (name, i), args) for i in range(ty.n)])
        if ty.k == 'rec':
            return RecV(ty.name, {n: self.sym(t, name + '.' + n, args) for (n, t, i, o) in self.all_fields(ty.name)})
        if ty.k == 'ptr':
            return Opaque('symbolic pointer ' + name)
        return Opaque('symbolic ' + name)

    def default_value(self, ty, zero=True):
        if ty.k == 'int':
            return 0 if zero else UNINIT
        if ty.k == 'bool':
            return False if zero else UNINIT
        if ty.k == 'flt':
            return z3.Const('0.0f', FSort) if zero else UNINIT
        if ty.k in ('vec', 'str'):
            return VecV(ty.to, ())
        if ty.k == 'arr':
            if ty.n > 4096:
                return VecV(ty.to, None, ty.n, lambda i, d=self.default_value(ty.to, zero): d, ('arr',))
            return ArrV(ty.to, [self.default_value(ty.to, zero) for _ in range(ty.n)])
        if ty.k == 'ptr':
            return NULL if zero or ty.name == 'smart' else UNINIT
        if ty.k == 'rec':
            return self.construct_default(ty.name)
        if ty.k == 'stream':
            return OutS()
        if ty.k == 'map':
            return VecV(None, ())
        return Opaque('default ' + repr(ty))

    def construct_default(self, q):
        lv = self.new_cell(self.blank(q))
        self.run_ctor(q, lv, [], None)
        return self.load(lv)

    def blank(self, q):
        return RecV(q, {n: self.blank_ty(t) for (n, t, i, o) in self.all_fields(q)})

    def blank_ty(self, t):
        if t.k in ('vec', 'str', 'stream', 'map'):
            return self.default_value(t)
        if t.k == 'arr':
            if t.n > 4096:
                return VecV(t.to, None, t.n, lambda i, d=self.blank_ty(t.to): d, ('arr',))
            return ArrV(t.to, [self.blank_ty(t.to) for _ in range(t.n)])
        if t.k == 'rec':
            return self.blank(t.name)
        if t.k == 'ptr' and t.name == 'smart':
            return NULL
        return UNINIT

    # ------------------------------------------------------------ path condition / decisions
    def pc(self):
        r = []
        for l in self.levels:
            r.extend(l.pc)
        return r

    def facts(self, exprs):
        f, infos = SUMS.facts(exprs)
        return f

    def assume(self, c, outer=False):
        """add to the path condition of the innermost level, or (outer) of the level owning the constants"""
        c = conc(c)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        l = self.owner(c) if outer and not self.local_only else self.levels[-1]
        for x in l.pc:
            if x.eq(c):
                return
        l.pc.append(c)

    def owner(self, c):
        names = list(free_consts_all(c))
        for i in range(len(self.levels) - 1, 0, -1):
            l = self.levels[i]
            if any(l.tag(nm) for nm in names):
                return l
        return self.levels[0]

    def entails(self, c, timeout=3000, extra=()):
        c = conc(c)
        if c is True:
            return True
        if c is False:
            return False
        pc = self.pc() + list(extra)
        for x in pc:
            if x.eq(c):
                return True
        key = (tuple(sorted(x.get_id() for x in pc)), c.get_id(), 'e')
        r = self.feas_cache.get(key)
        if r is None:
            a = pc + [z3.Not(c)]
            st = solver.status(a + self.facts(a), timeout)
            r = (st == 'unsat', c, pc)
            if st != 'unknown' or timeout >= 3000:
                self.feas_cache[key] = r
        return r[0]

    def feasible(self, extra):
        pc = self.pc()
        a = pc + [e for e in extra]
        key = (tuple(sorted(x.get_id() for x in a)), 'f')
        r = self.feas_cache.get(key)
        if r is None:
            st = solver.status(a + self.facts(a), 3000)
            r = (st != 'unsat', a)
            self.feas_cache[key] = r
        return r[0]

    def decide(self, c, free=False):
        """fork on a boolean term; returns a python bool"""
        c = conc(c)
        if isinstance(c, bool):
            return c
        for x in self.pc():
            if x.eq(c):
                return True
            if z3.is_not(x) and x.children()[0].eq(c):
                return False
        if z3.is_not(c):
            return not self.decide(c.children()[0])
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the unit exhausted')
        inner = self.levels[-1]
        l = inner if self.local_only else self.owner(c)
        if l is not inner:
            # forced by the inner path condition: not a decision of the outer level
            t = self.feasible([c])
            f = self.feasible([z3.Not(c)])
            if not t and not f:
                raise Infeasible()
            if not (t and f):
                inner.pc.append(c if t else z3.Not(c))
                return t
        if l.pos < len(l.prefix):
            ch = l.prefix[l.pos]
            l.pos += 1
            l.decs.append(ch)
            l.pc.append(c if ch[0] else z3.Not(c))
            return ch[0]
        if l is inner:
            t = free or self.feasible([c])
            f = free or self.feasible([z3.Not(c)])
            if not t and not f:
                raise Infeasible()
        d = (t, t and f)
        l.decs.append(d)
        l.prefix.append(d)
        l.pos += 1
        l.pc.append(c if t else z3.Not(c))
        return t

    def choose(self, n, label):
        """nondeterministic choice among n alternatives at the current level (ghost)"""
        for i in range(n - 1):
            b = self.fresh(BOOL, 'choice!' + label)
            if self.decide(b, True):
                return i
        return n - 1

    def explore(self, thunk, tag=None, assumptions=()):
        """run thunk on every feasible path; mem and pc are restored afterwards"""
        lvl = Level(tag or (lambda nm: False))
        lvl.tag = tag or (lambda nm: True)
        self.nexplore += 1
        lvl.uid = self.nexplore
        mem0 = self.mem
        frames0 = list(self.frames)
        fvars0 = [dict(f.vars) for f in frames0]
        nf0, nc0, nl0, g0, d0 = self.nfresh, self.ncell, self.nloop, list(self.gens), self.depth
        gh0 = dict(self.ghost)
        out = []
        mx = [nf0, nc0, nl0]
        self.levels.append(lvl)
        try:
            while True:
                self.mem = dict(mem0)
                self.ghost = dict(gh0)
                self.frames = list(frames0)
                for f, v in zip(frames0, fvars0):
                    f.vars = dict(v)
                self.nfresh, self.ncell, self.nloop, self.gens, self.depth = nf0, nc0, nl0, list(g0), d0
                lvl.pc = []
                lvl.pos = 0
                lvl.decs = []
                try:
                    for a in assumptions:
                        a = conc(a)
                        if a is False:
                            raise Infeasible()
                        if a is not True:
                            lvl.pc.append(a)
                    v = thunk()
                    out.append(Outcome('ret', v, self.mem, list(lvl.pc)))
                except Infeasible:
                    pass
                except CppThrow as e:
                    out.append(Outcome('throw', e.ty, self.mem, list(lvl.pc), e))
                except Return_ as e:
                    out.append(Outcome('return', e.v, self.mem, list(lvl.pc)))
                except Break_:
                    out.append(Outcome('break', None, self.mem, list(lvl.pc)))
                except Continue_:
                    out.append(Outcome('cont', None, self.mem, list(lvl.pc)))
                except ExitCond:
                    out.append(Outcome('exit', None, self.mem, list(lvl.pc)))
                mx = [max(mx[0], self.nfresh), max(mx[1], self.ncell), max(mx[2], self.nloop)]
                if len(out) > 3000:
                    raise Unsupported('too many paths')
                # backtrack
                decs = lvl.decs
                while decs and not decs[-1][1]:
                    decs.pop()
                if not decs:
                    break
                ch = decs.pop()
                lvl.prefix = list(decs) + [(not ch[0], False)]
        finally:
            self.levels.pop()
            self.mem = mem0
            self.ghost = gh0
            self.frames = frames0
            for f, v in zip(frames0, fvars0):
                f.vars = v
            self.nfresh, self.ncell, self.nloop, self.gens, self.depth = mx[0], mx[1], mx[2], g0, d0
        # cells allocated inside are visible in the outcomes' memories only
        return out

    # ------------------------------------------------------------ obligations
    def prove(self, goal, label, node=None, kind='post', assume_after=True, detail=None):
        g = conc(goal)
        if self.ghost.get('io_only') and kind != 'io':
            # this run is about lost failures alone; everything else is proved elsewhere
            if kind == 'ub':
                if g is False:
                    raise Infeasible()
                if g is not True:
                    self.assume(g)
            return True
        if self.quiet:
            if g is False:
                raise Infeasible()
            if g is not True:
                self.assume(g)
            return True
        line = node.line if node is not None else 0
        fn = self.frames[-1].fn if self.frames else self.unit
        pc = self.pc()
        key = (fn, label, line, g if isinstance(g, bool) else g.get_id(), tuple(x.get_id() for x in pc))
        if key in self.obls:
            ob = self.obls[key]
        else:
            ob = Obligation()
            ob.fn, ob.label, ob.line, ob.kind, ob.detail = fn, label, line, kind, detail
            ob.goal, ob.pc = g, pc
            ob.model = None
            t = time.time()
            if g is True:
                ob.status, ob.backend = 'discharged', 'simplifier'
            else:
                self.discharge(ob, g, pc)
            ob.time = time.time() - t
            self.obls[key] = ob
        if assume_after and ob.status != 'discharged':
            if g is False:
                raise Infeasible()
            self.assume(g)
        return ob.status == 'discharged'

    def discharge(self, ob, g, pc):
        ng = z3.Not(zb(g))
        a = pc + [ng]
        st, m, b = solver.check(a + self.facts(a))
        if st == 'sat':
            # equate provably equal sums and retry
            lem = self.sum_lemmas(a)
            if lem:
                st, m, b = solver.check(a + self.facts(a) + lem)
        if st == 'unknown':
            r = solver.check_cvc5(a + self.facts(a))
            if r == 'unsat':
                st, b = 'unsat', 'cvc5'
        ob.backend = b
        if st == 'unsat':
            ob.status = 'discharged'
        elif st == 'sat':
            ob.status = 'failed'
            ob.model = m
        else:
            ob.status = 'unknown'

    def sum_lemmas(self, a):
        f, infos = SUMS.facts(a)
        out = []
        for i in range(len(infos)):
            for j in range(i + 1, len(infos)):
                t1, n1, k1, a1 = infos[i]
                t2, n2, k2, a2 = infos[j]
                if t1.eq(t2) or t1.decl().name() == t2.decl().name():
                    continue
                if not self.entails(n1 == n2):
                    continue
                b2 = z3.substitute(a2, (k2, k1))
                if a1.size() != b2.size():
                    continue
                st, m, b = solver.check(self.pc() + [z3.ULT(k1, n1), a1 != b2], 3000)
                if st == 'unsat':
                    out.append(t1 == t2)
        return out

    # ------------------------------------------------------------ calls
    def find_fn(self, m):
        return self.P.functions.get(m)

    def call(self, m, this, args, node):
        e = self.P.functions.get(m)
        if e is None:
            raise Unsupported('call to unknown function ' + str(m))
        if this is not None and e['virtual']:
            e = self.dispatch(e, this)
        return self.call_entry(e, this, args, node)

    def dispatch(self, e, this):
        v = self.load(this) if isinstance(this, LV) else this
        if not isinstance(v, RecV):
            raise Unsupported('virtual call %s on %r' % (e['qname'], v))
        sig = e['type']
        q = v.q
        r = self.find_override(q, e['name'], sig)
        return r or e

    def find_override(self, q, name, sig):
        for m in self.P.records[q]['methods']:
            f = self.P.functions.get(m)
            if f and f['name'] == name and self.same_sig(f['type'], sig):
                return f
        for b in self.bases(q):
            r = self.find_override(b, name, sig)
            if r:
                return r
        return None

    def same_sig(self, a, b):
        if a == b:
            return True
        na = a[a.find('('):] if a else ''
        nb = b[b.find('('):] if b else ''
        na = na.replace(' const', '').replace(' noexcept', '')
        nb = nb.replace(' const', '').replace(' noexcept', '')
        if na == nb:
            return True
        pa, pb = split_targs(na.strip('() ')), split_targs(nb.strip('() '))
        if len(pa) != len(pb):
            return False
        return all(repr(self.T(x)) == repr(self.T(y)) for x, y in zip(pa, pb))

    def call_entry(self, e, this, args, node, nocontract=False):
        c = self.contracts.get(e['qname'])
        if c is not None and not nocontract:
            self.used_contracts.add(e['qname'])
            return c(self, e, this, args, node)
        if e.get('body') is None:
            if e['kind'] == 'CXXMethodDecl' and e['defaulted']:
                return self.defaulted_method(e, this, args, node)
            raise Unsupported('no body for ' + e['qname'])
        self.inlined.add(e['qname'])
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('call depth (recursion without a contract): ' + e['qname'])
        fr = Frame(this, e['qname'])
        self.bind_params(fr, e, args)
        self.frames.append(fr)
        try:
            self.stmt(e['body'])
            r = None
        except Return_ as x:
            r = x.v
        finally:
            self.frames.pop()
            self.depth -= 1
        return r

    def bind_params(self, fr, e, args):
        ps = e['params']
        for i, p in enumerate(ps):
            t = self.T(p.ty)
            if i < len(args):
                v = args[i]
            else:
                d = e['defargs'].get(i)
                if d is None:
                    raise Unsupported('missing default argument')
                v = self.ev(d)
            if p.nid is None:
                continue
            fr.vars[p.nid] = self.bind(t, v)
            if t.k != 'ref':
                self.cellty[fr.vars[p.nid].cell] = t

    def bind(self, t, v):
        if t.k == 'ref':
            if isinstance(v, LV):
                return v
            return self.new_cell(v)
        if isinstance(v, LV):
            v = self.load(v)
        return self.new_cell(v)

    def defaulted_method(self, e, this, args, node):
        if e['name'] == 'operator=':
            v = args[0]
            if isinstance(v, LV):
                v = self.load(v)
            self.store(this, v)
            return this
        if e['name'] == 'operator==':
            return self.veq(self.load(this), self.rval(args[0]))
        raise Unsupported('defaulted ' + e['qname'])

    def rval(self, v):
        return self.load(v) if isinstance(v, LV) else v

    # structural equality of values, as a term
    def veq(self, a, b, skip=()):
        if isinstance(a, RecV) and isinstance(b, RecV):
            if a.q != b.q:
                return False
            return AND(*[self.veq(a.f[k], b.f[k]) for k in a.f if k not in skip])
        if isinstance(a, ArrV) and isinstance(b, ArrV):
            return AND(*[self.veq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, VecV) and isinstance(b, VecV):
            if a.items is not None and b.items is not None:
                if len(a.items) != len(b.items):
                    return False
                return AND(*[self.veq(x, y) for x, y in zip(a.items, b.items)])
            ne = EQ(a.n, b.n)
            if ne is False:
                return False
            # quantified: equal lengths and equal at every index
            k = fresh_k()
            if (a.items is not None and not a.items) or (b.items is not None and not b.items):
                return ne
            body = self.veq(a.get(k), b.get(k))
            if body is True:
                return ne
            return AND(ne, z3.ForAll([k], z3.Implies(z3.ULT(k, bv(a.n, 64)), zb(body))))
        if isinstance(a, NullV) or isinstance(b, NullV):
            return a is b
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if not a.lv.same(b.lv):
                return False
            return EQ(a.idx if a.idx is not None else 0, b.idx if b.idx is not None else 0)
        if a is UNINIT or b is UNINIT:
            return a is b
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('comparison of opaque values')
        return EQ(a, b)

    # ------------------------------------------------------------ constructors
    def run_ctor(self, q, lv, args, node, ctortype=None):
        rec = self.P.records[q]
        c = self.contracts.get('ctor:' + q)
        if c is not None:
            self.used_contracts.add('ctor:' + q)
            return c(self, q, lv, args, node)
        cand = None
        for m in rec['ctors']:
            e = self.P.functions.get(m)
            if e is None or e['deleted']:
                continue
            if ctortype is not None:
                if self.same_sig(e['type'], ctortype):
                    cand = e
                    break
            elif len(args) == 0 and e['type'].replace(' noexcept', '') in ('void ()',):
                cand = e
                break
        if cand is None or (cand.get('body') is None and not cand.get('inits')):
            # implicit / defaulted
            if len(args) == 0:
                return self.implicit_default(q, lv)
            if len(args) == 1:
                v = self.rval(args[0])
                if isinstance(v, RecV) and self.is_sub(v.q, q):
                    self.store(lv, v if v.q == q else RecV(q, {n: v.f[n] for (n, t, i, o) in self.all_fields(q)}))
                    return
            raise Unsupported('constructor of %s %s' % (q, ctortype))
        e = cand
        if len(args) == 1 and not e.get('inits') and e['defaulted']:
            v = self.rval(args[0])
            self.store(lv, v)
            return
        self.inlined.add(e['qname'])
        fr = Frame(lv, e['qname'])
        self.bind_params(fr, e, args)
        self.frames.append(fr)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('constructor recursion')
        try:
            done = set()
            deleg = False
            for it in e['inits']:
                if it.get('initDeleg'):
                    ce = it.inner[0]
                    deleg = True
                    self.construct_into(lv, ce, q)
                elif it.get('initBase'):
                    bt = self.T(it.get('initBase'))
                    ce = it.inner[0] if it.inner else None
                    if bt.k != 'rec':
                        continue
                    self.construct_into(lv, ce, bt.name)
                    done.add(bt.name)
                elif it.get('initField'):
                    f = self.fk(q, it.get('initField'))
                    done.add(f)
                    x = it.inner[0] if it.inner else None
                    self.init_field(q, lv, f, x)
            if not deleg:
                for b in self.bases(q):
                    if b not in done:
                        self.run_ctor(b, lv, [], node)
                for (n, t, i) in self.fields(q):
                    if n not in done:
                        ft = self.T(t)
                        if i is not None:
                            self.init_field(q, lv, n, i)
                        elif ft.k == 'rec':
                            self.init_member_default(lv, n, ft)
                        else:
                            self.store(lv.field(n), self.blank_ty(ft))
            if e['body'] is not None:
                try:
                    self.stmt(e['body'])
                except Return_:
                    pass
        finally:
            self.frames.pop()
            self.depth -= 1

    def init_member_default(self, lv, n, ft):
        self.store(lv.field(n), self.blank(ft.name))
        self.run_ctor(ft.name, lv.field(n), [], None)

    def construct_into(self, lv, ce, q):
        ce = self.strip_expr(ce)
        if ce is None:
            return self.run_ctor(q, lv, [], None)
        if ce.kind == 'CXXConstructExpr':
            args = [self.ev(a) for a in ce.inner]
            return self.run_ctor(q, lv, args, ce, ce.get('ctorType'))
        raise Unsupported('base initializer ' + ce.kind)

    @staticmethod
    def strip_expr(n):
        while n is not None and n.kind in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'ParenExpr', 'ConstantExpr', 'MaterializeTemporaryExpr') and n.inner:
            n = n.inner[0]
        return n

    def init_field(self, q, lv, f, x):
        ft = self.field_ty(self.dyn(lv) or q, f) or self.field_ty(q, f)
        if x is None or x.kind == 'CXXDefaultInitExpr':
            for (n, t, i) in self.fields(q):
                if n == f and i is not None:
                    x = i
                    break
            else:
                if x is None:
                    if ft.k == 'rec':
                        return self.init_member_default(lv, f, ft)
                    self.store(lv.field(f), self.default_value(ft))
                    return
        sx = self.strip_expr(x)
        if ft.k == 'ref':
            v = self.ev(x)
            self.store(lv.field(f), PtrV(v) if isinstance(v, LV) else v)
            return
        if ft.k == 'rec' and sx.kind == 'CXXConstructExpr' and self.T(sx.ty).k == 'rec':
            self.store(lv.field(f), self.blank(ft.name))
            args = [self.ev(a) for a in sx.inner]
            self.run_ctor(ft.name, lv.field(f), args, sx, sx.get('ctorType'))
            return
        self.store(lv.field(f), self.init_value(ft, x))

    def dyn(self, lv):
        try:
            v = self.load(lv)
        except Unsupported:
            return None
        return v.q if isinstance(v, RecV) else None

    def implicit_default(self, q, lv):
        for b in self.bases(q):
            self.run_ctor(b, lv, [], None)
        for (n, t, i) in self.fields(q):
            ft = self.T(t)
            if i is not None:
                self.init_field(q, lv, n, i)
            elif ft.k == 'rec':
                self.init_member_default(lv, n, ft)
            else:
                self.store(lv.field(n), self.blank_ty(ft))

    def init_value(self, ty, x):
        v = self.ev_init(x, ty)
        if isinstance(v, LV):
            v = self.load(v)
        return v

    def ev_init(self, x, ty=None):
        if x.kind == 'InitListExpr':
            return self.init_list(x, ty)
        return self.ev(x)

    def init_list(self, n, ty=None):
        t = self.T(n.ty)
        if ty is not None and ty.k in ('rec', 'arr', 'vec') and t.k not in ('rec', 'arr', 'vec', 'int', 'bool'):
            t = ty
        if t.k == 'rec':
            rec = self.P.records[t.name]
            lv = self.new_cell(self.blank(t.name))
            items = list(n.inner)
            for b in self.bases(t.name):
                items.pop(0)
            j = 0
            for (fname, ft, fi) in self.fields(t.name):
                if j < len(items):
                    self.init_field_in(lv, t.name, fname, self.T(ft), items[j], fi)
                else:
                    self.init_field_in(lv, t.name, fname, self.T(ft), None, fi)
                j += 1
            return self.load(lv)
        if t.k == 'arr':
            items = [self.init_value(t.to, x) for x in n.inner if x is not None]
            ex = n.get('explicit')
            if not items and ex:
                items = [self.init_value(t.to, x) for x in ex]
            # std::array is printed as InitListExpr{InitListExpr{...}}
            if len(items) == 1 and isinstance(items[0], ArrV) and t.to.k != 'arr':
                a = list(items[0].items)
                while len(a) < t.n:
                    a.append(self.default_value(t.to))
                return ArrV(t.to, a)
            cnt = t.n if t.n is not None else len(items)
            while len(items) < cnt:
                items.append(self.default_value(t.to))
            return ArrV(t.to, items)
        if t.k in ('int', 'bool', 'flt', 'ptr'):
            if not n.inner:
                return self.default_value(t)
            return self.init_value(t, n.inner[0])
        if t.k in ('vec', 'str'):
            if not n.inner:
                return VecV(t.to, ())
            return VecV(t.to, [self.init_value(t.to, x) for x in n.inner])
        raise Unsupported('init list of %r' % t)

    def init_field_in(self, lv, q, fname, ft, x, fi):
        if x is None or x.kind == 'CXXDefaultInitExpr':
            x = fi
        if x is None or x.kind == 'ImplicitValueInitExpr':
            if ft.k == 'rec':
                return self.init_member_default(lv, fname, ft)
            self.store(lv.field(fname), self.default_value(ft))
            return
        if ft.k == 'ref':
            v = self.ev(x)
            self.store(lv.field(fname), PtrV(v))
            return
        self.store(lv.field(fname), self.init_value(ft, x))

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        if n is None:
            return
        m = getattr(self, 's_' + n.kind, None)
        if m is not None:
            return m(n)
        self.ev(n)

    def s_CompoundStmt(self, n):
        for s in n.inner:
            self.stmt(s)

    def s_NullStmt(self, n):
        pass

    def s_AttributedStmt(self, n):
        for s in n.inner:
            if s is not None and not s.kind.endswith('Attr'):
                self.stmt(s)

    def s_DeclStmt(self, n):
        for d in n.inner:
            if d is None:
                continue
            if d.kind == 'VarDecl':
                self.declare(d)
            elif d.kind == 'DecompositionDecl':
                raise Unsupported('structured binding')

    def declare(self, d):
        t = self.T(d.ty)
        fr = self.frames[-1]
        init = d.inner[0] if d.inner and not d.inner[0].kind.endswith('Attr') else None
        if t.k == 'ref':
            v = self.ev(init)
            fr.vars[d.nid] = v if isinstance(v, LV) else self.new_cell(v)
            return
        if init is None:
            if t.k == 'rec':
                fr.vars[d.nid] = self.new_cell(self.construct_default(t.name))
            else:
                fr.vars[d.nid] = self.new_cell(self.blank_ty(t), t)
            return
        sx = self.strip_expr(init)
        if t.k == 'rec' and sx.kind == 'CXXConstructExpr' and self.T(sx.ty).k == 'rec':
            lv = self.new_cell(self.blank(t.name))
            fr.vars[d.nid] = lv
            args = [self.ev(a) for a in sx.inner]
            self.run_ctor(t.name, lv, args, sx, sx.get('ctorType'))
            return
        v = self.init_value(t, init)
        fr.vars[d.nid] = self.new_cell(v, t)

    def s_IfStmt(self, n):
        inner = list(n.inner)
        if n.get('hasInit'):
            self.stmt(inner.pop(0))
        if n.get('hasVar'):
            self.stmt(inner.pop(0))
        c = self.cond(inner[0])
        if self.merge_ifs and is_sym(c) and self.merge_if(c, inner[1], inner[2] if n.get('hasElse') else None):
            return
        if self.decide(c):
            self.stmt(inner[1])
        elif n.get('hasElse'):
            self.stmt(inner[2])

    def merge_if(self, c, a, b):
        """evaluate both branches and merge the memories; false when that is not possible"""
        mems = []
        gh = []
        for cc, st in ((c, a), (NOT(c), b)):
            if st is None:
                mems.append(self.mem)
                gh.append(self.ghost)
                continue
            cells0 = set(self.mem)
            outs = self.explore(lambda: self.stmt(st), assumptions=[cc])
            if len(outs) != 1 or outs[0].kind != 'ret':
                return False
            mems.append({k: v for k, v in outs[0].mem.items() if k in cells0})
        m = dict(self.mem)
        try:
            for k in self.mem:
                x, y = mems[0][k], mems[1][k]
                if x is not y:
                    m[k] = vite(c, x, y, self.cellty.get(k))
        except Unsupported:
            return False
        self.mem = m
        return True

    def cond(self, n):
        v = self.rval(self.ev(n))
        if v is UNINIT:
            v = self.fresh(BOOL, 'uninit')
        if isinstance(v, int) and not isinstance(v, bool):
            return v != 0
        if is_sym(v) and z3.is_bv(v):
            return conc(v != 0)
        if isinstance(v, (PtrV, LamV)):
            return True
        if isinstance(v, NullV):
            return False
        if isinstance(v, Opaque):
            raise Unsupported('branch on opaque value: ' + v.why)
        return v

    def s_ReturnStmt(self, n):
        if n.inner:
            v = self.ev_init(n.inner[0])
            raise Return_(v)
        raise Return_(None)

    def s_BreakStmt(self, n):
        raise Break_()

    def s_ContinueStmt(self, n):
        raise Continue_()

    def s_ForStmt(self, n):
        init, cvar, cond, inc, body = n.inner
        self.stmt(init)
        self.loop(n, (lambda: True) if cond is None else (lambda: self.cond(cond)), lambda: self.stmt(body),
                  lambda: self.stmt(inc))

    def s_WhileStmt(self, n):
        inner = list(n.inner)
        if n.get('hasVar'):
            raise Unsupported('while with declaration')
        cond, body = inner
        self.loop(n, lambda: self.cond(cond), lambda: self.stmt(body), lambda: None)

    def s_DoStmt(self, n):
        body, cond = n.inner
        # run the first iteration outside the loop, then `while (cond) body`
        try:
            self.stmt(body)
        except Break_:
            return
        except Continue_:
            pass
        self.loop(n, lambda: self.cond(cond), lambda: self.stmt(body), lambda: None)

    def s_CXXForRangeStmt(self, n):
        init, rng, beg, end, cond, inc, var, body = n.inner
        if init is not None:
            self.stmt(init)
        rd = rng.inner[0]
        rv = rd.inner[0]
        c = self.ev(rv)
        if not isinstance(c, LV):
            c = self.new_cell(c)
        vd = var.inner[0]
        t = self.T(vd.ty)
        icell = self.new_cell(0, U64)
        ncur = lambda: self.length(self.load(c))
        if isinstance(self.load(c), Opaque):
            raise Unsupported('range-for over opaque')

        def cnd():
            return ULT(self.load(icell), ncur())

        def bdy():
            i = self.load(icell)
            el = c.index(i)
            if t.k == 'ref':
                self.frames[-1].vars[vd.nid] = el
            else:
                self.frames[-1].vars[vd.nid] = self.new_cell(self.load(el))
            self.stmt(body)

        def incf():
            self.store(icell, add(self.load(icell), 1))
        self.loop(n, cnd, bdy, incf)

    def length(self, v):
        if isinstance(v, VecV):
            return v.n
        if isinstance(v, ArrV):
            return len(v.items)
        if isinstance(v, MapV):
            return len(v.items)
        raise Unsupported('length of %r' % (v,))

    def s_SwitchStmt(self, n):
        inner = list(n.inner)
        if n.get('hasInit'):
            self.stmt(inner.pop(0))
        if n.get('hasVar'):
            self.stmt(inner.pop(0))
        cn, body = inner
        v = self.rval(self.ev(cn))
        w = self.T(cn.ty).w
        # flatten case labels
        seq = []      # list of ('case', value) | ('default',) | ('stmt', node)

        def flat_(s):
            if s is None:
                return
            if s.kind == 'CaseStmt':
                cv = self.rval(self.ev(s.inner[0]))
                seq.append(('case', cv))
                flat_(s.inner[-1])
            elif s.kind == 'DefaultStmt':
                seq.append(('default',))
                flat_(s.inner[0])
            else:
                seq.append(('stmt', s))
        for s in body.inner:
            flat_(s)
        start = None
        matched = False
        # group consecutive labels
        for i, x in enumerate(seq):
            if x[0] == 'case':
                j = i
                if self.decide(EQ(v, x[1], w)):
                    start = i
                    matched = True
                    break
        if not matched:
            for i, x in enumerate(seq):
                if x[0] == 'default':
                    start = i
                    matched = True
        if not matched:
            return
        try:
            for x in seq[start:]:
                if x[0] == 'stmt':
                    self.stmt(x[1])
        except Break_:
            pass

    def s_CXXTryStmt(self, n):
        body = n.inner[0]
        try:
            self.stmt(body)
        except CppThrow as e:
            for c in n.inner[1:]:
                decl = c.inner[0]
                ty = decl.ty if decl is not None and decl.kind == 'VarDecl' else None
                if ty is None or 'exception' in ty or 'error' in ty or (e.ty and e.ty in ty):
                    if decl is not None and decl.kind == 'VarDecl' and decl.nid:
                        self.frames[-1].vars[decl.nid] = self.new_cell(Opaque('exception'))
                    self.stmt(c.inner[-1])
                    return
            raise

    # ------------------------------------------------------------ loops
    def const_true(self, node):
        c = node.inner[0] if node.kind == 'WhileStmt' else None
        return c is not None and c.kind == 'CXXBoolLiteralExpr' and bool(c.get('value'))

    def endless(self, node):
        c = node.inner[0] if node.kind == 'WhileStmt' else node.inner[1] if node.kind == 'DoStmt' else node.inner[2] if node.kind == 'ForStmt' else False
        if c is None:
            return True
        while c and c.kind in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'):
            c = c.inner[0]
        return bool(c) and c.kind in ('CXXBoolLiteralExpr', 'IntegerLiteral') and c.get('value') in (True, 1, '1', 'true')

    def loop(self, node, cond, body, inc):
        it = 0
        if self.ghost.get('loopspec') and self.endless(node):
            from .loopspec import try_annotated
            if try_annotated(self, node, cond, body, inc) == 'done':
                return
        while True:
            before = dict(self.mem)
            c = cond()
            c = conc(c)
            if isinstance(c, bool):
                if not c:
                    return
                try:
                    body()
                except Break_:
                    return
                except Continue_:
                    pass
                inc()
                it += 1
                if it > 6 and self.const_true(node):
                    from .loops import summarize
                    if summarize(self, node, cond, body, inc) == 'done':
                        return
                if it > self.UNROLL:
                    raise Unsupported('loop unrolling limit at line %d' % node.line)
            else:
                # a rule for the whole loop starts before the condition is evaluated
                self.mem = before
                had = set(self.obls)
                try:
                    if it == 0 and self.ghost.get('loopspec'):
                        from .loopspec import try_annotated
                        if try_annotated(self, node, cond, body, inc) == 'done':
                            return
                    from .loops import summarize
                    it += 1
                    if it > self.UNROLL:
                        raise Unsupported('loop unrolling limit at line %d' % node.line)
                    if summarize(self, node, cond, body, inc) == 'done':
                        return
                except Unsupported:
                    # no rule for this loop: what was asked of an arbitrary state inside it says nothing
                    for k in list(self.obls):
                        if k not in had:
                            del self.obls[k]
                    raise

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, 'e_' + n.kind, None)
        if m is None:
            raise Unsupported('expression ' + n.kind + ' at line %d' % n.line)
        return m(n)

    def e_ExprWithCleanups(self, n):
        return self.ev(n.inner[0])

    e_ParenExpr = e_CXXBindTemporaryExpr = e_ConstantExpr_ = e_ExprWithCleanups
    e_SubstNonTypeTemplateParmExpr = e_ExprWithCleanups

    def e_ConstantExpr(self, n):
        return self.ev(n.inner[0])

    def e_SubstNonTypeTemplateParmExpr(self, n):
        return self.ev(n.inner[-1])

    def e_MaterializeTemporaryExpr(self, n):
        v = self.ev_init(n.inner[0])
        if isinstance(v, LV):
            return v
        return self.new_cell(v)

    def e_IntegerLiteral(self, n):
        t = self.T(n.ty)
        return int(n.get('value')) & ((1 << t.w) - 1)

    def e_CharacterLiteral(self, n):
        t = self.T(n.ty)
        return int(n.get('value')) & ((1 << t.w) - 1)

    def e_CXXBoolLiteralExpr(self, n):
        return bool(n.get('value'))

    def e_CXXNullPtrLiteralExpr(self, n):
        return NULL

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_FloatingLiteral(self, n):
        return z3.Const('lit!%s' % n.get('value'), FSort)

    def e_StringLiteral(self, n):
        s = n.get('value')
        try:
            raw = eval(s) if not s.startswith('R') else s
            b = raw.encode('latin1') if all(ord(c) < 256 for c in raw) else raw.encode('utf8')
        except Exception:
            return self.new_cell(Opaque('string literal'))
        return self.new_cell(ArrV(I8, list(b) + [0]))

    def e_ImplicitValueInitExpr(self, n):
        return self.default_value(self.T(n.ty))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXDefaultInitExpr(self, n):
        raise Unsupported('default init expr in context')

    def e_CXXDefaultArgExpr(self, n):
        return Opaque('default argument')

    def e_InitListExpr(self, n):
        return self.init_list(n)

    def e_CXXStdInitializerListExpr(self, n):
        x = n.inner[0]
        v = self.ev(x)
        v = self.rval(v)
        if isinstance(v, ArrV):
            return VecV(v.to, v.items)
        return v

    def e_CXXThisExpr(self, n):
        t = self.frames[-1].this
        if t is None:
            raise Unsupported('this outside of a method')
        return PtrV(t)

    def e_DeclRefExpr(self, n):
        r = n.ref
        if r[0] == 'local':
            for f in (self.frames[-1],):
                v = f.vars.get(r[1])
                if v is not None:
                    return v
            raise Unsupported('unbound local %s' % r[2])
        if r[0] == 'enumc':
            t = self.T(n.ty)
            w = t.w if t.k == 'int' else 32
            return r[1] & ((1 << w) - 1)
        if r[0] == 'gvar':
            return self.global_var(r[1])
        if r[0] == 'fn':
            return FnV(r)
        if r[0] in ('ext', 'extvar', 'extenum'):
            return FnV(r)
        if r[0] == 'field':
            return FnV(r)
        raise Unsupported('reference %r' % (r,))

    def global_var(self, q):
        key = 'g:' + q
        if key in self.mem:
            return LV(key)
        d = self.P.globals.get(q)
        if d is None:
            raise Unsupported('global without initializer ' + q)
        t = self.T(d.ty)
        init = [x for x in d.inner if x is not None and not x.kind.endswith('Attr')][0]
        self.frames.append(Frame(None, 'init of ' + q))
        try:
            v = self.init_value(t, init)
        finally:
            self.frames.pop()
        self.mem[key] = v
        return LV(key)

    def e_MemberExpr(self, n):
        b = self.ev(n.inner[0])
        r = n.ref
        if n.get('isArrow'):
            b = self.rval(b)
            lv = self.deref(b, n)
        else:
            lv = b
        if r is not None and r[0] == 'field':
            if not isinstance(lv, LV):
                lv = self.new_cell(lv)
            fk = self.fk(r[1], r[2])
            f = lv.field(fk)
            ft = self.field_ty(r[1], fk)
            if ft is not None and ft.k == 'ref':
                p = self.load(f)
                return p.lv if isinstance(p, PtrV) else f
            return f
        if r is not None and r[0] == 'stdmember' and r[1] in ('first', 'second') and isinstance(lv, LV):
            pv = self.load(lv)
            if isinstance(pv, RecV) and pv.q == 'std::pair':
                return lv.field(r[1])
        if r is not None and r[0] in ('fn', 'stdmember'):
            return ('bound', lv, r, n)
        if r is not None and r[0] in ('enumc', 'gvar'):
            return self.e_DeclRefExpr(n)
        nm = n.get('name')
        if nm and isinstance(lv, LV):
            return ('bound', lv, ('stdmember', nm), n)
        raise Unsupported('member %s %r' % (n.get('name'), r))

    def deref(self, p, node):
        if isinstance(p, NullV):
            self.prove(False, 'null pointer dereference', node, 'ub')
            raise Infeasible()
        if p is UNINIT:
            self.prove(False, 'dereference of an indeterminate pointer', node, 'ub')
            raise Infeasible()
        if isinstance(p, PtrV):
            if p.idx is None:
                return p.lv
            self.bounds(p.lv, p.idx, node)
            return p.lv.index(p.idx)
        if isinstance(p, LV):
            return self.deref(self.load(p), node)
        raise Unsupported('dereference of %r' % (p,))

    def bounds(self, lv, i, node):
        v = self.load(lv)
        n = self.length(v)
        self.in_bounds(i, n, node)

    def in_bounds(self, i, n, node):
        """an element that exists; the address one past the last one may be formed"""
        self.prove((ULE if node is not None and node is getattr(self, 'addr_node', None) else ULT)(i, n), 'index within bounds', node, 'ub')

    def e_UnaryOperator(self, n):
        op = n.get('opcode')
        x = n.inner[0]
        if op == '*':
            p = self.rval(self.ev(x))
            return self.deref(p, n)
        if op == '&':
            y = x
            while y.kind == 'ParenExpr':
                y = y.inner[0]
            self.addr_node = y
            v = self.ev(x)
            self.addr_node = None
            if isinstance(v, LV):
                if v.path and isinstance(v.path[-1], tuple):
                    return PtrV(LV(v.cell, v.path[:-1]), v.path[-1][1])
                return PtrV(v)
            if isinstance(v, FnV):
                return v
            raise Unsupported('address of %r' % (v,))
        if op in ('++', '--'):
            lv = self.ev(x)
            t = self.T(x.ty)
            v = self.load(lv)
            if isinstance(v, PtrV):
                nv = PtrV(v.lv, add(v.idx, 1) if op == '++' else sub(v.idx, 1))
            else:
                if v is UNINIT:
                    v = self.fresh(t, 'uninit')
                nv = add(v, 1, t.w) if op == '++' else sub(v, 1, t.w)
            self.store(lv, nv)
            return v if n.get('isPostfix') else lv
        v = self.rval(self.ev(x))
        t = self.T(n.ty)
        if op == '!':
            c = v if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)) else self.truth(v)
            return NOT(c)
        if v is UNINIT:
            v = self.fresh(t, 'uninit')
        if op == '-':
            if t.k == 'flt':
                return self.ffun('neg', v)
            return sub(0, v, t.w)
        if op == '+':
            return v
        if op == '~':
            if isinstance(v, int):
                return ~v & ((1 << t.w) - 1)
            return conc(~bv(v, t.w))
        raise Unsupported('unary ' + op)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if is_sym(v):
            if z3.is_bool(v):
                return v
            return conc(v != 0)
        if isinstance(v, NullV):
            return False
        if isinstance(v, PtrV):
            return True
        if v is UNINIT:
            return self.fresh(BOOL, 'uninit')
        raise Unsupported('truth of %r' % (v,))

    def ffun(self, name, *args):
        zs = []
        for a in args:
            if a is UNINIT:
                a = self.fresh(FLT, 'uninit')
            if isinstance(a, (int, bool)):
                a = z3.Const('flt!%d' % a, FSort)
            zs.append(a)
        if name in ('*', '+') and len(zs) == 2:
            zs.sort(key=lambda z: z.sexpr())  # commutative in IEEE arithmetic
        f = z3.Function('f!' + name, *([z.sort() for z in zs] + [FSort]))
        return f(*zs)

    def e_BinaryOperator(self, n):
        op = n.get('opcode')
        a, b = n.inner
        if op == '=':
            # C++17: right operand first
            rv = self.rval(self.ev_init(b))
            lv = self.ev(a)
            self.store(lv, rv)
            return lv
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op in ('&&', '||'):
            x = self.cond(a)
            if isinstance(x, bool):
                if (op == '&&') != x:
                    return x
                return self.cond(b)
            # fork only if the right side can have effects
            if self.pure(b):
                # the right operand may only be defined when the left one allows it: evaluate under it
                if op == '&&':
                    if not self.feasible([x]):
                        return False
                else:
                    if not self.feasible([z3.Not(x)]):
                        return True
            if self.decide(x):
                return True if op == '||' else self.cond(b)
            return False if op == '&&' else self.cond(b)
        x = self.rval(self.ev(a))
        y = self.rval(self.ev(b))
        return self.binop(op, x, y, self.T(a.ty), self.T(b.ty), self.T(n.ty), n)

    def pure(self, n):
        return False

    def binop(self, op, x, y, tx, ty, tr, n):
        if isinstance(x, PtrV) or isinstance(y, PtrV) or isinstance(x, NullV) or isinstance(y, NullV):
            return self.ptrop(op, x, y, tx, ty, n)
        if x is UNINIT:
            x = self.fresh(tx, 'uninit')
        if y is UNINIT:
            y = self.fresh(ty, 'uninit')
        if isinstance(x, FnV) or isinstance(y, FnV):
            from .std import seekdir
            x = seekdir(x) if isinstance(x, FnV) else x
            y = seekdir(y) if isinstance(y, FnV) else y
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            raise Unsupported('operator %s on opaque value (%r, %r)' % (op, x, y))
        if tx.k == 'flt' or ty.k == 'flt':
            if op in ('==', '!=', '<', '>', '<=', '>='):
                f = z3.Function('f!' + op, FSort, FSort, z3.BoolSort())
                return f(x, y)
            return self.ffun(op, x, y)
        w = tx.w
        s = tx.s
        if tx.k == 'bool':
            w, s = 8, False
        if op in ('==', '!='):
            if tx.k == 'bool' and ty.k == 'bool':
                r = EQ(bool(x) if isinstance(x, int) else x, bool(y) if isinstance(y, int) else y)
            else:
                r = EQ(x, y, w)
            return r if op == '==' else NOT(r)
        if op in ('<', '>', '<=', '>='):
            if isinstance(x, int) and isinstance(y, int):
                if s:
                    x, y = sgn(x, w), sgn(y, w)
                return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
            X, Y = bv(x, w), bv(y, w)
            if s:
                r = {'<': X < Y, '>': X > Y, '<=': X <= Y, '>=': X >= Y}[op]
            else:
                r = {'<': z3.ULT(X, Y), '>': z3.UGT(X, Y), '<=': z3.ULE(X, Y), '>=': z3.UGE(X, Y)}[op]
            return conc(r)
        mask = (1 << w) - 1
        if op in ('<<', '>>'):
            wy = ty.w
            if isinstance(y, int):
                yv = sgn(y, wy) if ty.s else y
                if yv < 0 or yv >= w:
                    self.prove(False, 'shift amount within width', n, 'ub')
                    raise Infeasible()
            else:
                self.prove(ULT(y, w, wy), 'shift amount within width', n, 'ub')
            if isinstance(x, int) and isinstance(y, int):
                if op == '<<':
                    return (x << y) & mask
                return ((sgn(x, w) if s else x) >> y) & mask
            Y = convert(y, wy, False, w)
            X, Y = bv(x, w), bv(Y, w)
            if op == '<<':
                return conc(X << Y)
            return conc(X >> Y if s else z3.LShR(X, Y))
        if op in ('&', '|', '^'):
            if tx.k == 'bool':
                pass
            if isinstance(x, int) and isinstance(y, int):
                return {'&': x & y, '|': x | y, '^': x ^ y}[op]
            X, Y = bv(x, w), bv(y, w)
            return conc({'&': X & Y, '|': X | Y, '^': X ^ Y}[op])
        if op in ('+', '-', '*'):
            if s:
                self.signed_overflow(op, x, y, w, n)
            return {'+': add, '-': sub, '*': mul}[op](x, y, w)
        if op in ('/', '%'):
            self.prove(NOT(EQ(y, 0, w)), 'divisor is not zero', n, 'ub')
            if isinstance(x, int) and isinstance(y, int):
                if s:
                    xs, ys = sgn(x, w), sgn(y, w)
                    q = abs(xs) // abs(ys)
                    if (xs < 0) != (ys < 0):
                        q = -q
                    return (q if op == '/' else xs - q * ys) & mask
                return (x // y if op == '/' else x % y) & mask
            X, Y = bv(x, w), bv(y, w)
            if s:
                return conc(X / Y if op == '/' else z3.SRem(X, Y))
            return conc(z3.UDiv(X, Y) if op == '/' else z3.URem(X, Y))
        raise Unsupported('operator ' + op)

    def signed_overflow(self, op, x, y, w, n):
        if isinstance(x, int) and isinstance(y, int):
            a, b = sgn(x, w), sgn(y, w)
            r = {'+': a + b, '-': a - b, '*': a * b}[op]
            ok = -(1 << (w - 1)) <= r < (1 << (w - 1))
            if not ok:
                self.prove(False, 'no signed overflow', n, 'ub')
                raise Infeasible()
            return
        if not self.safety:
            return
        X, Y = bv(x, w), bv(y, w)
        if op == '+':
            g = z3.And(z3.BVAddNoOverflow(X, Y, True), z3.BVAddNoUnderflow(X, Y))
        elif op == '-':
            g = z3.And(z3.BVSubNoOverflow(X, Y), z3.BVSubNoUnderflow(X, Y, True))
        else:
            g = z3.And(z3.BVMulNoOverflow(X, Y, True), z3.BVMulNoUnderflow(X, Y))
        self.prove(g, 'no signed overflow', n, 'ub')

    def ptrop(self, op, x, y, tx, ty, n):
        if op in ('==', '!='):
            if isinstance(x, NullV) or isinstance(y, NullV):
                if isinstance(x, int) or isinstance(y, int):
                    raise Unsupported('pointer/int comparison')
                r = isinstance(x, NullV) and isinstance(y, NullV)
            elif isinstance(x, PtrV) and isinstance(y, PtrV):
                if not x.lv.same(y.lv):
                    r = False
                else:
                    r = EQ(x.idx if x.idx is not None else 0, y.idx if y.idx is not None else 0)
            else:
                raise Unsupported('pointer comparison %r %r' % (x, y))
            return r if op == '==' else NOT(r)
        if op == '+':
            if isinstance(y, PtrV):
                x, y, tx, ty = y, x, ty, tx
            i = convert(y, ty.w, ty.s, 64) if ty.k == 'int' else y
            return PtrV(x.lv, add(x.idx if x.idx is not None else 0, i))
        if op == '-':
            if isinstance(y, PtrV):
                if not x.lv.same(y.lv):
                    raise Unsupported('pointer difference')
                return sub(x.idx, y.idx)
            i = convert(y, ty.w, ty.s, 64)
            return PtrV(x.lv, sub(x.idx, i))
        if op in ('<', '>', '<=', '>='):
            X, Y = bv(x.idx, 64), bv(y.idx, 64)
            return conc({'<': z3.ULT(X, Y), '>': z3.UGT(X, Y), '<=': z3.ULE(X, Y), '>=': z3.UGE(X, Y)}[op])
        raise Unsupported('pointer operator ' + op)

    def e_CompoundAssignOperator(self, n):
        op = n.get('opcode')[:-1]
        a, b = n.inner
        y = self.rval(self.ev(b))
        lv = self.ev(a)
        x = self.load(lv)
        tl = self.T(a.ty)
        if isinstance(x, PtrV):
            v = self.ptrop(op, x, y, tl, self.T(b.ty), n)
            self.store(lv, v)
            return lv
        tc = self.T(n.get('clt'))
        if x is UNINIT:
            x = self.fresh(tl, 'uninit')
        x = self.conv_val(x, tl, tc, n)
        r = self.binop(op, x, y, tc, self.T(b.ty), tc, n)
        r = self.conv_val(r, self.T(n.get('crt')), tl, n)
        self.store(lv, r)
        return lv

    def conv_val(self, v, tf, tt, n):
        if v is UNINIT:
            return v
        if tf.k == 'flt' or tt.k == 'flt':
            if tf.k == 'flt' and tt.k == 'flt':
                if tf.w == tt.w:
                    return v
                return self.ffun('f%dto%d' % (tf.w, tt.w), v)
            if tt.k == 'flt':
                if isinstance(v, int):
                    return z3.Const('flt%d!%d' % (tt.w, v), FSort)
                f = z3.Function('f!i%s%dto%d' % ('s' if tf.s else 'u', tf.w, tt.w), z3.BitVecSort(tf.w), FSort)
                return f(bv(v, tf.w))
            f = z3.Function('f!%dtoi%s%d' % (tf.w, 's' if tt.s else 'u', tt.w), FSort, z3.BitVecSort(tt.w))
            return f(v)
        if tt.k == 'bool':
            return self.truth(v)
        if tf.k == 'bool':
            return convert(bool(v) if isinstance(v, int) else v, 8, False, tt.w)
        if tt.k == 'int' and tf.k == 'int':
            return convert(v, tf.w, tf.s, tt.w)
        return v

    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        x = n.inner[0]
        if ck == 'LValueToRValue':
            v = self.ev(x)
            if isinstance(v, LV):
                r = self.load(v)
                if r is UNINIT:
                    t = self.T(n.ty)
                    if t.k in ('int', 'bool', 'flt'):
                        if not self.quiet:
                            self.prove(False, 'the value read has been initialised', n, 'ub', assume_after=False)
                        r = self.fresh(t, 'uninit')
                        self.store(v, r)
                return r
            return v
        if ck in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral', 'IntegralToFloating', 'FloatingToIntegral',
                  'FloatingCast', 'FloatingToBoolean'):
            v = self.rval(self.ev(x))
            tf, tt = self.T(x.ty), self.T(n.ty)
            if isinstance(v, Opaque):
                return v
            return self.conv_val(v, tf, tt, n)
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'BitCast', 'ConstructorConversion',
                  'UserDefinedConversion', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'LValueBitCast'):
            return self.ev_init(x, self.T(n.ty) if n.ty else None)
        if ck == 'ArrayToPointerDecay':
            v = self.ev(x)
            if isinstance(v, LV):
                return PtrV(v, 0)
            return v
        if ck == 'NullToPointer':
            return NULL
        if ck == 'PointerToBoolean':
            v = self.rval(self.ev(x))
            return self.truth(v)
        if ck == 'ToVoid':
            self.ev(x)
            return None
        if ck == 'Dynamic':
            v = self.rval(self.ev(x))
            if isinstance(v, NullV):
                return v
            t = self.T(n.ty)
            dq = self.load(v.lv)
            if not isinstance(dq, RecV):
                raise Unsupported('dynamic_cast of %r' % (dq,))
            return v if self.is_sub(dq.q, t.to.name) else NULL
        if ck == 'IntegralToPointer' or ck == 'PointerToIntegral':
            raise Unsupported(ck)
        raise Unsupported('cast ' + str(ck))

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_CXXDynamicCastExpr = e_ImplicitCastExpr

    def e_ConditionalOperator(self, n):
        c = self.cond(n.inner[0])
        if self.decide(c):
            return self.ev(n.inner[1])
        return self.ev(n.inner[2])

    def e_ArraySubscriptExpr(self, n):
        a, b = n.inner
        p = self.rval(self.ev(a))
        i = self.rval(self.ev(b))
        tb = self.T(b.ty)
        if isinstance(p, LV):
            p = PtrV(p, 0)
        i = convert(i, tb.w, tb.s, 64) if tb.k == 'int' else i
        if isinstance(p, NullV):
            return self.deref(p, n)
        idx = add(p.idx or 0, i)
        self.bounds(p.lv, idx, n)
        return p.lv.index(idx)

    def e_UnaryExprOrTypeTraitExpr(self, n):
        t = self.T(n.get('argType')) if n.get('argType') else self.T(n.inner[0].ty)
        if n.get('name') == 'sizeof':
            return self.sizeof(t)
        raise Unsupported('type trait')

    def sizeof(self, t):
        if t.k == 'ref':
            t = t.to
        if t.k in ('int', 'flt'):
            return t.w // 8
        if t.k == 'bool':
            return 1
        if t.k == 'ptr':
            return 8
        if t.k == 'arr':
            return self.sizeof(t.to) * t.n
        raise Unsupported('sizeof %r' % t)

    def e_LambdaExpr(self, n):
        fr = self.frames[-1]
        return LamV(n, dict(fr.vars), fr.this)

    def call_lambda(self, lam, args, node):
        n = lam.node
        ops = n.get('ops')
        if not ops:
            raise Unsupported('lambda without instantiated body')
        op = None
        if len(ops) == 1:
            op = ops[0]
        else:
            for o in ops:
                if len(o['params']) == len(args) and o['body'] is not None and 'auto' not in o['type']:
                    op = o
                    break
        # several instantiations (different argument types) are syntactically the same body
        fr = Frame(lam.this, self.frames[-1].fn + '::lambda')
        env = dict(lam.env)
        # by-copy captures keep the value at creation time; the repository only mutates captured
        # variables through references, so sharing the cells is exact for [&] and [x] of constants
        fr.vars = env
        e = {'params': op['params'], 'defargs': {}}
        self.frames.append(fr)
        try:
            self.bind_params(fr, e, args)
            try:
                self.stmt(op['body'])
                r = None
            except Return_ as x:
                r = x.v
        finally:
            self.frames.pop()
        return r

    def call_value(self, f, args, node):
        if isinstance(f, LV):
            f = self.load(f)
        if isinstance(f, LamV):
            return self.call_lambda(f, args, node)
        if isinstance(f, FnV) and f.ref[0] == 'fn':
            return self.call(f.ref[1], None, args, node)
        if isinstance(f, FnV) and f.ref[0] == 'factory':
            lv = self.new_cell(self.blank(f.ref[1]))
            self.run_ctor(f.ref[1], lv, args, node)
            return PtrV(lv)
        raise Unsupported('call of %r' % (f,))

    def e_CallExpr(self, n):
        from . import std
        callee = self.strip_callee(n.inner[0])
        if callee.kind == 'DeclRefExpr':
            r = callee.ref
            if r[0] == 'fn':
                args = [self.ev_init(a) for a in n.inner[1:] if not self.is_defarg(a)]
                return self.call(r[1], None, args, n)
            return std.call(self, callee, n)
        v = self.ev(n.inner[0])
        args = [self.ev(a) for a in n.inner[1:]]
        return self.call_value(v, args, n)

    @staticmethod
    def is_defarg(a):
        return a.kind == 'CXXDefaultArgExpr'

    @staticmethod
    def strip_callee(n):
        while n.kind in ('ImplicitCastExpr', 'ParenExpr'):
            n = n.inner[0]
        return n

    def e_CXXMemberCallExpr(self, n):
        from . import std
        callee = n.inner[0]
        while callee.kind in ('ParenExpr', 'ImplicitCastExpr'):
            callee = callee.inner[0]
        if callee.kind != 'MemberExpr':
            raise Unsupported('member call through ' + callee.kind)
        r = callee.ref
        if r is not None and r[0] == 'fn':
            b = self.ev(callee.inner[0])
            if callee.get('isArrow'):
                lv = self.deref(self.rval(b), callee)
            else:
                lv = b if isinstance(b, LV) else self.new_cell(b)
            args = [self.ev_init(a) for a in n.inner[1:] if not self.is_defarg(a)]
            e = self.P.functions.get(r[1])
            if e is None:
                raise Unsupported('unknown method')
            # explicit qualification (Base::f()) is not distinguished in the AST dump; none in the library
            return self.call(r[1], lv, args, n)
        return std.member_call(self, callee, n)

    def e_CXXOperatorCallExpr(self, n):
        from . import std
        callee = self.strip_callee(n.inner[0])
        r = callee.ref
        if r is not None and r[0] == 'fn':
            e = self.P.functions.get(r[1])
            if e['cls'] is not None:
                th = self.ev(n.inner[1])
                if not isinstance(th, LV):
                    th = self.new_cell(th)
                args = [self.ev_init(a) for a in n.inner[2:]]
                return self.call(r[1], th, args, n)
            args = [self.ev_init(a) for a in n.inner[1:]]
            return self.call(r[1], None, args, n)
        return std.operator_call(self, callee, n)

    def e_CXXRewrittenBinaryOperator(self, n):
        return self.ev(n.inner[0])

    def e_CXXConstructExpr(self, n):
        from . import std
        t = self.T(n.ty)
        if t.k == 'rec':
            args = [self.ev_init(a) for a in n.inner if not self.is_defarg(a)]
            if n.get('elidable') and len(args) == 1:
                return self.rval(args[0])
            lv = self.new_cell(self.blank(t.name))
            self.run_ctor(t.name, lv, args, n, n.get('ctorType'))
            return self.load(lv)
        return std.construct(self, t, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXNewExpr(self, n):
        t = self.T(n.ty)
        if n.get('isArray'):
            cnt = self.rval(self.ev(n.inner[0]))
            to = t.to
            if isinstance(cnt, int):
                return PtrV(self.new_cell(VecV(to, [UNINIT] * cnt)), 0)
            nm = self.fresh_name('heap')
            g = list(self.gens)
            return PtrV(self.new_cell(VecV(to, None, cnt, lambda i, to=to, nm=nm, g=g: self.sym(to, nm, g + [i]), ('new', nm))), 0)
        inner = [x for x in n.inner if x is not None]
        if t.to.k == 'rec':
            lv = self.new_cell(self.blank(t.to.name))
            sx = self.strip_expr(inner[0]) if inner else None
            if sx is None:
                self.run_ctor(t.to.name, lv, [], n)
            elif sx.kind in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                args = [self.ev_init(a) for a in sx.inner if not self.is_defarg(a)]
                self.run_ctor(t.to.name, lv, args, sx, sx.get('ctorType'))
            else:
                self.store(lv, self.init_value(t.to, sx))
            return PtrV(lv)
        v = self.init_value(t.to, inner[0]) if inner else self.blank_ty(t.to)
        return PtrV(self.new_cell(v))

    def e_CXXDeleteExpr(self, n):
        p = self.rval(self.ev(n.inner[0]))
        h = self.ghost.get('on_delete')
        if h:
            h(self, p, n)
        return None

    def e_CXXThrowExpr(self, n):
        raise CppThrow(n.inner[0].ty if n.inner else None, n)

    def e_CXXTypeidExpr(self, n):
        raise Unsupported('typeid')


def free_consts_all(c):
    acc = {}
    seen = set()
    st = [c]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[x.decl().name()] = x
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    return acc
