"""Loop rule: infer an inductive invariant for an arbitrary iteration, prove it, use it.

One generic iteration k is executed symbolically twice.  The first run (no
obligations) finds the locations the body changes and guesses a closed form for
each as a function of k (arithmetic progression, sum, last value, appended or
stored element, emitted tokens).  The second run starts in the state given by
the closed forms; every undefined-behaviour obligation of the body is emitted
there, and the closed forms are proved to be preserved (obligation `loop
invariant preserved`).  There is no bound on the number of iterations.
"""
import z3
from .vals import *
from .streams import *
from . import solver
from . import exec as X
from .std import lin_bytes


class Loc(object):
    __slots__ = ('cell', 'path', 'kind', 'ty', 'h', 'v0', 'form', 'post', 'w')

    def key(self):
        return (self.cell,) + tuple((p[0], str(p[1])) if isinstance(p, tuple) else p for p in self.path)


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return type(a) == type(b) and a == b
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if isinstance(a, PtrV) and isinstance(b, PtrV):
        return a.lv.same(b.lv) and ((a.idx is None and b.idx is None) or (a.idx is not None and b.idx is not None and same_val(a.idx, b.idx)))
    return False


def diff(a, b, path, out):
    if same_val(a, b):
        return
    if isinstance(a, RecV) and isinstance(b, RecV) and a.q == b.q:
        for f in b.f:
            if f in a.f:
                diff(a.f[f], b.f[f], path + (f,), out)
        return
    if isinstance(a, ArrV) and isinstance(b, ArrV) and len(a.items) == len(b.items):
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            diff(x, y, path + (('[]', i),), out)
        return
    if isinstance(a, VecV) and isinstance(b, VecV) and a.items is not None and b.items is not None and len(a.items) == len(b.items):
        if all(same_val(x, y) for x, y in zip(a.items, b.items)):
            return
    out.append((path, a, b))


def get_path(ex, mem, cell, path):
    sv = ex.mem
    ex.mem = mem
    try:
        return ex.load(LV(cell, path))
    finally:
        ex.mem = sv


def summarize(ex, node, cond, body, inc):
    return Loop(ex, node, cond, body, inc).run()


class Loop(object):
    def __init__(self, ex, node, cond, body, inc):
        self.ex, self.node, self.cond, self.body, self.inc = ex, node, cond, body, inc
        ex.nloop += 1
        self.lid = 'L%d!' % ex.nloop
        self.k = z3.BitVec('k!' + self.lid, 64)
        self.locs = {}
        self.kmax = None
        self.reads = {}
        self.gens = list(ex.gens)

    def tag(self, nm):
        return nm == 'k!' + self.lid or nm.startswith('h!' + self.lid)

    def where(self):
        return 'line %d' % self.node.line

    # ---------------------------------------------------------------- generic iteration
    def generic(self, install, assumptions):
        ex = self.ex
        base = {}

        def thunk():
            install()
            base.clear()
            base.update(ex.mem)
            ex.gens = list(self.gens) + [self.k]
            if not ex.decide(self.cond_val()):
                raise X.ExitCond()
            try:
                self.body()
            except X.Continue_:
                pass
            self.inc()
        outs = ex.explore(thunk, self.tag, assumptions)
        return outs, base

    def cond_val(self):
        c = self.cond()
        if isinstance(c, int) and not isinstance(c, bool):
            c = c != 0
        return c

    def run(self):
        ex = self.ex
        if ex.deadline:
            import time
            if time.time() > ex.deadline:
                raise Unsupported('time budget of the unit exhausted')
        key = (ex.nloop, ex.quiet > 0) + tuple((getattr(l, 'uid', 0), tuple(l.decs)) for l in ex.levels)
        hit = None
        for ent in ex.loop_cache.get(key, ()):
            if all(list(l.prefix[l.pos:l.pos + len(d)]) == d for l, (d, p) in zip(ex.levels, ent[0])):
                hit = ent
                break
        if hit is not None:
            for l, (d, p) in zip(ex.levels, hit[0]):
                l.decs.extend(d)
                l.pos += len(d)
                l.pc.extend(p)
            self.__dict__.update(hit[1])
            ex.nfresh, ex.ncell, ex.nloop = hit[2]
            ex.mem.update(hit[3])
        else:
            before = [(len(l.decs), len(l.pc)) for l in ex.levels]
            self.analyse()
            ent = [(l.decs[a:], l.pc[b:]) for l, (a, b) in zip(ex.levels, before)]
            st = {x: y for x, y in self.__dict__.items() if x not in ('ex', 'node', 'cond', 'body', 'inc')}
            gl = {c: v for c, v in ex.mem.items() if c.startswith('g:')}
            ex.loop_cache.setdefault(key, []).append((ent, st, (ex.nfresh, ex.ncell, ex.nloop), gl))
        return self.finish()

    def analyse(self):
        ex = self.ex
        self.streams()
        # ------------------------------------------------ pass A: discover and guess
        ex.quiet += 1
        try:
            stable = False
            for _ in range(10):
                loc0 = ex.local_only
                ex.local_only = loc0 or not stable
                try:
                    outs, base = self.generic(self.install_ph, [])
                finally:
                    ex.local_only = loc0
                new = False
                vecs = []
                for o in outs:
                    if o.kind not in ('ret',):
                        continue
                    for cell, bv_ in base.items():
                        if cell not in o.mem or cell.startswith('g:'):
                            continue
                        d = []
                        diff(bv_, o.mem[cell], (), d)
                        for path, a, b in d:
                            if isinstance(b, VecV):
                                vecs.append((cell, path, a, b))
                            else:
                                new |= self.note(cell, path, a, b)
                if not new:
                    for cell, path, a, b in vecs:
                        for path2, a2, b2 in self.narrow(path, a, b):
                            new |= self.note(cell, path2, a2, b2)
                if not new and stable:
                    break
                stable = not new
            else:
                raise Unsupported('loop at %s: modified locations do not stabilise' % self.where())
            rets = [o for o in outs if o.kind == 'ret']
            self.resolve_streams(rets)
            self.solve(rets)
        finally:
            ex.quiet -= 1
        # ------------------------------------------------ trip count
        N, exact = self.trip()
        # ------------------------------------------------ pass B: prove
        assumptions = []
        if N is not None:
            assumptions.append(ULT(self.k, N))
        install = lambda: self.install(self.k, generic=True)
        cnt = (ex.nfresh, ex.ncell, ex.nloop)
        if any(l.form[0] in ('sum', 'last') for l in self.locs.values()):
            # restate the guesses with the names this pass gives to the values it reads
            ex.quiet += 1
            try:
                outs, base = self.generic(install, assumptions)
            finally:
                ex.quiet -= 1
            self.restate([o for o in outs if o.kind == 'ret'])
            ex.nfresh, ex.ncell, ex.nloop = cnt
        outs, base = self.generic(install, assumptions)
        rets = [o for o in outs if o.kind == 'ret']
        self.preserved(rets, N)
        self.collect(rets)
        exits = [o for o in outs if o.kind in ('break', 'return')]
        throws = [o for o in outs if o.kind == 'throw']
        conds = [o for o in outs if o.kind == 'exit']
        retpc = OR(*[AND(*o.pc) for o in rets]) if rets else False
        if N is None:
            N = uf('n!' + self.lid + ex.fresh_name(''), self.gens, z3.BitVecSort(64))
            self.terminates(rets, base)
            mode = 'fresh'
        else:
            mode = 'exact' if exact else 'seg'
        self.N, self.mode, self.base, self.rets, self.retpc = N, mode, base, rets, retpc
        self.throws, self.exits, self.conds = throws, exits, conds

    def finish(self):
        ex = self.ex
        N, mode, base, rets, retpc = self.N, self.mode, self.base, self.rets, self.retpc
        throws, exits, conds = self.throws, self.exits, self.conds
        k = self.k
        at = lambda t, i: vsubst(t, [(k, bv(i, 64))]) if is_sym(t) else t
        # ------------------------------------------------ exits by exception / break / return
        alts = throws + exits + (conds if mode == 'seg' else [])
        if alts:
            ch = ex.choose(len(alts) + 1, 'loopexit')
            if ch > 0:
                o = alts[ch - 1]
                k0 = uf('e!' + self.lid + ex.fresh_name(''), self.gens, z3.BitVecSort(64))
                if mode != 'fresh':
                    ex.assume(ULT(k0, N))
                elif self.kmax is not None:
                    ex.assume(ULE(k0, self.kmax))
                ex.assume(zb(at(AND(*o.pc), k0)))
                ex.assume(zb(OR(EQ(k0, 0), at(retpc, sub(k0, 1)))))
                self.check_feasible()
                if o.kind == 'throw':
                    self.install(k0, throwing=True)
                    raise X.CppThrow(o.val, o.exc.node if o.exc is not None else None)
                self.exit_state(o, base, k0)
                if o.kind == 'return':
                    raise X.Return_(vsubst(o.val, [(k, k0)]))
                return 'done'
        elif not rets and mode == 'exact':
            pass
        # ------------------------------------------------ after N iterations
        if mode == 'fresh' and self.kmax is not None:
            ex.assume(ULE(N, self.kmax))
        ex.assume(zb(OR(EQ(N, 0), at(retpc, sub(N, 1)))))
        self.check_feasible()
        self.install(N)
        if mode == 'seg':
            return 'continue'
        c = self.cond_val()
        if mode == 'exact':
            return 'done'
        if c is True:
            raise X.Infeasible()
        ex.assume(zb(NOT(c)))
        self.check_feasible()
        return 'done'

    def check_feasible(self):
        if not self.ex.feasible([]):
            raise X.Infeasible()

    # ---------------------------------------------------------------- streams
    def streams(self):
        ex = self.ex
        self.ins, self.outs_ = {}, {}
        for c, v in list(ex.mem.items()):
            if isinstance(v, OutS):
                self.outs_[c] = v
            elif isinstance(v, InS) and v.toks and isinstance(v.toks[0], Seg):
                self.ins[c] = v
        self.inkind = {c: 'tmpl' for c in self.ins}

    def in_state(self, c, k, generic):
        """value of input stream c at the start of iteration k"""
        s = self.ins[c]
        if self.inkind[c] == 'plain':
            return s
        seg = s.toks[0]
        pos = add(s.pos, SUMS.sum(k, seg.k, bits_of(seg.toks))) if self.inkind[c] == 'seg' else s.pos
        if generic:
            return s.repl(toks=seg.at(k) + (Barrier(self.lid),), pos=pos)
        rest = s.toks[1:]
        if isinstance(k, z3.ExprRef) and same_val(conc(k), conc(seg.n)):
            return s.repl(toks=rest, pos=pos)
        if isinstance(k, int) and isinstance(seg.n, int) and k == seg.n:
            return s.repl(toks=rest, pos=pos)
        k2 = fresh_k()
        return s.repl(toks=mkseg(sub(seg.n, k), k2, tsubst(seg.toks, [(seg.k, k2 + bv(k, 64))])) + rest, pos=pos)

    def resolve_streams(self, rets):
        for c, s in self.ins.items():
            tm = [o.mem[c] for o in rets]
            if all(isinstance(v, InS) and len(v.toks) == 1 and isinstance(v.toks[0], Barrier) for v in tm) and tm:
                self.inkind[c] = 'seg'
            elif all(isinstance(v, InS) and same_val(v.pos, s.pos) for v in tm):
                self.inkind[c] = 'plain'
            else:
                raise Unsupported('loop at %s does not consume one segment element per iteration' % self.where())

    # ---------------------------------------------------------------- locations
    def narrow(self, path, a, b):
        """a store at a loop-invariant index changes that element only"""
        whole = [(path, a, b)]
        if not (isinstance(a, VecV) and isinstance(b, VecV) and b.tag and b.tag[0] == 'store'):
            return whole
        if a.tag and a.tag[0] == 'store' and a.tag[1] is b.tag[1]:
            ova = list(a.tag[2])
        elif b.tag[1] is a:
            ova = []
        else:
            return whole
        new = [(i, v) for i, v in b.tag[2] if not any(same_val(i, j) and (v is w or same_val(v, w)) for j, w in ova)]
        if len(new) != 1:
            return whole
        i, v = new[0]
        if [j for j, w in b.tag[2] if not same_val(i, j)] != [j for j, w in ova if not same_val(i, j)] and \
                len([j for j, w in b.tag[2] if not same_val(i, j)]) != len([j for j, w in ova if not same_val(i, j)]):
            return whole
        if is_sym(i) and free_consts(i, lambda nm: self.tag(nm)):
            return whole
        d = []
        diff(self.ex.elem(a, i), v, path + (('[]', i),), d)
        out = []
        for p2, x, y in d:
            out += self.narrow(p2, x, y) if isinstance(y, VecV) else [(p2, x, y)]
        return out

    def note(self, cell, path, a, b):
        ex = self.ex
        if not path and cell in self.ins:
            return False
        if not path and cell in self.outs_:
            return False
        if isinstance(b, InS):
            raise Unsupported('loop at %s reads a stream whose content is not a segment' % self.where())
        if isinstance(a, HostS) and isinstance(b, HostS):
            if not same_val(a.bad, b.bad) or a.pend != b.pend:
                raise Unsupported('stream state changes in loop')
            path = path + ('@pos',)
            a, b = a.bpos, b.bpos
        if isinstance(a, PtrV) and isinstance(b, PtrV) and a.lv.same(b.lv) and a.idx is not None and b.idx is not None:
            path = path + ('@idx',)
            a, b = a.idx, b.idx
        l = Loc()
        l.cell, l.path = cell, path
        if l.key() in self.locs:
            return False
        # a longer path already tracked: superseded by this one
        for k2 in list(self.locs):
            if len(k2) > len(l.key()) and k2[:len(l.key())] == l.key():
                del self.locs[k2]
        l.ty = U64 if path and path[-1] in ('@pos', '@idx') else ex.type_at(cell, path)
        v0 = self.read0(l)
        l.v0 = v0
        l.form = None
        l.post = None
        nm = 'h!' + self.lid + '.'.join(str(p) for p in l.key())
        if isinstance(b, VecV) or isinstance(v0, VecV):
            l.kind = 'vec'
            l.h = nm
        elif isinstance(b, bool) or (is_sym(b) and z3.is_bool(b)):
            l.kind = 'bool'
            l.h = z3.Bool(nm)
        elif isinstance(b, int) or (is_sym(b) and z3.is_bv(b)):
            l.kind = 'int'
            w = b.size() if is_sym(b) else (v0.size() if is_sym(v0) else (l.ty.w if l.ty is not None and l.ty.k == 'int' else None))
            if w is None:
                raise Unsupported('loop at %s: type of %r unknown' % (self.where(), l.key()))
            l.w = w
            l.h = z3.BitVec(nm, w)
        elif is_sym(b) and b.sort() == FSort:
            l.kind = 'flt'
            l.h = z3.Const(nm, FSort)
        else:
            l.kind = 'other'
            l.h = None
        self.locs[l.key()] = l
        return True

    def read0(self, l):
        ex = self.ex
        p = l.path
        if p and p[-1] == '@pos':
            return ex.mem[l.cell].bpos
        if p and p[-1] == '@idx':
            return ex.load(LV(l.cell, p[:-1])).idx
        return ex.load(LV(l.cell, p))

    def write(self, l, v):
        ex = self.ex
        p = l.path
        if p and p[-1] == '@pos':
            ex.mem[l.cell] = ex.mem[l.cell].repl(bpos=v)
        elif p and p[-1] == '@idx':
            lv = LV(l.cell, p[:-1])
            o = ex.load(lv)
            ex.store(lv, PtrV(o.lv, v))
        else:
            ex.store(LV(l.cell, p), v)

    def read_out(self, l, mem):
        p = l.path
        if p and p[-1] == '@pos':
            return mem[l.cell].bpos
        if p and p[-1] == '@idx':
            return get_path(self.ex, mem, l.cell, p[:-1]).idx
        return get_path(self.ex, mem, l.cell, p)

    def vec_ph(self, l, n):
        v0 = l.v0
        self.reads.setdefault(l.h, [])
        if v0 is UNINIT or not isinstance(v0, VecV):
            raise Unsupported('vector without initial value')

        def fn(j, v0=v0):
            if v0.items is not None and not v0.items:
                raise Unsupported('loop reads an element it appended')
            return v0.get(j)
        return VecV(v0.to, None, n, fn, ('ph', l.h))

    def install_ph(self):
        ex = self.ex
        for c, s in self.outs_.items():
            ex.mem[c] = s.repl(toks=(Base(self.lid + c),))
        for c in self.ins:
            ex.mem[c] = self.in_state(c, self.k, True)
        for l in self.locs.values():
            if l.kind == 'vec':
                self.write(l, self.vec_ph(l, z3.BitVec(l.h + '.n', 64)))
            elif l.kind == 'other':
                self.write(l, Opaque('loop-carried'))
            else:
                self.write(l, l.h)

    # ---------------------------------------------------------------- closed forms
    def merged(self, l, rets):
        vs = [(AND(*o.pc), self.read_out(l, o.mem)) for o in rets]
        r = vs[-1][1]
        for pc, v in reversed(vs[:-1]):
            if same_val(v, r):
                continue
            r = vite(pc, v, r, l.ty if l.kind != 'int' else tint(l.w, False))
        return r

    def hs(self, t):
        return free_consts(t, lambda nm: nm.startswith('h!' + self.lid)) if is_sym(t) else {}

    def hs_value(self, v):
        return consts_of_value(v, lambda nm: nm.startswith('h!' + self.lid))

    def solve(self, rets):
        k = self.k
        todo = []
        if not rets:
            for l in self.locs.values():
                l.form = ('same',)
            return
        for l in self.locs.values():
            if l.kind == 'other':
                l.form = ('opaque',)
                continue
            if l.kind == 'vec':
                todo.append(l)
                continue
            l.post = self.merged(l, rets)
            todo.append(l)
        resolved = {}       # h const name -> lambda k
        def sub_h(t, i):
            """closed forms for the resolved placeholders at iteration i, k := i"""
            hs = self.hs(t)
            m = [(k, bv(i, 64))] if not (is_sym(i) and i.eq(k)) else []
            for nm, c in hs.items():
                val = resolved[nm](i)
                if val is UNINIT:
                    continue       # reading it is an obligation of the iteration itself
                m.append((c, bv(val, c.size()) if z3.is_bv(c) else (zb(val) if z3.is_bool(c) else val)))
            return vsubst(t, m) if m and is_sym(t) else t
        self.sub_h = sub_h
        # vectors: their length placeholder and element values
        progress = True
        while todo and progress:
            progress = False
            for l in list(todo):
                f = self.try_solve(l, rets, resolved, sub_h)
                if f is not None:
                    l.form = f
                    todo.remove(l)
                    progress = True
                    if l.kind == 'vec':
                        resolved[l.h + '.n'] = (lambda i, l=l: self.vec_len(l, i))
                    else:
                        resolved[str(l.h)] = (lambda i, l=l: self.value(l, i))
        for l in todo:
            if l.kind == 'vec':
                raise Unsupported('loop at %s: vector update not understood' % self.where())
            l.form = ('havoc', 'hv!' + self.lid + '.'.join(str(p) for p in l.key()))
            resolved[str(l.h)] = (lambda i, l=l: self.value(l, i))
        self.resolved = resolved

    def restate(self, rets):
        if not rets:
            return
        new = {}
        for key, l in self.locs.items():
            if l.form[0] == 'sum':
                cur = self.value(l, self.k)
                r = None
                for o in reversed(rets):
                    d = lin_sub(self.read_out(l, o.mem), cur)
                    r = d if r is None or same_val(r, d) else vite(AND(*o.pc), d, r, tint(l.w, False))
                new[key] = ('sum', r)
                if is_sym(r):
                    self.bound_atoms(r, rets, lambda x, i: x)
            elif l.form[0] == 'last':
                new[key] = ('last', self.merged(l, rets))
        for key, f in new.items():
            self.locs[key].form = f

    def try_solve(self, l, rets, resolved, sub_h):
        k = self.k
        if l.kind == 'vec':
            return self.solve_vec(l, rets, resolved)
        p = l.post
        own = str(l.h)
        if same_val(p, l.h):
            return ('same',)
        hs = self.hs(p)
        if own not in hs:
            if all(x in resolved for x in hs):
                return ('last', p)
            return None
        if l.kind == 'int':
            d = conc(p - l.h) if is_sym(p) else None
            if d is not None and is_sym(d) and own in self.hs(d):
                d = z3.simplify(p - l.h, som=True)
                d = conc(d)
            if d is not None and is_sym(d) and own in self.hs(d) and l.w == 64:
                acc = SUMS.linear(p)
                hid = l.h.get_id()
                if hid in acc and acc[hid][0] == 1 and not any(own in self.hs(a) for i, (c, a) in acc.items() if a is not None and i != hid):
                    d = 0
                    for i, (c, a) in acc.items():
                        if i == hid:
                            continue
                        d = add(d, c if a is None else mul(c, a))
            if d is not None and (not is_sym(d) or own not in self.hs(d)):
                if not is_sym(d):
                    return ('lin', d)
                if not all(x in resolved for x in self.hs(d)):
                    return None
                dk = sub_h(d, k)
                if 'k!' + self.lid not in free_consts(dk, lambda nm: True) if is_sym(dk) else True:
                    return ('lin', dk)
                if l.w == 64:
                    self.bound_atoms(dk, rets, sub_h)
                    return ('sum', dk)
        return None

    def bound_atoms(self, dk, rets, sub_h):
        """bounds on the summands implied by the iteration having completed"""
        k = self.k
        for i, (c, atom) in SUMS.linear(dk).items():
            if atom is None or 'k!' + self.lid not in free_consts(atom, lambda nm: True) or ub(atom) < 1 << 40:
                continue
            key = SUMS.akey(atom, k)
            if key in SUMS.abounds:
                continue
            B = (1 << 28) - 1
            ok = True
            for o in rets:
                pc = []
                for x in o.pc:
                    try:
                        pc.append(sub_h(x, k))
                    except KeyError:
                        pass       # mentions a location that is not solved yet: weaker, still sound
                pc = [zb(x) for x in pc if free_consts(zb(x), lambda nm: True).keys() & free_consts(atom, lambda nm: True).keys()]
                simple = [x for x in pc if x.decl().kind() in (z3.Z3_OP_SLEQ, z3.Z3_OP_ULEQ, z3.Z3_OP_SGEQ, z3.Z3_OP_UGEQ, z3.Z3_OP_NOT) and len(str(x)) < 400]
                for q in (simple, pc):
                    st, m, b = solver.check(q + [z3.Not(z3.ULE(atom, z3.BitVecVal(B, 64)))], 3000)
                    if st == 'unsat':
                        break
                if st != 'unsat':
                    ok = False
                    break
            if ok:
                SUMS.abounds[key] = B

    def solve_vec(self, l, rets, resolved):
        posts = [self.read_out(l, o.mem) for o in rets]
        if all(isinstance(p, VecV) and p.tag and p.tag[0] == 'ph' and p.tag[1] == l.h for p in posts):
            return ('same',)
        kinds = []
        for p in posts:
            r = self.vec_shape(l, p)
            if r is None:
                return ('lastvec',) if self.vec_indep(l, p) else None
            kinds.append(r)
        if all(r[0] == 'append' for r in kinds) and len(set(len(r[1]) for r in kinds)) == 1:
            m = len(kinds[0][1])
            return ('append', m)
        if all(r[0] == 'store' for r in kinds):
            idx = kinds[0][1]
            if len(idx) != 1:
                return None
            i = idx[0][0]
            if not is_sym(i):
                return None
            if not all(same_val(r[1][0][0], i) for r in kinds):
                return None
            hs = self.hs(i)
            if not all(x in resolved for x in hs):
                return None
            ik = self.sub_h(i, self.k)
            d = conc(ik - self.k)
            if is_sym(d) and 'k!' + self.lid in free_consts(d, lambda nm: True):
                # guess from iteration 0; index == k + d is an obligation of every iteration
                d = conc(z3.substitute(bv(ik, 64), (self.k, z3.BitVecVal(0, 64))))
            for rd in self.reads.get(l.h, []):
                pass
            return ('store', d)
        return None

    def vec_indep(self, l, p):
        if not isinstance(p, VecV):
            return False
        if p.tag and p.tag[0] in ('ph', 'append', 'store', 'concat'):
            return False
        return not self.hs_value(p)

    def vec_shape(self, l, p):
        """('append', [values]) | ('store', [(index, value)]) relative to the placeholder"""
        if not isinstance(p, VecV) or not p.tag:
            return None
        app = []
        v = p
        while isinstance(v, VecV) and v.tag and v.tag[0] in ('append', 'concat'):
            if v.tag[0] == 'append':
                app.append(v.tag[2])
                v = v.tag[1]
            else:
                b = v.tag[2]
                if b.items is None:
                    return None
                app.extend(reversed(b.items))
                v = v.tag[1]
        if app:
            if v.tag and v.tag[0] == 'ph' and v.tag[1] == l.h:
                return ('append', list(reversed(app)))
            return None
        if p.tag[0] == 'store' and p.tag[1].tag and p.tag[1].tag[0] == 'ph' and p.tag[1].tag[1] == l.h:
            return ('store', list(p.tag[2]))
        return None

    def vec_len(self, l, i):
        n0 = l.v0.n
        if l.form[0] == 'append':
            return add(n0, mul(l.form[1], i))
        return n0

    def value(self, l, i):
        """closed form of a scalar location at the start of iteration i"""
        f = l.form
        if f[0] == 'same':
            return l.v0
        if f[0] == 'lin':
            ii = convert(i, 64, False, l.w) if l.w < 64 else i
            if l.v0 is UNINIT:
                raise Unsupported('loop counter without initial value')
            return add(l.v0, mul(ii, f[1], l.w), l.w)
        if f[0] == 'sum':
            j = fresh_k()
            return add(l.v0, SUMS.sum(i, j, vsubst(f[1], [(self.k, j)])))
        if f[0] == 'last':
            t = self.sub_h(f[1], sub(i, 1)) if is_sym(f[1]) else f[1]
            if l.v0 is UNINIT:
                return t
            return vite(EQ(i, 0), l.v0, t, tint(l.w, False) if l.kind == 'int' else l.ty)
        if f[0] == 'havoc':
            rng = z3.BitVecSort(l.w) if l.kind == 'int' else (z3.BoolSort() if l.kind == 'bool' else FSort)
            u = uf(f[1] + self.uid(), self.gens + [i], rng)
            if l.v0 is UNINIT:
                return u
            return vite(EQ(i, 0), l.v0, u, tint(l.w, False) if l.kind == 'int' else l.ty)
        raise Unsupported('closed form')

    def uid(self):
        if not hasattr(self, '_uid'):
            self._uid = self.ex.fresh_name('u')
        return self._uid

    def install(self, i, generic=False, throwing=False):
        ex = self.ex
        for c, s in self.outs_.items():
            if generic:
                ex.mem[c] = s.repl(toks=(Base(self.lid + c),))
            else:
                ex.mem[c] = self.out_state(c, i)
        for c in self.ins:
            ex.mem[c] = self.in_state(c, i, generic and self.inkind[c] != 'plain')
        for l in self.locs.values():
            if l.kind == 'other':
                self.write(l, Opaque('loop-carried'))
            elif l.kind == 'vec':
                if l.form[0] == 'same':
                    continue
                if generic:
                    self.write(l, self.vec_ph(l, self.vec_len(l, i)))
                elif throwing:
                    self.write(l, Opaque('partially updated'))
                else:
                    self.write(l, self.vec_value(l, i))
            else:
                v = self.value(l, i)
                if l.path and l.path[-1] == '@pos' and not (isinstance(v, int)):
                    tot = ex.mem[l.cell].total
                    ex.assume(IMP(ULE(l.v0, tot), ULE(v, tot)))
                self.write(l, v)

    # ---------------------------------------------------------------- results of pass B
    def preserved(self, rets, N):
        ex = self.ex
        k1 = add(self.k, 1)
        goals = []
        for o in rets:
            pc = AND(*o.pc)
            for l in self.locs.values():
                if l.kind == 'other':
                    continue
                if l.kind == 'vec':
                    p = self.read_out(l, o.mem)
                    if l.form[0] == 'append':
                        sh = self.vec_shape(l, p)
                        if sh is None or sh[0] != 'append' or len(sh[1]) != l.form[1]:
                            raise Unsupported('loop at %s: vector update changes shape' % self.where())
                    elif l.form[0] == 'store':
                        sh = self.vec_shape(l, p)
                        if sh is None or sh[0] != 'store' or len(sh[1]) != 1:
                            raise Unsupported('loop at %s: vector update changes shape' % self.where())
                        goals.append(IMP(pc, EQ(sh[1][0][0], add(self.k, l.form[1]))))
                    continue
                if l.form[0] in ('last', 'havoc'):
                    if l.form[0] == 'last':
                        p = self.read_out(l, o.mem)
                        goals.append(IMP(pc, ex.veq(p, vsubst(self.value(l, k1), []))))
                    continue
                p = self.read_out(l, o.mem)
                want = self.value(l, k1)
                if l.form[0] == 'sum':
                    want = add(self.value(l, self.k), f_at(l.form[1]))
                if p is UNINIT or want is UNINIT:
                    continue
                goals.append(IMP(pc, ex.veq(p, want)))
        g = AND(*goals) if goals else True
        if g is True:
            return
        # proved for an arbitrary iteration, at this loop's level
        lvl = X.Level(self.tag)
        ex.levels.append(lvl)
        try:
            if N is not None:
                lvl.pc.append(zb(ULT(self.k, N)))
            if not ex.entails(zb(g)):
                raise Unsupported('loop at %s: inferred invariant is not inductive' % self.where())
            ex.prove(g, 'loop invariant preserved', self.node, 'loop')
        finally:
            ex.levels.pop()

    def collect(self, rets):
        """tokens emitted and elements written by iteration k (merged over paths)"""
        ex = self.ex
        self.outtoks = {}
        for c, s in self.outs_.items():
            per = []
            for o in rets:
                t = o.mem[c].toks
                if not (t and isinstance(t[0], Base)):
                    raise Unsupported('loop rewinds an output stream')
                if not same_val(o.mem[c].bad, s.bad):
                    raise Unsupported('stream state changes in loop')
                per.append((AND(*o.pc), t[1:]))
            if not per or all(not t for _, t in per):
                self.outtoks[c] = ()
                continue
            r = per[-1][1]
            for pc, t in reversed(per[:-1]):
                r = merge_toks(ex, pc, t, r)
            if any(bits_mod8(per_t) != 0 for _, per_t in per):
                self.unaligned = True
            self.outtoks[c] = r
        self.vecvals = {}
        for key, l in self.locs.items():
            if l.kind != 'vec' or l.form[0] == 'same':
                continue
            if l.form[0] == 'lastvec':
                if len(rets) != 1:
                    raise Unsupported('loop-carried vector')
                self.vecvals[key] = self.read_out(l, rets[0].mem)
                continue
            per = []
            for o in rets:
                sh = self.vec_shape(l, self.read_out(l, o.mem))
                per.append((AND(*o.pc), sh[1] if l.form[0] == 'append' else [sh[1][0][1]]))
            if not per:
                self.vecvals[key] = None
                continue
            r = list(per[-1][1])
            for pc, vs in reversed(per[:-1]):
                r = [vite(pc, a, b, l.v0.to) for a, b in zip(vs, r)]
            for x in r:
                if isinstance(x, PtrV) and x.lv.cell not in ex.mem:
                    raise Unsupported('loop stores a pointer to an object it created')
            self.vecvals[key] = r

    def out_state(self, c, i):
        s = self.outs_[c]
        t = self.outtoks.get(c, ())
        if not t:
            return s
        k2 = fresh_k()
        return s.repl(toks=s.toks + mkseg(i, k2, tsubst(t, [(self.k, k2)])))

    def vec_value(self, l, i):
        v0 = l.v0
        vals = self.vecvals.get(l.key())
        k = self.k
        if vals is None:
            return v0
        if l.form[0] == 'lastvec':
            nv = vsubst(vals, [(k, bv(sub(i, 1), 64))])
            return vite(EQ(i, 0), v0, nv, None)
        if l.form[0] == 'append':
            m = l.form[1]
            ci = conc(i)
            if isinstance(ci, int) and ci <= 4096 and v0.items is not None:
                it = list(v0.items)
                for j in range(ci):
                    it += [vsubst(x, [(k, z3.BitVecVal(j, 64))]) for x in vals]
                return VecV(v0.to, it)

            def fn(j, vals=vals, m=m, v0=v0):
                d = sub(j, v0.n)
                if m == 1:
                    x = vsubst(vals[0], [(k, bv(d, 64))])
                else:
                    q = conc(z3.UDiv(bv(d, 64), z3.BitVecVal(m, 64)))
                    r = conc(z3.URem(bv(d, 64), z3.BitVecVal(m, 64)))
                    x = vsubst(vals[-1], [(k, bv(q, 64))])
                    for a in range(m - 2, -1, -1):
                        x = vite(EQ(r, a), vsubst(vals[a], [(k, bv(q, 64))]), x, v0.to)
                if isinstance(v0.n, int) and v0.n == 0:
                    return x
                c = ULT(j, v0.n)
                if c is True:
                    return v0.get(j)
                if c is False:
                    return x
                return vite(c, v0.get(j), x, v0.to)
            return VecV(v0.to, None, add(v0.n, mul(m, i)), fn)
        # store at k + off
        off = l.form[1]

        def fn(j, vals=vals, v0=v0, off=off, i=i):
            d = sub(j, off)
            x = vsubst(vals[0], [(k, bv(d, 64))])
            c = ULT(d, i)
            if c is True:
                return x
            if c is False:
                return v0.get(j)
            if isinstance(off, int) and off == 0 and same_val(i, v0.n):
                return x        # every valid index is overwritten
            return vite(c, x, v0.get(j), v0.to)
        ci = conc(i)
        if v0.items is not None and isinstance(ci, int) and isinstance(off, int):
            return VecV(v0.to, [fn(j) for j in range(len(v0.items))])
        return VecV(v0.to, None, v0.n, fn)

    def exit_state(self, o, base, k0):
        """memory after leaving iteration k0 through outcome o"""
        ex = self.ex
        k = self.k
        self.install(k0)
        pre = dict(ex.mem)
        for c in base:
            if c not in o.mem or c.startswith('g:'):
                continue
            a, b = base[c], o.mem[c]
            if same_val(a, b):
                continue
            if c in self.outs_:
                t = b.toks[1:]
                ex.mem[c] = pre[c].repl(toks=pre[c].toks + tsubst(t, [(k, bv(k0, 64))]), bad=b.bad, failed=b.failed)
                continue
            if c in self.ins:
                s = self.ins[c]
                if self.inkind[c] == 'plain':
                    ex.mem[c] = b
                    continue
                seg = s.toks[0]
                t = tsubst(b.toks[:-1] if b.toks and isinstance(b.toks[-1], Barrier) else b.toks, [(k, bv(k0, 64))])
                k2 = fresh_k()
                rest = mkseg(sub(sub(seg.n, k0), 1), k2, tsubst(seg.toks, [(seg.k, k2 + bv(add(k0, 1), 64))]))
                ex.mem[c] = s.repl(toks=t + rest + tuple(s.toks[1:]), pos=vsubst(b.pos, [(k, bv(k0, 64))]), bad=b.bad)
                continue
            d = []
            diff(a, b, (), d)
            for path, x, y in d:
                if isinstance(y, VecV) and y.tag and y.tag[0] in ('append', 'store', 'ph', 'concat'):
                    cur = ex.load(LV(c, path))
                    y = self.rebase(y, cur, k0)
                else:
                    y = vsubst(y, [(k, bv(k0, 64))])
                ex.store(LV(c, path), y)

    def rebase(self, y, cur, k0):
        ex = self.ex
        k = self.k
        if y.tag[0] == 'ph':
            return cur
        if y.tag[0] == 'append':
            return ex.vec_append(self.rebase(y.tag[1], cur, k0), vsubst(y.tag[2], [(k, bv(k0, 64))]))
        if y.tag[0] == 'concat':
            return ex.vec_concat(self.rebase(y.tag[1], cur, k0), vsubst(y.tag[2], [(k, bv(k0, 64))]))
        b = self.rebase(y.tag[1], cur, k0)
        for i, v in y.tag[2]:
            b = ex.vec_store(b, vsubst(i, [(k, bv(k0, 64))]), vsubst(v, [(k, bv(k0, 64))]))
        return b

    # ---------------------------------------------------------------- trip count
    def trip(self):
        ex = self.ex
        k = self.k
        ex.quiet += 1
        try:
            inv = []

            def thunk():
                self.install(k, generic=True)
                inv[:] = ex.levels[-1].pc
                ex.gens = list(self.gens) + [k]
                return self.cond_val()
            outs = ex.explore(thunk, self.tag)
        finally:
            ex.quiet -= 1
        seg = None
        for c, s in self.ins.items():
            if self.inkind[c] == 'seg':
                n = s.toks[0].n
                if seg is not None and not ex.entails(zb(EQ(n, seg))):
                    raise Unsupported('loop over segments of different length')
                seg = n
        if any(o.kind != 'ret' for o in outs):
            raise Unsupported('loop condition at %s has effects' % self.where())
        c = OR(*[AND(AND(*[x for x in o.pc if not any(x.eq(y) for y in inv)]), o.val) for o in outs])
        cands = []
        if seg is not None:
            cands.append(seg)
        if is_sym(c):
            cands += self.candidates(c)
        cands = [N for N in cands if not is_sym(N) or 'k!' + self.lid not in free_consts(N, lambda nm: True)]
        size = {id(N): len(str(N)) if is_sym(N) else 0 for N in cands}
        first = cands[:1] if seg is not None else []
        rest = sorted(cands[len(first):], key=lambda N: size[id(N)])
        for tmo in (300, 3000):
            if tmo == 3000:
                keep = self.filter(c, first + rest)
                first = [x for x in first if any(x is y for y in keep)]
                rest = [x for x in rest if any(x is y for y in keep)]
            for N in first + rest:
                if not is_sym(c):
                    break
                cN = conc(z3.substitute(c, (k, bv(N, 64))))
                if cN is True:
                    continue
                if cN is not False and not ex.entails(z3.Not(cN), tmo):
                    continue
                if not self.holds_below(c, N, tmo):
                    continue
                if seg is not None and not ex.entails(zb(EQ(seg, N))):
                    continue
                return N, True
        if seg is not None:
            return seg, False
        return None, False

    def filter(self, c, cands):
        """drop candidates refuted by a few models of the path condition"""
        if not is_sym(c) or len(cands) < 3:
            return cands
        ex = self.ex
        sub_ = lambda t: zb(conc(z3.substitute(c, (self.k, bv(t, 64)))))
        ms = []
        for extra in ([sub_(0), sub_(1), sub_(2)], [z3.Not(sub_(0))], [sub_(0), z3.Not(sub_(1))], [sub_(0), sub_(1), sub_(2), sub_(5), z3.Not(sub_(9))]):
            a = ex.pc() + extra
            st, m, b = solver.check(a + ex.facts(a), 300)
            if st == 'sat':
                ms.append(m)

        def ok(N):
            N = bv(N, 64)
            for m in ms:
                v = m.eval(N, model_completion=True)
                try:
                    n = v.as_long()
                except Exception:
                    continue
                tv = lambda i: m.eval(sub_(i), model_completion=True)
                if z3.is_true(tv(n)):
                    return False
                for i in {0, n // 2, n - 1}:
                    if 0 <= i < n and z3.is_false(tv(i)):
                        return False
            return True
        return [N for N in cands if ok(N)]

    def holds_below(self, c, N, tmo=5000):
        ex = self.ex
        a = ex.pc() + [z3.ULT(self.k, bv(N, 64)), z3.Not(c)]
        return solver.status(a + ex.facts(a), tmo) == 'unsat'

    def candidates(self, c):
        out = []
        seen = set()
        kn = 'k!' + self.lid

        def hask(t):
            return kn in free_consts(t, lambda nm: True)

        def put(t):
            t = conc(t)
            if is_sym(t) and t.size() < 64:
                t = z3.ZeroExt(64 - t.size(), t)
            key = t if isinstance(t, int) else t.get_id()
            if key not in seen:
                seen.add(key)
                out.append(t)
        st = [c]
        vis = set()
        cmps = []
        while st:
            x = st.pop()
            if x.get_id() in vis:
                continue
            vis.add(x.get_id())
            ch = x.children()
            if z3.is_bool(x) and len(ch) == 2 and z3.is_bv(ch[0]):
                cmps.append((ch[0], ch[1]))
            if z3.is_bv(x) and not hask(x):
                put(x)
                continue
            st.extend(ch)
        for a, b in cmps:
            for x, y in ((a, b), (b, a)):
                if not hask(x) or hask(y):
                    continue
                w = x.size()
                # x = x0 + c1*k
                x0 = conc(z3.substitute(x, (self.k, z3.BitVecVal(0, 64))))
                x1 = conc(z3.substitute(x, (self.k, z3.BitVecVal(1, 64))))
                c1 = conc(bv(x1, w) - bv(x0, w))
                d = conc(bv(y, w) - bv(x0, w))
                for dd in (d, conc(bv(x0, w) - bv(y, w))):
                    put(dd)
                    put(conc(bv(dd, w) + 1))
                if isinstance(c1, int) and c1 not in (0, 1):
                    if w == 64:
                        acc = SUMS.linear(d)
                        q = 0
                        ok = True
                        for i, (cc, atom) in acc.items():
                            if cc % c1:
                                ok = False
                                break
                            q = add(q, cc // c1 if atom is None else mul(cc // c1, atom))
                        if ok:
                            put(q)
                    if w == 64 or True:
                        D = z3.ZeroExt(64 - w, bv(d, w)) if w < 64 else bv(d, 64)
                        put(z3.UDiv(D, z3.BitVecVal(c1, 64)))
                        put(z3.UDiv(D + (c1 - 1), z3.BitVecVal(c1, 64)))
        out.append(0)
        return out[:40]

    # ---------------------------------------------------------------- termination
    def terminates(self, rets, base):
        ex = self.ex
        if ex.quiet or not rets:
            return
        ok = False
        for l in self.locs.values():
            if l.path and l.path[-1] == '@pos':
                lvl = X.Level(self.tag)
                ex.levels.append(lvl)
                try:
                    goals = []
                    for o in rets:
                        pre = base[l.cell].bpos
                        post = o.mem[l.cell].bpos
                        goals.append(IMP(AND(*o.pc), AND(ULT(pre, post), ULE(post, o.mem[l.cell].total))))
                    ok = ex.prove(AND(*goals), 'loop terminates: the stream position strictly increases', self.node, 'term', assume_after=False)
                finally:
                    ex.levels.pop()
                if ok:
                    t = base[l.cell].total
                    if ex.entails(zb(ULE(t, 1 << 47))):
                        self.kmax = 1 << 47      # one octet per iteration at least
                    return
        if not ok and not any(l.path and l.path[-1] == '@pos' for l in self.locs.values()):
            h = ex.ghost.get('variant')
            raise Unsupported('loop at %s: no trip count and no variant found' % self.where())


def lin_sub(a, b):
    acc = dict(SUMS.linear(a))
    for i, (c, t) in SUMS.linear(b).items():
        acc[i] = (acc.get(i, (0, t))[0] - c, t)
    d = 0
    for i, (c, t) in acc.items():
        c %= 1 << 64
        if c:
            d = add(d, c if t is None else mul(c, t))
    return d


def f_at(t):
    return t


def bits_mod8(toks):
    from .std import bit_phase
    return bit_phase(bits_of(toks))


def merge_toks(ex, c, a, b):
    """token list equal to a when c, b otherwise; only for lists of equal shape"""
    if len(a) == len(b) and all(isinstance(x, Tok) and isinstance(y, Tok) and x.w == y.w for x, y in zip(a, b)):
        return tuple(Tok(x.w, ITE(c, x.v if is_sym(x.v) else int(x.v), y.v if is_sym(y.v) else int(y.v), x.w)) for x, y in zip(a, b))
    if all(isinstance(x, Tok) for x in a) and all(isinstance(x, Tok) for x in b):
        wa, wb = sum(x.w for x in a), sum(x.w for x in b)
        if wa == wb and wa > 0:
            va, vb = cat([(x.w, x.v) for x in a]), cat([(x.w, x.v) for x in b])
            return (Tok(wa, ITE(c, va, vb, wa)),)
    raise Unsupported('iterations emit different numbers of bits on different paths')
