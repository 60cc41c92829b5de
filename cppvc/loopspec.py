"""Loops with a written invariant.

The invariant comes from the specification of a unit (ghost 'loopspec': a list of
functions that recognise the state a loop carries).  The rule is the classical
one: the invariant holds at entry, an arbitrary iteration preserves it and
decreases the variant, and the code after the loop sees only the invariant.  The
locations a body changes are discovered, and a change outside them is refused.
"""
import z3
from .vals import *
from .streams import OutS, HostS, Base
from . import exec as X
from .loops import diff, same_val


class L(object):
    """a location that the loop changes"""
    __slots__ = ('cell', 'path', 'ty', 'v0', 'w', 'kind')

    def key(self):
        return (self.cell,) + tuple((p[0], str(p[1])) if isinstance(p, tuple) else p for p in self.path)

    def get(self, ex):
        if self.path and self.path[-1] == '@idx':
            return ex.load(LV(self.cell, self.path[:-1])).idx
        return ex.load(LV(self.cell, self.path))

    def set(self, ex, v):
        if self.path and self.path[-1] == '@idx':
            lv = LV(self.cell, self.path[:-1])
            ex.store(lv, PtrV(ex.load(lv).lv, v))
        else:
            ex.store(LV(self.cell, self.path), v)


def norm(ex, path, a, b):
    if isinstance(a, PtrV) and isinstance(b, PtrV) and a.lv.same(b.lv) and a.idx is not None and b.idx is not None:
        return path + ('@idx',)
    return path


def changed(ex, base, mem, locs):
    new = []
    for cell, v in base.items():
        if cell not in mem or cell.startswith('g:'):
            continue
        d = []
        diff(v, mem[cell], (), d)
        for path, a, b in d:
            path = norm(ex, path, a, b)
            l = L()
            l.cell, l.path = cell, path
            k = l.key()
            if any(k[:len(x)] == x for x in locs):
                continue
            l.ty = U64 if path and path[-1] == '@idx' else ex.type_at(cell, path)
            new.append((l, b))
    return new


class Locs(list):
    notes = ()     # what the contracts called from the body left in ex.notes


def discover(ex, cond, body, inc):
    locs = {}
    gh = ex.ghost
    for _ in range(12):
        base = {}

        def thunk():
            for l in locs.values():
                l.set(ex, fresh_value(ex, l))
            base.clear()
            base.update(ex.mem)
            if not ex.decide(truth(cond())):
                raise X.Infeasible()
            try:
                body()
            except X.Continue_:
                pass
            inc()
        ex.quiet += 1
        ex.notes = []
        try:
            outs = ex.explore(thunk)
        finally:
            ex.quiet -= 1
        new = []
        for o in outs:
            if o.kind in ('ret', 'break'):
                new += changed(ex, base, o.mem, list(locs))
        if not new:
            r = Locs(locs.values())
            r.notes = tuple(ex.notes)
            return r
        for l, b in new:
            for k in list(locs):
                if len(k) > len(l.key()) and k[:len(l.key())] == l.key():
                    del locs[k]
            l.v0 = l.get(ex)
            v = l.v0
            l.w = b.size() if is_sym(b) and z3.is_bv(b) else v.size() if is_sym(v) and z3.is_bv(v) else l.ty.w if l.ty is not None and l.ty.k == 'int' else None
            l.kind = 'vec' if isinstance(b, VecV) or isinstance(v, VecV) else 'int' if l.w else 'bool' if isinstance(b, bool) or (is_sym(b) and z3.is_bool(b)) else 'out' if isinstance(b, OutS) else 'host' if isinstance(b, HostS) else 'other'
            locs[l.key()] = l
    raise Unsupported('annotated loop: modified locations do not stabilise')


def fresh_value(ex, l):
    if l.kind == 'out':
        # everything is forgotten but where the stream stood
        return l.v0.repl(toks=(Base(ex.fresh_name('out')),))
    if l.kind == 'host':
        return l.v0.repl(bpos=z3.BitVec(ex.fresh_name('pos'), 64))
    if l.kind == 'vec':
        v0 = l.v0
        nm = ex.fresh_name('inv')
        n = l.ty.n if l.ty is not None and l.ty.k == 'arr' else z3.BitVec(nm + '.n', 64)
        return VecV(v0.to, None, n, lambda i, to=v0.to, nm=nm, g=list(ex.gens): ex.sym(to, nm + '[]', g + [i]), ('sym', nm))
    if l.kind == 'int':
        return z3.BitVec(ex.fresh_name('inv'), l.w)
    if l.kind == 'bool':
        return z3.Bool(ex.fresh_name('inv'))
    raise Unsupported('annotated loop changes %r (%r)' % (l.key(), l.v0))


def truth(c):
    if isinstance(c, int) and not isinstance(c, bool):
        return c != 0
    return c


def cached(ex, what, node, f):
    """paths are re-executed from their start: the same loop in the same state is done once"""
    pc = ex.pc()
    key = (what, id(node), tuple(x.get_id() for x in pc), ex.nfresh, ex.ncell, ex.nloop, tuple(d[0] for l in ex.levels for d in getattr(l, 'decs', [])[:l.pos]))
    c = ex.loop_cache.setdefault('annotated', {})
    if key not in c or ex.quiet:
        r = f()
        c[key] = (r, ex.nfresh, ex.ncell, ex.nloop, pc)
    else:
        r, ex.nfresh, ex.ncell, ex.nloop = c[key][:4]
    return r


def try_annotated(ex, node, cond, body, inc):
    """None when no written invariant is about this loop"""
    sp = ex.ghost.get('loopspec')
    if not sp:
        return None
    locs = cached(ex, 'discover', node, lambda: discover(ex, cond, body, inc))
    for f in sp:
        inv = f(ex, locs, node)
        if inv is not None:
            return run(ex, node, cond, body, inc, locs, inv)
    return None


def havoc(ex, locs, inv):
    for l in locs:
        l.set(ex, fresh_value(ex, l))
    inv.assume(ex)


def run(ex, node, cond, body, inc, locs, inv):
    inv.entry(ex, node)
    base = {}
    keys = [l.key() for l in locs]

    def thunk():
        havoc(ex, locs, inv)
        base.clear()
        base.update(ex.mem)
        v0 = inv.variant(ex)
        if not ex.decide(truth(cond())):
            raise X.Infeasible()
        try:
            body()
        except X.Continue_:
            pass
        inc()
        if changed(ex, base, ex.mem, keys):
            raise Unsupported('annotated loop changes more than was discovered')
        ex.prove(ULT(inv.variant(ex), v0), 'the loop terminates: its variant decreases', node)
        inv.preserved(ex, node)
    cached(ex, 'body', node, lambda: ex.explore(thunk) and None)
    havoc(ex, locs, inv)
    inv.after(ex)
    if not ex.decide(truth(cond())):
        return 'done'
    try:
        body()
    except X.Break_:
        return 'done'
    except X.Continue_:
        pass
    raise X.Infeasible()
