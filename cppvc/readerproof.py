"""C12: reading a file.

readBox() is verified against its own contract: the recursive call starts at least eight bytes behind the box
at hand and inside the file, which is the measure that makes the recursion end.  The contract of readBox(parent)
with the stream at p in a file of T bytes:  it throws, or it has read the box at p, which lies inside the
file, has added one node for it (below the parent, or to the roots), returns its size (at least eight) and
leaves the stream behind it.  On a well-formed file it does not throw: this is a second run with the contracts
of the callees on well-formed files."""
import z3
from .vals import *
from .streams import *
from .layout import compare as toks_same
from .std import *
from . import exec as X
from .exec import CppThrow
from .contracts import fail
from .codecproof import same_lv
from .headerproof import fn, NS, HT, BT, btype, tval
from .treeproof import infoc
from .trackproof import field

SR = NS + 'reader::SimpleReader'
BI = NS + 'BoxInfo'
BX = NS + 'box::'
FILE = 'file!'
BIT = Ty('ptr', to=Ty('rec', name=BI))


def v64(n):
    return z3.BitVec(n, 64)


class S(object):
    """the file, the reader, and what is being read"""

    def __init__(self, ex, wf, start=None):
        self.ex, self.wf = ex, wf
        self.T = v64('total')
        ex.assume(ULE(self.T, 1 << 47))
        self.p = v64('start') if start is None else start
        ex.assume(ULE(self.p, self.T))
        self.is_ = ex.new_cell(HostS(self.p, self.T, src=FILE))
        r = ex.blank(SR)
        f = dict(r.f)
        f[field(ex, SR, 'm_is')] = PtrV(self.is_)
        self.fboxes = field(ex, SR, 'm_boxes')
        f[self.fboxes] = VecV(BIT, ())
        f[field(ex, SR, 'm_total_size')] = self.T
        self.this = ex.new_cell(RecV(SR, f))
        self.hdr = self.box = self.child = None
        self.made, self.nodes = 0, []
        ex.ghost['rd'] = self
        ex.ghost['rd.header'] = self.ex.new_cell(False, BOOL)
        ex.ghost['rd.read'] = self.ex.new_cell(False, BOOL)


def pos(ex, st):
    return ex.load(st.is_).bpos


def stream_arg(ex, a):
    return a if isinstance(a, LV) else ex.rval(a).lv


def c_header(ex, e, this, args, nd):
    """read_box_header(): contract proved in C06"""
    st = ex.ghost['rd']
    s = stream_arg(ex, args[0])
    if not ex.prove(same_lv(s, st.is_) and ex.load(st.is_).bad is False, 'the header is read from the file', nd, 'pre'):
        raise X.Infeasible()
    if io(ex) or (not st.wf and ex.choose(2, 'read_box_header')):
        fail(ex, nd)
    p = ex.load(s).bpos
    sz = z3.BitVec(ex.fresh_name('size'), 64)
    h = 16 if ex.choose(2, 'large') else 8
    ex.assume(AND(ULE(p, st.T), ULE(h, sub(st.T, p))))
    if st.wf:
        ex.assume(AND(ULE(h, sz), ULE(sz, sub(st.T, p))))
    lv = ex.new_cell(RecV(HT, {'m_offset': p, 'm_size': sz, 'm_header_size': h, 'm_type': btype(ex.fresh_name('type')), 'm_extend_to_eof': False}))
    # the header has been read: the stream is somewhere behind its start
    q = z3.BitVec(ex.fresh_name('pos'), 64)
    ex.assume(ULE(q, st.T))
    ex.store(s, ex.load(s).repl(bpos=q))
    st.hdr, st.p0, st.size, st.h = lv, p, sz, h
    return PtrV(lv)


def c_instance(ex, e, this, args, nd):
    """BoxMap::getBoxInstance(header): contract proved in C13 (a box of the class of the type, with that header)"""
    st = ex.ghost['rd']
    a = ex.rval(args[0])
    ex.prove(st.hdr is not None and isinstance(a, PtrV) and same_lv(a.lv, st.hdr), 'the box is created for the header just read', nd, 'pre')
    if not st.wf and ex.choose(2, 'getBoxInstance'):
        return NULL
    b = dict(ex.construct_default(BX + 'Free').f)
    b['m_header'] = PtrV(st.hdr)
    b['m_type'] = ex.load(st.hdr.field('m_type'))
    st.box = ex.new_cell(RecV(BX + 'Free', b))
    return PtrV(st.box)


def data_size(st):
    return sub(st.size, st.h)


def c_read_data(ex, e, this, args, nd):
    """readData() of any box: contract proved in C05 (never more bits than there are) and C04"""
    st = ex.ghost['rd']
    if not ex.prove(st.box is not None and same_lv(this, st.box), 'the payload is read by the box created for the header', nd, 'pre'):
        raise X.Infeasible()
    s = ex.load(stream_arg(ex, args[0]))
    if not ex.prove(isinstance(s, InS) and s.pos == 0, 'the payload is read from its start', nd, 'pre'):
        raise X.Infeasible()
    k = fresh_k()
    D = data_size(st)
    toks_same(ex, s.toks, mkseg(D, k, (Tok(8, uf(FILE, [add(add(st.p0, st.h), k)], z3.BitVecSort(8))),)), 'the box gets the bytes behind its header, all of them')
    ex.prove(EQ(ex.load(ex.ghost['rd.read']), False), 'the payload is decoded once', nd, 'pre')
    ex.store(ex.ghost['rd.read'], True)
    if not st.wf and ex.choose(2, 'readData'):
        fail(ex, nd)
    nb = z3.BitVec(ex.fresh_name('bits'), 64)
    ex.assume(ULE(nb, mul(D, 8)))
    if st.wf:
        ex.assume(EQ(nb & 7, 0))
    st.bytes = z3.LShR(nb, 3)
    return nb


def c_node(ex, q, lv, args, nd):
    """BoxInfo(): contract proved in C07 (a node for the box, below the parent)"""
    st = ex.ghost['rd']
    pr = ex.load(args[0]) if isinstance(args[0], LV) else ex.rval(args[0])
    st.nodes = st.nodes + [(lv, pr.f['parent'], pr.f['box'])]
    ex.store(lv, RecV(BI, {'m_path': VecV(Ty('rec', name=BT), ()), 'm_box': pr.f['box'], 'm_leafs': VecV(BIT, ())}))


def c_rec(ex, e, this, args, nd):
    """readBox() of a child: its own contract"""
    st = ex.ghost['rd']
    pa = ex.rval(args[0])
    p = pos(ex, st)
    own = st.nodes[0][0] if len(st.nodes) == 1 else None
    ex.prove(own is not None and isinstance(pa, PtrV) and same_lv(pa.lv, own), 'the children are put below the node of this box', nd, 'pre')
    ex.prove(ex.load(st.is_).bad is False, 'the stream is good', nd, 'pre')
    if not ex.prove(st.size is not None, 'a child is read after the header of its parent', nd, 'pre'):
        raise X.Infeasible()
    end = add(st.p0, st.size)
    ex.prove(AND(ULT(st.p0, p), ULE(p, st.T)), 'the recursion ends: a child starts behind the start of its parent, inside the file', nd, 'pre')
    ex.prove(ULT(p, end), 'a child starts inside its parent', nd, 'pre')
    if io(ex) or (not st.wf and ex.choose(2, 'readBox')):
        fail(ex, nd)
    r = z3.BitVec(ex.fresh_name('child'), 64)
    ex.assume(AND(ULE(8, r), ULE(r, sub(st.T, p))))
    if st.wf:
        ex.assume(ULE(r, sub(end, p)))
    ex.store(st.is_, ex.load(st.is_).repl(bpos=add(p, r)))
    ex.store(st.visited, add(p, r))
    return r


class Children(object):
    """the children read so far fill the box up to the position of the stream"""

    @staticmethod
    def match(ex, locs, nd):
        st = ex.ghost.get('rd')
        if st is None:
            return None
        h = [l for l in locs if l.kind == 'host']
        i = [l for l in locs if l.kind == 'int' and l.cell != st.visited.cell]
        if len(h) != 1 or len(i) != 1 or any(l.kind not in ('host', 'int') for l in locs):
            return None
        return Children(ex, st, h[0], i[0])

    def __init__(self, ex, st, h, i):
        self.st, self.h, self.i = st, h, i

    def terms(self, ex):
        st = self.st
        p, n = self.h.get(ex).bpos, self.i.get(ex)
        base = add(st.p0, st.h) if st.size is not None else 0
        r = [('the stream stands behind the last child', EQ(p, add(base, n))), ('inside the file', AND(ULE(n, st.T), ULE(p, st.T))),
             ('every byte so far belongs to one child', OR(EQ(ex.load(st.visited), p), AND(EQ(p, self.first(ex)), EQ(ex.load(st.visited), 0))))]
        if st.wf and st.size is not None:
            r.append(('and inside the box', ULE(n, data_size(st))))
        return r

    def first(self, ex):
        st = self.st
        return 0 if st.size is None else add(add(st.p0, st.h), st.bytes)

    def entry(self, ex, nd):
        ex.prove(EQ(self.h.get(ex).bpos, self.first(ex)), 'the first child starts behind the fields of its parent', nd)
        for w, t in self.terms(ex):
            ex.prove(t, 'children, at entry: ' + w, nd)

    def assume(self, ex):
        for w, t in self.terms(ex):
            ex.assume(t)
        self.p1 = self.h.get(ex).bpos

    after = assume

    def preserved(self, ex, nd):
        s = self.h.get(ex)
        ex.prove(s.bad is False, 'children: the stream is good', nd)
        for w, t in self.terms(ex):
            ex.prove(t, 'children, preserved: ' + w, nd)

    def variant(self, ex):
        return sub(self.st.T, self.h.get(ex).bpos)


HOOKS = {NS + 'read_box_header': c_header, NS + 'BoxMap::getBoxInstance': c_instance, BX + 'Free::readData': c_read_data, 'ctor:' + BI: c_node, SR + '::readBox': c_rec}


def u_box(wf, root):
    def make(ex):
        e = fn(ex.P, SR + '::readBox')[0]

        def run():
            st = S(ex, wf)
            st.size = None
            st.visited = ex.new_cell(0, U64)
            ex.ghost['loopspec'] = [Children.match]
            if root:
                pa = NULL
            else:
                _, _, plv = infoc(ex, BX + 'Free', VecV(Ty('rec', name=BT), ()))
                pa = PtrV(plv)
            ex.assume(ULT(st.p, st.T))
            try:
                r = ex.call_entry(e, st.this, [pa], None, nocontract=True)
            except CppThrow:
                if wf:
                    ex.prove(False, 'a well-formed file is read without an error')
                raise
            if not ex.prove(st.hdr is not None and st.box is not None, 'a box has been read'):
                return
            ex.prove(EQ(st.p0, st.p), 'the box read is the one the stream stood at')
            ex.prove(EQ(ex.load(ex.ghost['rd.read']), True), 'its fields have been read')
            ex.prove(EQ(r, st.size), 'the size of the box is returned')
            ex.prove(AND(ULE(8, r), ULE(r, sub(st.T, st.p))), 'the box has a header and lies inside the file')
            s = ex.load(st.is_)
            ex.prove(AND(s.bad is False, EQ(s.bpos, add(st.p, st.size))), 'the stream stands behind the box')
            kids = sub(data_size(st), st.bytes)
            ex.prove(AND(ULE(st.bytes, data_size(st)), OR(EQ(kids, 0), EQ(ex.load(st.visited), add(st.p, st.size)))), 'the children fill the box exactly')
            if not ex.prove(len(st.nodes) == 1, 'one node is created'):
                return
            lv, npa, nbox = st.nodes[0]
            ex.prove(isinstance(nbox, PtrV) and same_lv(nbox.lv, st.box), 'the node holds the box')
            b = ex.load(st.box)
            ex.prove(isinstance(b.f['m_header'], PtrV) and same_lv(b.f['m_header'].lv, st.hdr), 'which has the header read')
            h = ex.load(st.hdr)
            ex.prove(AND(EQ(h.f['m_offset'], st.p), EQ(h.f['m_size'], st.size), EQ(h.f['m_header_size'], st.h)), 'the header is kept as it was read')
            roots = ex.load(st.this.field(st.fboxes))
            if root:
                ex.prove(not isinstance(npa, PtrV), 'a root has no parent')
                if ex.prove(EQ(roots.n, 1), 'a root is recorded'):
                    x = roots.get(0)
                    ex.prove(isinstance(x, PtrV) and same_lv(x.lv, lv), 'the root recorded is the node of this box')
            else:
                ex.prove(isinstance(npa, PtrV) and same_lv(npa.lv, plv), 'the node is put below the given parent')
                ex.prove(EQ(roots.n, 0), 'no root is recorded')
        return run
    return make


def c_root(ex, e, this, args, nd):
    """readBox(nullptr): the contract proved above"""
    st = ex.ghost['rd']
    ex.prove(not isinstance(ex.rval(args[0]), PtrV), 'a root has no parent', nd, 'pre')
    p = pos(ex, st)
    ex.prove(AND(ex.load(st.is_).bad is False, ULT(p, st.T)), 'a box is read inside the file', nd, 'pre')
    if io(ex) or (not st.wf and ex.choose(2, 'readBox')):
        fail(ex, nd)
    r = z3.BitVec(ex.fresh_name('root'), 64)
    ex.assume(AND(ULE(8, r), ULE(r, sub(st.T, p))))
    ex.store(st.is_, ex.load(st.is_).repl(bpos=add(p, r)))
    ex.store(st.visited, add(p, r))
    return r


def u_read(wf):
    def make(ex):
        e = fn(ex.P, SR + '::read')[0]

        def run():
            st = S(ex, wf, 0)
            st.size = None
            st.visited = ex.new_cell(0, U64)
            ex.ghost['loopspec'] = [Children.match]
            try:
                ex.call_entry(e, st.this, [], None)
            except CppThrow:
                if wf:
                    ex.prove(False, 'a well-formed file is read without an error')
                raise
            ex.prove(EQ(ex.load(st.visited), st.T), 'the boxes read fill the file')
        return run
    return make


def u_ctor(ex):
    def run():
        T, s = v64('total'), v64('start')
        ex.assume(AND(ULE(T, 1 << 47), ULE(s, T)))
        is_ = ex.new_cell(HostS(s, T))
        lv = ex.new_cell(ex.blank(SR))
        ex.run_ctor(SR, lv, [is_], None, 'void (std::istream &)')
        r = ex.load(lv)
        ex.prove(EQ(r.f[field(ex, SR, 'm_total_size')], T), 'the size of the file')
        ex.prove(EQ(r.f[field(ex, SR, 'm_boxes')].n, 0), 'nothing is read yet')
        ex.prove(EQ(ex.load(is_).bpos, 0), 'reading starts at the start of the file')
        ex.prove(ex.load(ex.ghost['registered']) is True, 'the known types are registered')
    return run


def u_ctor_(ex):
    r = u_ctor(ex)

    def run():
        ex.ghost['registered'] = ex.new_cell(False, BOOL)
        r()
    return run


def c_register(ex, e, this, args, nd):
    ex.store(ex.ghost['registered'], True)


def specs(P):
    R = {SR + '::readBox': c_root, BI + '::toString': lambda ex, e, this, args, nd: Opaque('node')}
    C = {NS + 'register_box_map': c_register}
    return [
        ('SimpleReader()', u_ctor_, C, False),
        ('SimpleReader::readBox of a root', u_box(False, True), HOOKS, True),
        ('SimpleReader::readBox of a child', u_box(False, False), HOOKS, True),
        ('SimpleReader::readBox of a root, well-formed file', u_box(True, True), HOOKS, False),
        ('SimpleReader::readBox of a child, well-formed file', u_box(True, False), HOOKS, False),
        ('SimpleReader::read', u_read(False), R, True),
        ('SimpleReader::read, well-formed file', u_read(True), R, False),
    ]
