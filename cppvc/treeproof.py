"""C07: the box tree.  A leaf is seen through the contract of its own adjustOffsetAndSize() / write() (structural induction):
   adjustOffsetAndSize(o): the subtree is placed at o, and S(leaf), its settled size, is returned;
   write(os): the subtree is written at its place and the put position ends up S(leaf) bytes later."""
import z3
from .vals import *
from .streams import *
from .layout import compare
from .std import *
from . import exec as X
from .exec import CppThrow, Infeasible
from .codecproof import same_lv
from .headerproof import fn, NS, HT, BT, MAX32, btype, tval, want_toks, form, consistent, shape, header

BI = NS + 'BoxInfo'
CLS = NS + 'box::Free'
LIM = 1 << 60


def ssize(k):
    return uf('S!leaf', [bv(k, 64)], z3.BitVecSort(64))


def lsum(k):
    j = fresh_k()
    return SUMS.sum(k, j, ssize(j))


def final_hs(d):
    return z3.If(z3.ULE(bv(d, 64), MAX32 - 8), z3.BitVecVal(8, 64), z3.BitVecVal(16, 64))


def hdr_box(ex, null=None):
    """a box with any payload size D whose header is not made yet, or made in any form"""
    shape(ex)
    D = z3.BitVec('own_data_size', 64)
    b = ex.construct_default(CLS)
    t = btype('bt')
    f = dict(b.f)
    f['m_type'] = t
    box = ex.new_cell(RecV(CLS, f))
    made = (ex.choose(2, 'header made') == 1) if null is None else not null
    h = z3.BitVec('hs0', 64)
    if made:
        ex.assume(z3.Or(h == 8, h == 16))
        hc = ex.new_cell(RecV(HT, {'m_offset': z3.BitVec('off0', 64), 'm_size': z3.BitVec('size0', 64), 'm_header_size': h, 'm_type': t, 'm_extend_to_eof': False}))
        ex.store(box.field('m_header'), PtrV(hc))
    else:
        h = z3.BitVecVal(8, 64)
        ex.store(box.field('m_header'), NullV())
    return D, t, h, box


def tree(ex):
    if set(x[0] for x in ex.all_fields(BI)) != {'m_path', 'm_box', 'm_leafs'}:
        raise Unsupported('fields of BoxInfo changed')
    D, t, h, box = hdr_box(ex)
    n = z3.BitVec('leafs', 64)
    ex.assume(AND(ULE(n, 1 << 40), ULE(D, LIM), ULE(lsum(n), LIM)))
    rec = Ty('rec', name=BI)
    leafs = ex.new_cell(VecV(rec, None, n, lambda k: RecV(BI, {'place': uf('place0', [bv(k, 64)], z3.BitVecSort(64)), 'size': uf('size0', [bv(k, 64)], z3.BitVecSort(64))}), ('src', 'leafs')))
    vec = VecV(Ty('ptr', to=rec), None, n, lambda k: PtrV(leafs.index(k)), ('src', 'm_leafs'))
    this = ex.new_cell(RecV(BI, {'m_path': VecV(Ty('rec', name=BT), [t]), 'm_box': PtrV(box), 'm_leafs': vec}))
    return dict(D=D, t=t, h=h, box=box, n=n, leafs=leafs, this=this)


def data_size(ex, e, this, args, node):
    return z3.BitVec('own_data_size', 64)


def leaf_of(ex, T, this):
    """k when `this` is the k-th leaf"""
    if this.cell == T['leafs'].cell and len(this.path) == 1:
        return this.path[0][1]
    return None


def placed(ex, T, o, hs):
    """the leafs after this box was placed at o with a header of hs bytes"""
    return VecV(Ty('rec', name=BI), None, T['n'],
                lambda k: RecV(BI, {'place': add(add(add(o, hs), T['D']), lsum(bv(k, 64))), 'size': ssize(k)}), ('src', 'leafs placed'))


def c_adjust(ex, e, this, args, node):
    T = ex.ghost['tree']
    o = ex.rval(args[0])
    k = leaf_of(ex, T, this)
    if k is not None:
        ex.store(this.field('place'), o)
        ex.store(this.field('size'), ssize(k))
        return ssize(k)
    if not same_lv(this, T['this']):
        raise Unsupported('adjustOffsetAndSize of an unrelated box')
    # the call on the same box: allowed because the header form is settled now and was not before
    data = add(T['D'], lsum(T['n']))
    hc = ex.load(T['box'].field('m_header'))
    now = ex.load(hc.lv.field('m_header_size')) if isinstance(hc, PtrV) else z3.BitVecVal(8, 64)
    ex.prove(AND(EQ(now, final_hs(data)), NOT(EQ(T['h'], final_hs(data)))), 'the recursion on the same box terminates: its header form is settled now, and was not before', node, 'pre')
    hs = final_hs(data)
    ex.store(hc.lv, RecV(HT, {'m_offset': o, 'm_size': add(data, hs), 'm_header_size': hs, 'm_type': T['t'], 'm_extend_to_eof': False}))
    ex.store(T['leafs'], placed(ex, T, o, hs))
    return add(data, hs)


def c_leaf_size(ex, e, this, args, node):
    T = ex.ghost['tree']
    k = leaf_of(ex, T, this)
    if k is None:
        return ex.call_entry(e, this, args, node, nocontract=True)
    return ex.load(this.field('size'))


ADJ = {BI + '::adjustOffsetAndSize': c_adjust, CLS + '::getDataSize': data_size, BI + '::getSize': c_leaf_size}


def u_adjust(ex):
    f = fn(ex.P, BI + '::adjustOffsetAndSize')[0]

    def run():
        T = tree(ex)
        ex.ghost['tree'] = T
        o = z3.BitVec('offset', 64)
        ex.assume(ULE(o, LIM))
        r = ex.call_entry(f, T['this'], [o], None, nocontract=True)
        data = add(T['D'], lsum(T['n']))
        hs = final_hs(data)
        ex.prove(EQ(r, add(data, hs)), 'the size returned is header + own payload + sizes of the children')
        hc = ex.load(T['box'].field('m_header'))
        if not isinstance(hc, PtrV):
            ex.prove(False, 'the box has a header')
            return
        h = ex.load(hc.lv)
        ex.prove(EQ(h.f['m_offset'], o), 'the box records its offset')
        ex.prove(EQ(h.f['m_header_size'], hs), 'the header has the form its size calls for')
        ex.prove(EQ(h.f['m_size'], add(data, hs)), 'the box records header + own payload + sizes of the children')
        ex.prove(EQ(tval(h.f['m_type']), tval(T['t']), 32), 'the header has the type of the box')
        ex.prove(EQ(h.f['m_extend_to_eof'], False), 'the header does not extend to the end of the file')
        v = ex.load(T['leafs'])
        k = fresh_k()

        def thunk():
            ex.prove(EQ(v.get(k).f['place'], add(add(add(o, hs), T['D']), lsum(k))), 'child k is placed behind the payload and the children before it')
            ex.prove(EQ(v.get(k).f['size'], ssize(k)), 'child k has its settled size')
        ex.explore(thunk, assumptions=[ULT(k, T['n'])])
        q = ex.load(T['this'])
        ex.prove(EQ(q.f['m_leafs'].n, T['n']), 'the children stay')
    return run


# ------------------------------------------------------------------ writing
def c_box_write(ex, e, this, args, node):
    T = ex.ghost['tree']
    hc = ex.load(this.field('m_header'))
    if not isinstance(hc, PtrV):
        ex.prove(False, 'a box is written only after its header was made', node, 'pre')
        raise Infeasible()
    if not same_lv(this, T['box']):
        raise Unsupported('write of an unrelated box')
    h = ex.load(hc.lv)
    ex.prove(EQ(ex.load(T['at']), h.f['m_offset']), 'the box is written at its recorded offset, where the previous one ended', node, 'pre')
    ex.store(T['at'], add(add(h.f['m_offset'], h.f['m_header_size']), T['D']))
    ex.store(T['count'], add(ex.load(T['count']), 1))
    return add(h.f['m_size'], mul(T['D'], 8))


def c_write(ex, e, this, args, node):
    T = ex.ghost['tree']
    k = leaf_of(ex, T, this)
    if k is None:
        raise Unsupported('write of an unrelated box')
    at = ex.load(T['at'])
    ex.prove(EQ(at, ex.load(this.field('place'))), 'the child is written at its recorded offset, where the previous one ended', node, 'pre')
    ex.store(T['at'], add(at, ssize(k)))
    ex.store(T['count'], add(ex.load(T['count']), 1))


WR = {BI + '::write': c_write, NS + 'Box::write': c_box_write}


def u_tree_write(ex):
    f = fn(ex.P, BI + '::write')[0]

    def run():
        T = tree(ex)
        o = z3.BitVec('offset', 64)
        ex.assume(ULE(o, LIM))
        data = add(T['D'], lsum(T['n']))
        hs = final_hs(data)
        hc = ex.new_cell(RecV(HT, {'m_offset': o, 'm_size': add(data, hs), 'm_header_size': hs, 'm_type': T['t'], 'm_extend_to_eof': False}))
        ex.store(T['box'].field('m_header'), PtrV(hc))
        ex.store(T['leafs'], placed(ex, T, o, hs))
        T['at'] = ex.new_cell(o, U64)
        T['count'] = ex.new_cell(0, U64)
        ex.ghost['tree'] = T
        os_ = ex.new_cell(OutS())
        ex.call_entry(f, T['this'], [os_], None, nocontract=True)
        ex.prove(EQ(ex.load(T['at']), add(o, add(data, hs))), 'the tree ends at offset + size')
        ex.prove(EQ(ex.load(T['count']), add(T['n'], 1)), 'the box and every child are written once')
        ex.prove(len(ex.load(os_).toks) == 0, 'nothing else is written')
    return run


def payload_toks(D):
    k = fresh_k()
    return (Seg(D, k, (Tok(8, uf('payload!', [k], z3.BitVecSort(8))),)),)


def c_writeData(ex, e, this, args, node):
    D = z3.BitVec('own_data_size', 64)
    s = args[0] if isinstance(args[0], LV) else ex.rval(args[0]).lv
    if not out_write(ex, s, payload_toks(D), node):
        raise CppThrow('std::runtime_error', node)
    return mul(D, 8)


def u_box_write(ex):
    """Box::write(): the header at its offset, the payload behind it"""
    f = fn(ex.P, NS + 'Box::write')[0]

    def run():
        D, t, h, box = hdr_box(ex, False)
        hc = ex.load(box.field('m_header')).lv
        o, s, e = z3.BitVec('off0', 64), z3.BitVec('size0', 64), False
        consistent(ex, s, h, z3.BoolVal(False))
        ex.assume(AND(ULE(o, LIM), ULE(s, LIM), ULE(D, LIM)))
        os_ = ex.new_cell(OutS())
        ex.call_entry(f, box, [os_], None)
        st = ex.load(os_)
        k = 2 if ex.decide(h == 16) else 1
        ex.prove(len(st.chunks) == 0, 'one contiguous piece is written')
        ex.prove(EQ(st.pos, o), 'the box is written at its offset')
        compare(ex, st.toks, want_toks(k, s, t) + payload_toks(D), 'the header is followed by the payload')
        q = ex.load(hc)
        ex.prove(AND(EQ(q.f['m_offset'], o), EQ(q.f['m_size'], s), EQ(q.f['m_header_size'], h)), 'offset and size are unchanged')
    return run


# ------------------------------------------------------------------ construction
def infoc(ex, q, path, leafs=()):
    b = ex.construct_default(q)
    f = dict(b.f)
    t = btype('bt')
    f['m_type'] = t
    box = ex.new_cell(RecV(q, f))
    return t, box, ex.new_cell(RecV(BI, {'m_path': path, 'm_box': PtrV(box), 'm_leafs': VecV(Ty('ptr', to=Ty('rec', name=BI)), list(leafs))}))


def u_ctor(parent, cls):
    def make(ex):
        def run():
            P = ex.P
            b = ex.construct_default(NS + 'box::' + cls) if cls == 'Free' else ex.sym(Ty('rec', name=NS + 'box::' + cls), 'b', [])
            f = dict(b.f)
            t = btype('bt')
            f['m_type'] = t
            f['m_header'] = NullV()
            box = ex.new_cell(RecV(b.q, f))
            if parent:
                pt, pbox, p = infoc(ex, CLS, ex.sym(Ty('vec', to=Ty('rec', name=BT)), 'path', []), [])
                m = z3.BitVec('siblings', 64)
                ex.assume(ULE(m, 1 << 40))
                rec = Ty('rec', name=BI)
                sib = ex.new_cell(VecV(rec, None, m, lambda k: RecV(BI, {}), ('src', 'sib')))
                ex.store(p.field('m_leafs'), VecV(Ty('ptr', to=rec), None, m, lambda k: PtrV(sib.index(k)), ('src', 'm_leafs')))
                path0 = ex.load(p.field('m_path'))
            params = ex.new_cell(RecV(NS + 'BoxInfoParameters', {'parent': PtrV(p) if parent else NullV(), 'box': PtrV(box)}))
            lv = ex.new_cell(ex.blank(BI))
            ex.run_ctor(BI, lv, [params], None, 'void (const BoxInfoParameters &)')
            r = ex.load(lv)
            ex.prove(isinstance(r.f['m_box'], PtrV) and same_lv(r.f['m_box'].lv, box), 'the node holds the given box')
            ex.prove(EQ(r.f['m_leafs'].n, 0), 'a new node has no children')
            pa = r.f['m_path']
            if parent:
                ex.prove(EQ(pa.n, add(path0.n, 1)), 'the path is the path of the parent and the own type')
                k = fresh_k()
                ex.explore(lambda: ex.prove(EQ(tval(pa.get(k)), tval(path0.get(k)), 32), 'the path starts with the path of the parent'), assumptions=[ULT(k, path0.n)])
                ex.prove(EQ(tval(pa.get(path0.n)), tval(t), 32), 'the path ends with the own type')
                ls = ex.load(p.field('m_leafs'))
                ex.prove(EQ(ls.n, add(m, 1)), 'the parent gets one more child')
                last = ls.get(m)
                ex.prove(isinstance(last, PtrV) and same_lv(last.lv, lv), 'the new node is the last child of its parent')

                def old():
                    x = ls.get(k)
                    ex.prove(isinstance(x, PtrV) and x.lv.cell == sib.cell and bool(ex.entails(zb(EQ(x.lv.path[0][1], k)))), 'the children before it stay')
                ex.explore(old, assumptions=[ULT(k, m)])
            else:
                ex.prove(EQ(pa.n, 1), 'the path of a root is its type')
                ex.prove(EQ(tval(pa.get(0)), tval(t), 32), 'the path of a root is its type')
            if cls == 'AudioSampleEntry':
                was = b.f['m_under_wave']
                now = ex.load(box.field('m_under_wave'))
                wave = EQ(tval(pt), int.from_bytes(b'wave', 'big'), 32) if parent else False
                ex.prove(EQ(now, OR(wave, was)), 'an audio sample entry below a wave box knows that it is')
        return run
    return make


def u_get(ex):
    def run():
        P = ex.P
        T = tree(ex)
        this = T['this']
        if not isinstance(ex.load(T['box'].field('m_header')), PtrV):
            try:
                ex.call_entry(fn(P, BI + '::getSize')[0], this, [], None, nocontract=True)
            except CppThrow:
                return
            ex.prove(False, 'getSize() throws before the box has a header')
            return
        s = z3.BitVec('size0', 64)
        ex.prove(EQ(ex.call_entry(fn(P, BI + '::getSize')[0], this, [], None, nocontract=True), s), 'getSize() is the size of the box')
        ex.prove(EQ(tval(ex.call_entry(fn(P, BI + '::getType')[0], this, [], None)), tval(T['t']), 32), 'getType() is the type of the box')
        b = ex.call_entry(fn(P, BI + '::getBox')[0], this, [], None)
        ex.prove(isinstance(b, PtrV) and same_lv(b.lv, T['box']), 'getBox() is the box')
        p = ex.call_entry(fn(P, BI + '::getPath')[0], this, [], None)
        ex.prove(AND(EQ(p.n, 1), EQ(tval(p.get(0)), tval(T['t']), 32)), 'getPath() is the path')
        x = ex.new_cell(RecV(BI, {}))
        ex.call_entry(fn(P, BI + '::addLeaf')[0], this, [PtrV(x)], None)
        v = ex.load(this.field('m_leafs'))
        ex.prove(EQ(v.n, add(T['n'], 1)), 'addLeaf() appends one child')
        y = v.get(T['n'])
        ex.prove(isinstance(y, PtrV) and same_lv(y.lv, x), 'addLeaf() appends the child')
    return run


def u_header(ex):
    """Box: header access, header creation"""
    def run():
        P = ex.P
        D, t, h, box = hdr_box(ex)
        made = isinstance(ex.load(box.field('m_header')), PtrV)
        ex.prove(EQ(ex.call_entry(fn(P, NS + 'Box::getHeaderSize')[0], box, [], None), h), 'getHeaderSize(): of the header, or of a fresh one')
        o, d = z3.BitVecs('offset data_size', 64)
        ex.assume(ULE(d, M64 - 16))
        ex.call_entry(fn(P, NS + 'Box::setOffsetAndDataSize')[0], box, [o, d], None)
        q = ex.load(ex.load(box.field('m_header')).lv)
        hs = final_hs(d)
        ex.prove(AND(EQ(q.f['m_offset'], o), EQ(q.f['m_size'], add(d, hs)), EQ(q.f['m_header_size'], hs), EQ(tval(q.f['m_type']), tval(t), 32), EQ(q.f['m_extend_to_eof'], False)),
                 'setOffsetAndDataSize(): the header of the box')
        ex.prove(EQ(ex.call_entry(fn(P, NS + 'Box::getSize')[0], box, [], None), add(d, hs)), 'getSize() is the size of the header')
        hc = ex.new_cell(RecV(HT, {'m_offset': 0, 'm_size': 0, 'm_header_size': 8, 'm_type': t, 'm_extend_to_eof': False}))
        ex.call_entry(fn(P, NS + 'Box::setHeader')[0], box, [PtrV(hc)], None)
        p = ex.load(box.field('m_header'))
        ex.prove(isinstance(p, PtrV) and same_lv(p.lv, hc), 'setHeader()')
        ex.prove(EQ(tval(ex.call_entry(fn(P, NS + 'Box::getType')[0], box, [], None)), tval(t), 32), 'getType()')
    return run


def specs(P):
    N = {}
    return [
        ('BoxInfo::adjustOffsetAndSize', u_adjust, ADJ, False),
        ('BoxInfo::write', u_tree_write, WR, False),
        ('Box::write', u_box_write, {CLS + '::writeData': c_writeData, CLS + '::getDataSize': data_size}, False),
        ('BoxInfo() root', u_ctor(False, 'Free'), N, False),
        ('BoxInfo() child', u_ctor(True, 'Free'), N, False),
        ('BoxInfo() child, audio sample entry', u_ctor(True, 'AudioSampleEntry'), N, False),
        ('BoxInfo accessors', u_get, N, False),
        ('Box header', u_header, N, False),
    ]
