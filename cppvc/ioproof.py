"""C14: a failing stream is never mistaken for success.

Every unit runs a function with a ghost fault: at most one operation of a stream (or of the intermediate
file) fails, anywhere.  The postcondition of a normal return is that no operation has failed.  Nothing else is
decided here: the other obligations of these functions belong to the other properties, so that in these runs
undefined behaviour is assumed away and functional postconditions are skipped."""
import z3
from .vals import *
from .streams import *
from .loops import *
from .std import *
from .contracts import CODEC, fail
from .exec import CppThrow
from . import boxproof, codecproof, headerproof, treeproof, writerproof, readerproof, esdsproof

BX = boxproof.BX


def start(ex):
    ex.ghost['io_cell'] = ex.new_cell(False, BOOL)
    ex.ghost['io_only'] = True


def finish(ex):
    ex.prove(NOT(ex.load(ex.ghost['io_cell'])), 'no failure of a stream operation is lost on a normal return', kind='io')


def wrap(make):
    def mk(ex):
        run = make(ex)
        plain = ex.call_entry
        depth = [0]

        def call_entry(*a, **k):
            # an exception that leaves the function under contract reports the failure (the units catch some)
            depth[0] += 1
            try:
                return plain(*a, **k)
            except CppThrow:
                c = ex.ghost.get('io_cell')
                if depth[0] == 1 and c is not None:
                    ex.store(c, False)
                raise
            finally:
                depth[0] -= 1

        def r():
            ex.call_entry = call_entry
            depth[0] = 0
            start(ex)
            run()
            finish(ex)
        return r
    return mk


# ---------------------------------------------------------------- the bit-level functions, with nothing known of the data
def c_bit_out(ex, e, this, args, node):
    if io(ex):
        fail(ex, node)


def c_bit_in(ex, e, this, args, node):
    if io(ex):
        fail(ex, node)
    return ex.fresh(BOOL, 'bit')


LEAF = {codecproof.B + 'Writer::writeBit': c_bit_out, codecproof.B + 'Reader::readBit': c_bit_in}


class Forget(object):
    """the invariant of a loop of which only the stream matters: every other location may hold anything, vectors keep their length"""

    def __init__(self, locs):
        self.locs = locs

    @staticmethod
    def match(ex, locs, node):
        return Forget(list(locs)) if all(l.kind in ('vec', 'int', 'bool') for l in locs) else None

    def lens(self, ex, how):
        for l in self.locs:
            if l.kind == 'vec':
                how(EQ(l.get(ex).n, l.v0.n))

    def entry(self, ex, node):
        self.lens(ex, lambda c: ex.prove(c, 'the loop works on vectors of their length at entry', node, kind='io'))

    def preserved(self, ex, node):
        self.lens(ex, lambda c: ex.prove(c, 'the loop keeps the length of its vectors', node, kind='io'))
        ex.prove(NOT(ex.load(ex.ghost['io_cell'])), 'an iteration that ends normally has lost no failure', node, kind='io')

    def assume(self, ex):
        self.lens(ex, ex.assume)

    after = assume

    def variant(self, ex):
        return 0


def u_bits(name, cls, stream):
    f = name

    def make(ex):
        def run():
            ex.merge_ifs = cls == 'Reader'
            e = codecproof.need(ex.P, f)[0]
            s = ex.new_cell(stream())
            q = codecproof.B + cls
            this = ex.new_cell(RecV(q, {('m_os' if cls == 'Writer' else 'm_is'): PtrV(s), 'm_octet': z3.BitVec('octet', 8), 'm_width': z3.BitVec('width', 64)}))
            v = ex.sym(Ty('vec', to=U8), 'data', [])
            n = z3.BitVec('n', 64)
            ex.assume(AND(ULE(v.n, 8), ULE(n, 64)))
            if cls == 'Writer':
                ex.assume(ULE(n, mul(v.n, 8)))
            d = ex.new_cell(v)
            ex.ghost['loopspec'] = [Forget.match]
            start(ex)
            ex.call_entry(e, this, [d if cls == 'Writer' else PtrV(d), n], None, nocontract=True)
            finish(ex)
        return run
    return make


def o_write(ex, cls, spec):
    def run():
        p, v = boxproof.spec_obj(ex, cls, spec)
        this = ex.new_cell(v)
        os_ = ex.new_cell(OutS())
        start(ex)
        ex.call_entry(boxproof.method(ex, BX + cls, 'writeData'), this, [os_], None)
        finish(ex)
        ex.prove(NOT(ex.load(os_).failed), 'every byte was accepted by the stream', kind='io')
    return run


def o_read(ex, cls, spec):
    def run():
        ex.split_width = boxproof.SPLIT.get(cls)
        q = BX + cls
        this = boxproof.to_read(ex, cls)
        T = z3.BitVec('total', 64)
        s = z3.BitVec('start', 64)
        ex.assume(AND(ULE(T, 1 << 47), ULE(s, T)))
        is_ = ex.new_cell(HostS(s, T))
        start(ex)
        ex.call_entry(boxproof.method(ex, q, 'readData'), this, [is_], None)
        finish(ex)
        ex.prove(NOT(ex.load(is_).bad), 'the stream has not run out', kind='io')
    return run


KINDS = {'iowrite': o_write, 'ioread': o_read}


SKIP = ('Reader::readBits', 'Writer::writeBits')


def specs(P):
    r = [('Writer::writeBits', u_bits('Writer::writeBits', 'Writer', OutS), LEAF, True),
         ('Reader::readBits', u_bits('Reader::readBits', 'Reader', lambda: HostS(0, 0)), LEAF, True)]
    keep = esdsproof.specs(P, 'hostile') + esdsproof.specs(P, 'layout')
    keep = [x[0] for x in keep if 'Data' in x[0]]
    for mod in (codecproof, headerproof, treeproof, writerproof, readerproof, esdsproof):
        for sp in mod.specs(P):
            if not sp[0].startswith(SKIP) and not (mod is esdsproof and sp[0] not in keep):
                r.append((sp[0], wrap(sp[1]), sp[2], True))
    return r
