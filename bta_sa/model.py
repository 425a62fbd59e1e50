"""Types of the objects the steps work with: a Telescope and its DUTs."""
from .interp import Plugin, Val, T
from .loader import PKG

TEL = PKG + '.telescope.telescope.Telescope'
DUT = PKG + '.telescope.dut.Dut'


def dut_val(term, deps=frozenset(), roots=frozenset()):
    return Val(obj=frozenset([('inst', DUT, ('tel',))]), term=term, deps=deps, roots=roots)


class Model(Plugin):
    """Iterating or indexing a Telescope yields Dut objects."""
    name = 'model'

    def is_tel(self, v):
        return any(o[0] == 'inst' and o[1] == TEL for o in v.obj)

    def param(self, it, fr, name, val):
        if name == 'telescope' and not val.obj:
            return val.with_(obj=frozenset([('inst', TEL, ('param', name))]))
        if name in ('dut', 'actual_dut', 'ref_dut') and not val.obj:
            return val.with_(obj=frozenset([('inst', DUT, ('tel',))]))
        return val

    def iterate(self, it, fr, env, itv, elem, node):
        if self.is_tel(itv):
            return dut_val(T.mk('elem', itv.term, id(node)), elem.deps)
        return elem

    def sub_load(self, it, fr, env, base, idx, val, node):
        if self.is_tel(base):
            return dut_val(T.mk('sub', base.term, idx.term), val.deps)
        return val
