from amaranth import Elaboratable, Module, Signal, Cat
from .. import wishbone
from ..memory import MemoryMap

__all__ = ["WishboneCSRBridge"]


class WishboneCSRBridge(Elaboratable):
    """One CSR access per granule, low address first; the acknowledge follows the last one."""
    def __init__(self, csr_bus, *, data_width=None, name=None):
        self.csr_bus = csr_bus
        data_width = csr_bus.data_width if data_width is None else data_width
        self._ratio = data_width // csr_bus.data_width
        self._rbits = (self._ratio - 1).bit_length()
        self.wb_bus = wishbone.Interface(addr_width=max(0, csr_bus.addr_width - self._rbits), data_width=data_width,
                                         granularity=csr_bus.data_width)
        wmap = MemoryMap(addr_width=max(csr_bus.addr_width, self._rbits), data_width=csr_bus.data_width)
        wmap.add_window(csr_bus.memory_map)
        self.wb_bus.memory_map = wmap

    def elaborate(self, platform):
        m = Module()
        wb, csr, n, w = self.wb_bus, self.csr_bus, self._ratio, self.csr_bus.data_width
        step = Signal(range(n + 2))
        with m.If(wb.cyc & wb.stb & ~wb.ack):
            with m.If(step < n):
                m.d.comb += csr.addr.eq(step | (wb.adr << self._rbits))
                sel = Signal()
                # a register bank smaller than a bus word: there is nothing at the upper bytes
                inside = (step >> csr.addr_width) == 0
                m.d.comb += [sel.eq(wb.sel.bit_select(step, 1) & inside),
                             csr.r_stb.eq(sel & ~wb.we), csr.w_stb.eq(sel & wb.we),
                             csr.w_data.eq(wb.dat_w.word_select(step, w))]
            m.d.sync += step.eq(step + 1)
            for k in range(n):
                with m.If(step == k + 1):
                    m.d.sync += wb.dat_r[k * w:(k + 1) * w].eq(csr.r_data)
            with m.If(step == n):
                m.d.sync += [wb.ack.eq(1), step.eq(0)]
        with m.Else():
            m.d.sync += [wb.ack.eq(0), step.eq(0)]
        return m
