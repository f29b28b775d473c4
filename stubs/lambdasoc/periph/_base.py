from amaranth import Elaboratable, Module, tracer
from amaranth_soc import csr
from amaranth_soc.csr.wishbone import WishboneCSRBridge

from .event import IRQLine


class RegisterPeripheral(Elaboratable):
    """Registers on a Wishbone bus and an interrupt line, both left to the test bench."""
    REGISTERS = ()

    def __init__(self, *, name=None, src_loc_at=1):
        self.name = name or tracer.get_var_name(depth=2 + src_loc_at).lstrip("_")
        self._mux = csr.Multiplexer(addr_width=5, data_width=8)
        self.regs = []
        for suffix, width, access in self.REGISTERS:
            reg = csr.Element(width, access, name=f"{self.name}_{suffix}")
            self._mux.add(reg, alignment=2)
            self.regs.append((f"{self.name}_{suffix}", width, access, reg))
        self._bridge = WishboneCSRBridge(self._mux.bus, data_width=32)
        self.bus = self._bridge.wb_bus
        self.irq = IRQLine(name=f"{self.name}_irq")

    def elaborate(self, platform):
        m = Module()
        m.submodules.mux = self._mux
        m.submodules.bridge = self._bridge
        return m
