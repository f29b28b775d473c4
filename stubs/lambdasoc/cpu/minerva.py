from amaranth import Elaboratable, Module, Record, Signal
from amaranth_soc import wishbone


class MinervaCPU(Elaboratable):
    """Bus-level stand-in: the two bus masters are driven by the test bench."""
    def __init__(self, **kwargs):
        self.options = kwargs
        if kwargs.get("with_debug"):
            self._cpu = type("Core", (), {})()
            self._cpu.jtag = Record([("tck", 1), ("tms", 1), ("tdi", 1), ("tdo", 1)])
        self.ibus = wishbone.Interface(addr_width=30, data_width=32, granularity=8, features={"cti", "bte"})
        self.dbus = wishbone.Interface(addr_width=30, data_width=32, granularity=8, features={"cti", "bte"})
        self.ip = Signal(32)

    def elaborate(self, platform):
        return Module()
