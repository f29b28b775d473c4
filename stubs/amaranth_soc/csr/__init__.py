from enum import Enum
from amaranth import Record, Elaboratable, Module, Signal
from ..memory import MemoryMap

__all__ = ["Element", "Interface", "Multiplexer"]


class Element(Record):
    class Access(Enum):
        R = "r"
        W = "w"
        RW = "rw"

        def readable(self):
            return self in (self.R, self.RW)

        def writable(self):
            return self in (self.W, self.RW)

    def __init__(self, width, access, *, name=None):
        if not isinstance(access, Element.Access):
            access = Element.Access(access)
        self.width = width
        self.access = access
        self._name = name
        layout = []
        if access.readable():
            layout += [("r_data", width), ("r_stb", 1)]
        if access.writable():
            layout += [("w_data", width), ("w_stb", 1)]
        super().__init__(layout, name=name or "csr")


class Interface(Record):
    def __init__(self, *, addr_width, data_width, name=None):
        self.addr_width = addr_width
        self.data_width = data_width
        self.memory_map = None
        super().__init__([("addr", addr_width), ("r_data", data_width), ("r_stb", 1),
                          ("w_data", data_width), ("w_stb", 1)], name=name or "csrbus")


class Multiplexer(Elaboratable):
    """Registers wider than the bus: reading the first chunk samples the register (and strobes it), writing the
    last chunk commits it.  Read data is valid the cycle after the strobe."""
    def __init__(self, *, addr_width, data_width, alignment=0):
        self.data_width = data_width
        self._map = MemoryMap(addr_width=addr_width, data_width=data_width, alignment=alignment)
        self._bus = None
        self._elems = []

    @property
    def bus(self):
        if self._bus is None:
            self._map.freeze()
            self._bus = Interface(addr_width=self._map.addr_width, data_width=self.data_width)
            self._bus.memory_map = self._map
        return self._bus

    def add(self, element, *, addr=None, alignment=None, extend=False):
        size = (element.width + self.data_width - 1) // self.data_width
        start, end = self._map.add_resource(element, name=element._name, size=size, addr=addr, alignment=alignment, extend=extend)
        self._elems.append((element, start, end))
        return start, end

    def elaborate(self, platform):
        m = Module()
        bus, w = self.bus, self.data_width
        rdata = Signal(w)
        m.d.comb += bus.r_data.eq(rdata)
        m.d.sync += rdata.eq(0)
        for elem, start, end in self._elems:
            n = end - start
            if elem.access.readable():
                shadow = Signal(elem.width)
                with m.If(bus.r_stb & (bus.addr == start)):
                    m.d.comb += elem.r_stb.eq(1)
                    m.d.sync += [shadow.eq(elem.r_data), rdata.eq(elem.r_data[:w])]
                for k in range(1, n):
                    with m.If(bus.r_stb & (bus.addr == start + k)):
                        m.d.sync += rdata.eq(shadow[k * w:(k + 1) * w])
            if elem.access.writable():
                part = Signal(elem.width)
                m.d.comb += elem.w_data.eq(part)
                with m.If(bus.w_stb & (bus.addr == end - 1)):
                    m.d.comb += [elem.w_stb.eq(1), elem.w_data[(n - 1) * w:].eq(bus.w_data)]
                for k in range(n - 1):
                    with m.If(bus.w_stb & (bus.addr == start + k)):
                        m.d.sync += part[k * w:(k + 1) * w].eq(bus.w_data)
        return m
