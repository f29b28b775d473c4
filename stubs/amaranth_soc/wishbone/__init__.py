from amaranth import Record, Elaboratable, Module, Signal
from ..memory import MemoryMap

__all__ = ["Interface", "Decoder", "Arbiter"]


class Interface(Record):
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset(), name=None, alignment=0):
        granularity = data_width if granularity is None else granularity
        self.addr_width = addr_width
        self.data_width = data_width
        self.granularity = granularity
        self.features = set(features)
        self._map = None
        layout = [("adr", addr_width), ("dat_w", data_width), ("dat_r", data_width),
                  ("sel", data_width // granularity), ("cyc", 1), ("stb", 1), ("we", 1), ("ack", 1)]
        layout += [(f, {"cti": 3, "bte": 2}.get(f, 1)) for f in sorted(self.features)]
        super().__init__(layout, name=name or "wb")

    @property
    def memory_map(self):
        if self._map is None:
            raise NotImplementedError("no memory map")
        return self._map

    @memory_map.setter
    def memory_map(self, m):
        if m.data_width != self.granularity:
            raise ValueError("memory map data width must equal the bus granularity")
        self._map = m

    @property
    def granularity_bits(self):
        return (self.data_width // self.granularity - 1).bit_length()

    def connect(self, sub):
        return [sub.adr.eq(self.adr), sub.dat_w.eq(self.dat_w), sub.sel.eq(self.sel), sub.cyc.eq(self.cyc),
                sub.stb.eq(self.stb), sub.we.eq(self.we), self.dat_r.eq(sub.dat_r), self.ack.eq(sub.ack)]


class Decoder(Elaboratable):
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset(), alignment=0):
        granularity = data_width if granularity is None else granularity
        self.data_width, self.granularity, self.features = data_width, granularity, features
        self._bits = (data_width // granularity - 1).bit_length()
        self._map = MemoryMap(addr_width=max(1, addr_width + self._bits), data_width=granularity, alignment=alignment)
        self._bus = None
        self._subs = []

    @property
    def bus(self):
        if self._bus is None:
            self._map.freeze()
            self._bus = Interface(addr_width=max(0, self._map.addr_width - self._bits), data_width=self.data_width,
                                  granularity=self.granularity, features=self.features)
            self._bus.memory_map = self._map
        return self._bus

    def add(self, sub_bus, *, addr=None, sparse=False, extend=False):
        if not isinstance(sub_bus, Interface):
            raise TypeError("Subordinate bus must be an instance of wishbone.Interface")
        start, end, ratio = self._map.add_window(sub_bus.memory_map, addr=addr, sparse=sparse, extend=extend)
        self._subs.append((sub_bus, start, end))
        return start, end, ratio

    def elaborate(self, platform):
        m = Module()
        bus = self.bus
        for sub, start, end in self._subs:
            hit = Signal()
            lo, hi = start >> self._bits, max(end >> self._bits, (start >> self._bits) + 1)
            m.d.comb += [
                hit.eq((bus.adr >= lo) & (bus.adr < hi)),
                sub.adr.eq(bus.adr - lo), sub.dat_w.eq(bus.dat_w), sub.sel.eq(bus.sel),
                sub.we.eq(bus.we), sub.stb.eq(bus.stb & hit), sub.cyc.eq(bus.cyc & hit),
            ]
            with m.If(hit):
                m.d.comb += [bus.dat_r.eq(sub.dat_r), bus.ack.eq(sub.ack)]
        return m


class Arbiter(Elaboratable):
    """Fixed-priority at the start of a cycle, then held until the cycle ends."""
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset()):
        self.bus = Interface(addr_width=addr_width, data_width=data_width, granularity=granularity, features=features)
        self._intrs = []

    def add(self, intr):
        self._intrs.append(intr)

    def elaborate(self, platform):
        m = Module()
        n = len(self._intrs)
        grant = Signal(range(max(2, n)))
        with m.If(~self.bus.cyc):
            for i, intr in reversed(list(enumerate(self._intrs))):
                with m.If(intr.cyc):
                    m.d.sync += grant.eq(i)
        with m.Switch(grant):
            for i, intr in enumerate(self._intrs):
                with m.Case(i):
                    m.d.comb += [self.bus.adr.eq(intr.adr), self.bus.dat_w.eq(intr.dat_w), self.bus.sel.eq(intr.sel),
                                 self.bus.we.eq(intr.we), self.bus.stb.eq(intr.stb), self.bus.cyc.eq(intr.cyc),
                                 intr.dat_r.eq(self.bus.dat_r), intr.ack.eq(self.bus.ack)]
        return m
