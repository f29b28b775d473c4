from amaranth import Elaboratable, Module, Memory, tracer
from amaranth_soc import wishbone
from amaranth_soc.memory import MemoryMap


class SRAMPeripheral(Elaboratable):
    def __init__(self, *, size, data_width=32, granularity=8, writable=True, name=None):
        self.name = name or tracer.get_var_name(depth=2).lstrip("_")
        if size <= 0 or size & size - 1 or size < data_width // granularity:
            raise ValueError("Size must be a power of two")
        self.size = size
        self.writable = writable
        self._words = size * granularity // data_width
        self._mem = Memory(width=data_width, depth=self._words, name=f"{self.name}_mem")
        self.bus = wishbone.Interface(addr_width=(self._words - 1).bit_length(), data_width=data_width,
                                      granularity=granularity, features={"cti", "bte"})
        mmap = MemoryMap(addr_width=(size - 1).bit_length(), data_width=granularity, name=self.name)
        mmap.add_resource(self._mem, name="mem", size=size)
        self.bus.memory_map = mmap

    @property
    def init(self):
        return self._mem.init

    @init.setter
    def init(self, init):
        self._mem.init = init

    def elaborate(self, platform):
        m = Module()
        m.submodules.rd = rd = self._mem.read_port()
        m.d.comb += [rd.addr.eq(self.bus.adr), self.bus.dat_r.eq(rd.data)]
        if self.writable:
            m.submodules.wr = wr = self._mem.write_port(granularity=self.bus.granularity)
            m.d.comb += [wr.addr.eq(self.bus.adr), wr.data.eq(self.bus.dat_w)]
            with m.If(self.bus.cyc & self.bus.stb & self.bus.we):
                m.d.comb += wr.en.eq(self.bus.sel)
        m.d.sync += self.bus.ack.eq(self.bus.cyc & self.bus.stb & ~self.bus.ack)
        return m
