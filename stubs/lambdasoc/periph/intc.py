from amaranth import Elaboratable, Module, Signal
from .event import IRQLine


class GenericInterruptController(Elaboratable):
    def __init__(self, *, width):
        self.width = width
        self.ip = Signal(width)
        self._irqs = {}

    def add_irq(self, line, index):
        if not isinstance(line, IRQLine):
            raise TypeError("not an IRQLine")
        if index in self._irqs or not 0 <= index < self.width:
            raise ValueError("bad IRQ index")
        self._irqs[index] = line

    def elaborate(self, platform):
        m = Module()
        for i, line in self._irqs.items():
            m.d.comb += self.ip[i].eq(line)
        return m
