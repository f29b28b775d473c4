"""Cycle-level execution of the real gateware with monitors attached at its ports.

`Bench` drives the Amaranth simulator engine directly: the code under test is elaborated from
/repo by Amaranth itself; the bench only toggles clocks, drives input ports and samples output
ports (never internal signals), so a monitor sees exactly what a neighbouring circuit would see.
"""
from amaranth.sim import Simulator
from amaranth.hdl.ast import Signal, Value, ValueCastable
from amaranth.hdl.rec import Record


class Port:
    __slots__ = ("slot", "width", "signed", "mask", "sbit")

    def __init__(self, state, sig):
        if isinstance(sig, ValueCastable):
            sig = sig.as_value()
        if not isinstance(sig, Signal):
            raise TypeError(f"port must be a plain signal, not {sig!r}")
        self.slot = state.slots[state.get_signal(sig)]
        shape = sig.shape()
        self.width = shape.width
        self.signed = shape.signed
        self.mask = (1 << shape.width) - 1
        self.sbit = 1 << (shape.width - 1) if shape.width else 0

    def get(self):
        """Current value, as an unsigned bit pattern or a signed number per the port's shape."""
        return self.slot.curr

    def bits(self):
        return self.slot.curr & self.mask

    def set(self, value):
        value = int(value) & self.mask
        if self.signed and value & self.sbit:
            value -= self.mask + 1
        self.slot.set(value)


class StepLimit(Exception):
    """The combinational network did not settle: a combinational loop."""


class Bench:
    def __init__(self, dut, domains=("sync",)):
        self.sim = Simulator(dut)
        self.eng = self.sim._engine
        self.state = self.eng._state
        self._ports = {}
        doms = self.sim._fragment.domains
        self.clk = {}
        self.rst = {}
        for d in domains:
            if d in doms:
                self.clk[d] = (self.port(doms[d].clk), 0 if doms[d].clk_edge == "neg" else 1)
                if doms[d].rst is not None:
                    self.rst[d] = self.port(doms[d].rst)
        self.cycle = 0
        self.eng._step()

    def port(self, sig):
        key = id(sig)
        p = self._ports.get(key)
        if p is None:
            p = self._ports[key] = (Port(self.state, sig), sig)
        return p[0]

    def set(self, sig, value):
        self.port(sig).set(value)

    def get(self, sig):
        return self.port(sig).slot.curr

    def settle(self):
        eng = self.eng
        procs = eng._processes
        state = eng._state
        n = 0
        converged = False
        while not converged:
            for p in procs:
                if p.runnable:
                    p.runnable = False
                    p.run()
            converged = state.commit(None)
            n += 1
            if n > 3000:
                raise StepLimit("combinational network does not settle")

    def tick(self, *domains):
        """Settle, then one rising edge of the named clock domains (simultaneously)."""
        self.settle()
        names = domains or ("sync",)
        clks = [self.clk[d] for d in names if d in self.clk]
        for c, e in clks:
            c.slot.set(1)
        self.settle()
        for c, e in clks:
            c.slot.set(0)
        self.settle()
        self.cycle += 1


class View:
    """dict-like set of named ports of a DUT."""
    def __init__(self, bench, **sigs):
        self.__dict__["_b"] = bench
        self.__dict__["_p"] = {k: bench.port(v) for k, v in sigs.items()}

    def __getattr__(self, k):
        return self._p[k].slot.curr

    def __setattr__(self, k, v):
        self._p[k].set(v)
