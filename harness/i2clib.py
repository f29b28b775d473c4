"""I2C bus monitor and helpers, independent of the code under test."""


class Pads:
    def __init__(self):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            from amaranth.compat import TSTriple
        self.scl_t = TSTriple()
        self.sda_t = TSTriple()

    def given(self, rng):
        """what the module is given: tristate pairs, or pins"""
        class Given:
            pass
        g = Given()
        if rng.random() < .5:
            g.scl_t, g.sda_t = self.scl_t, self.sda_t
        else:
            g.scl, g.sda = self.scl_t, self.sda_t
        return g


class BusMonitor:
    """Decodes the wired-AND lines: START, STOP, bits sampled at SCL rising edges."""
    def __init__(self):
        self.scl = self.sda = 1
        self.log = []          # ("S",) ("P",) ("b", bit)
        self.t = 0
        self.last_rise = self.last_fall = None
        self.rises = []
        self.min_high = self.min_low = None

    def step(self, scl, sda):
        self.t += 1
        ev = None
        if scl and self.scl:
            if self.sda and not sda:
                ev = ("S",)
            elif not self.sda and sda:
                ev = ("P",)
        elif scl and not self.scl:
            ev = ("b", sda)
            if self.last_fall is not None:
                d = self.t - self.last_fall
                self.min_low = d if self.min_low is None else min(self.min_low, d)
            self.last_rise = self.t
            self.rises.append(self.t)
        elif self.scl and not scl:
            if self.last_rise is not None:
                d = self.t - self.last_rise
                self.min_high = d if self.min_high is None else min(self.min_high, d)
            self.last_fall = self.t
        self.scl, self.sda = scl, sda
        if ev:
            self.log.append(ev)
        return ev


def line(b, ts, others):
    """Level of an open-drain line: the DUT pulls low when it drives a 0."""
    oe, o = b.get(ts.oe), b.get(ts.o)
    return (o if oe else 1) & others
