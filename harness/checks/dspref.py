"""Reference designs and bit-exact models for the filters (independent of the code under test)."""
import numpy as np
from scipy import signal


def wrap(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def quant(coefs, F):
    """Fixed point coefficients, and whether float rounding could change one of them."""
    out, sure = [], True
    for c in coefs:
        s = float(c) * 2 ** F
        near = round(s)
        if near and abs(s - near) < 1e-6:
            sure = False
            out.append(near)
        else:
            out.append(int(s))
    return out, sure


def fir_design(rate, order, cutoff, ftype, weight=None):
    if isinstance(cutoff, list):
        bands = np.array([0., cutoff[0] / rate, cutoff[1] / rate, .5])
        return signal.remez(order, bands, [1, 0] if ftype in (True, "lowpass") else [0, 1], weight=weight)
    return signal.firwin(order, cutoff, fs=rate, pass_zero=ftype, window="hamming")


def iir_design(rate, order, cutoff, ftype):
    return signal.cheby1(order, 1.0, cutoff / (rate * .5), btype=ftype, output="ba")


class FIR:
    def __init__(self, taps, B, F):
        self.t, self.B, self.F = taps, B, F
        self.x = [0] * len(taps)

    def push(self, s):
        self.x = [s] + self.x[:-1]

    def exact(self):
        return sum((x * t) >> self.F for x, t in zip(self.x, self.t))

    def out(self):
        return wrap(self.exact(), self.B)


class IIR:
    def __init__(self, b, a, B, F):
        self.b, self.a, self.B, self.F = b, a[1:], B, F
        self.x, self.y = [0] * len(b), [0] * (len(b) - 1)

    def push(self, s):
        o = self.out()
        self.x = [s] + self.x[:-1]
        self.y = [o] + self.y[:-1]

    def out(self):
        F = self.F
        return wrap(sum((x * t) >> F for x, t in zip(self.x, self.b)) - sum((y * t) >> F for y, t in zip(self.y, self.a)), self.B)


class Chain:
    def __init__(self, stages):
        self.s = stages

    def push(self, v):
        ins = [v] + [f.out() for f in self.s[:-1]]
        for f, i in zip(self.s, ins):
            f.push(i)

    def out(self):
        return self.s[-1].out()


def stimulus(rng, B, n):
    """Samples: noise, full scale square waves and constants, impulses, silence."""
    top = 2 ** (B - 1) - 1
    out = []
    while len(out) < n:
        k = rng.randint(5, 40)
        kind = rng.choice(["noise", "noise", "step", "impulse", "zero", "small", "square", "extreme"])
        if kind == "noise":
            out += [rng.randint(-top - 1, top) for _ in range(k)]
        elif kind == "step":
            out += [rng.choice([top, -top - 1, top // 2])] * k
        elif kind == "impulse":
            out += [rng.choice([top, -top - 1])] + [0] * k
        elif kind == "zero":
            out += [0] * k
        elif kind == "small":
            out += [rng.randint(-3, 3) for _ in range(k)]
        elif kind == "extreme":
            out += [rng.choice([top, -top - 1]) for _ in range(k)]
        else:
            p = rng.randint(1, 6)
            out += [top if (i // p) & 1 else -top for i in range(k)]
    return out[:n]
