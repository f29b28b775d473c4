"""C35: half band decimator - every second sample strobes an output that is the half band response to the samples so far."""
from ..bench import Bench
from scipy import signal
from . import dspref as R

RULE = ("A case is a half band filter (sample width, fraction width, order, parallel or sequential arithmetic) fed with noise, steps, impulses and extremes at "
        "random intervals; every strobe must come with the fixed point response (computed from an independent design) and exactly once per two samples. A "
        "situation is (configuration, output octave).")
FLOORS = {"outputs": 4000, "sequential": 800, "strobes": 4000}
ASSUMPTIONS = ["the sequential variant is given at least order/4 + 6 cycles between samples; its output lags by one sample"]


def cases(tier, rng):
    out = []
    for i in range(110 if tier == "quick" else 1000):
        B = rng.choice([8, 12, 16, 18, 18, 24])
        out.append(dict(B=B, F=B + rng.choice([0, 0, 1, 2, 6]), order=rng.choice([7, 11, 15, 19, 19, 23, 31, 43]), seq=i % 3 == 0, samples=400))
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(B=B, F=B, order=o, seq=seq, samples=200) for B, o, seq in ((32, 19, False), (18, 63, False), (24, 83, False), (18, 63, True), (24, 71, True), (18, 131, True)) for _ in range(m)]
    return out


def run_case(c, ctx):
    import contextlib, io
    from amlib.dsp import FixedPointHBFilter
    rng = ctx.rng
    B, F, n = c["B"], c["F"], c["order"]
    ideal = signal.remez(n, [0.0, 0.22, 0.28, 0.5], [1, 0], weight=[1, 1])
    taps, sure = R.quant(ideal, F)
    kw = dict(mac_loop=True) if c["seq"] else {}
    with contextlib.redirect_stdout(io.StringIO()):
        dut = FixedPointHBFilter(bitwidth=B, fraction_width=F, filter_order=n, verbose=rng.random() < .5, **kw)
        b = Bench(dut)
    ST, SI, SO, OS = b.port(dut.strobe_in), b.port(dut.signal_in), b.port(dut.signal_out), b.port(dut.strobe_out)
    x = [0] * n

    def response():
        acc = x[n // 2] >> 1
        for i in range(0, n // 2, 2):
            acc += ((x[i] + x[n - 1 - i]) * taps[i]) >> F
        return R.wrap(acc, B), sum(float(t) * v for t, v in zip(ideal, x))
    prev = (0, 0.0)
    count = 0
    busy = n // 4 + 6
    for k, s in enumerate(R.stimulus(rng, B, c["samples"])):
        if k % 40 == 0:
            p = rng.choice([1, .5, .1])
        gap = 0 if p == 1 else min(20, int(rng.expovariate(p)))
        gap += busy if c["seq"] else 0
        ST.set(1)
        SI.set(s)
        b.tick()
        prev = response()
        x = [s] + x[:-1]
        count += 1
        cur = response()
        for g in range(gap + 1):
            last = g == gap
            ST.set(0)
            SI.set(rng.getrandbits(B))
            b.settle()
            strobe = OS.get()
            ctx.eq(strobe, int(count % 2 == 0 and g == 0), "strobe", f"output strobe {g} cycles after sample {count}")
            want, idl = prev if c["seq"] and g < busy - 1 else cur
            if strobe or not c["seq"] or g >= busy - 1:
                if sure:
                    ctx.eq(SO.get(), want, "output", f"output {g} cycles after sample {count}", taps=taps)
                tol = n + 2 + max(map(abs, x)) * 2e-2
                if abs(idl) + tol < 2 ** (B - 1):           # no wrap near the ends of the range
                    ctx.check(abs(SO.get() - idl) <= tol, "response", f"output {SO.get()}, the ideal filter gives {idl:.1f}")
                ctx.ev("outputs")
                if c["seq"]:
                    ctx.ev("sequential")
                ctx.seen(B, F, n, c["seq"], abs(SO.get()).bit_length())
            ctx.ev("strobes", strobe)
            if not last:
                b.tick()
        # the next sample is strobed in this very cycle
    ctx.sample = dict(case=c, taps=taps[:8])
