"""C33: FIR filter - the output is the convolution of the accepted samples with the designed response."""
from ..bench import Bench
from . import dspref as R

RULE = ("A case is a FIR filter (sample width, fraction width, order, cutoff or band edges, low or high pass, parallel or sequential arithmetic) fed with "
        "noise, steps, impulses and extremes under random enable patterns; every output is compared bit for bit with a fixed point convolution using an "
        "independent design of the response, and within rounding of the ideal one. A situation is (configuration, output octave).")
FLOORS = {"outputs": 15000, "sequential": 1500, "disabled_cycles": 3000, "bands": 3}
ASSUMPTIONS = ["the sequential variant is given at least order + 4 cycles between samples"]


def cases(tier, rng):
    out = []
    for i in range(60 if tier == "quick" else 600):
        B = rng.choice([8, 12, 16, 18, 18, 24])
        rate = rng.choice([48000, 96000, 336000, 336000, 1000000, 44100, 11025, 7999])
        seq = i % 3 == 0
        order = rng.choice([2, 3, 5, 8, 16, 24, 24, 31]) if not seq else rng.choice([1, 2, 3, 7, 8, 16, 24])
        c = dict(B=B, F=B + rng.choice([0, 0, 1, 4, 6]), rate=rate, order=order, seq=seq, weight=None, cutoff=int(rate * rng.uniform(.02, .45)), ftype="lowpass",
                 samples=500 if not seq else 150)
        r = rng.random()
        if r < .25 and order > 2:
            lo = rng.uniform(.05, .3)
            c["cutoff"] = [int(rate * lo), int(rate * min(.47, lo + rng.uniform(.08, .15)))]
            c["order"] = rng.choice([15, 21, 25, 31])
            c["ftype"] = rng.choice(["lowpass", "highpass"])
            c["weight"] = rng.choice([None, [1, 1], [1, 5]])
        elif r < .45:
            c["ftype"] = "highpass"
            c["order"] = rng.choice([3, 5, 15, 25])
        if rng.random() < .25:
            c["ftype"] = c["ftype"] == "lowpass"      # pass or stop the constant part
        out.append(c)
    m = 1 if tier == "quick" else 6           # large configurations
    for o, rate, seq in ((48, 48000, False), (63, 96000, False), (100, 96000, False), (40, 48000, True), (70, 48000, True), (140, 48000, True)):
        out += [dict(B=rng.choice([16, 24, 32]), F=32, rate=rate, order=o, seq=seq, weight=None, cutoff=int(rate * .2), ftype="lowpass", samples=150) for _ in range(m)]
    return out


def run_case(c, ctx):
    import contextlib, io
    from amlib.dsp import FixedPointFIRFilter
    rng = ctx.rng
    B, F = c["B"], c["F"]
    cut = c["cutoff"]
    try:
        ideal = R.fir_design(c["rate"], c["order"], cut, c["ftype"], c["weight"])
    except Exception:
        return                                   # no such filter exists
    kw = dict(samplerate=c["rate"], bitwidth=B, fraction_width=F, cutoff_freq=cut, filter_order=c["order"], filter_type=c["ftype"])
    if c["seq"]:
        kw["mac_loop"] = True
    if c["weight"]:
        kw["weight"] = c["weight"]
    with contextlib.redirect_stdout(io.StringIO()):
        dut = FixedPointFIRFilter(verbose=rng.random() < .5, **kw)
        b = Bench(dut)
    EN, SI, SO = b.port(dut.enable_in), b.port(dut.signal_in), b.port(dut.signal_out)
    taps, sure = R.quant(ideal, F)
    ref = R.FIR(taps, B, F)
    n = len(taps)
    hist = [0] * n
    if isinstance(cut, list):
        ctx.ev("bands")

    def judge(what):
        got = SO.get()
        if sure:
            ctx.eq(got, ref.out(), "output", what, taps=taps)
        want = sum(float(t) * x for t, x in zip(ideal, hist))
        if abs(want) + 2 * n < 2 ** (B - 1):
            ctx.check(want - 2 * n - 1 <= got <= want + n + 1, "response", f"{what}: got {got}, the ideal filter gives {want:.1f}")
            ctx.ev("ideal")
        ctx.ev("outputs")
        if c["seq"]:
            ctx.ev("sequential")
        ctx.seen(B, F, c["order"], c["ftype"], str(cut), c["seq"], abs(got).bit_length())
    p = 1
    for k, s in enumerate(R.stimulus(rng, B, c["samples"])):
        if k % 50 == 0:
            p = rng.choice([1, .5, .1])
        # idle cycles with garbage at the input
        gap = 0 if p == 1 else min(20, int(rng.expovariate(p)))
        if c["seq"]:
            gap += n + 4
        for g in range(gap):
            SI.set(rng.getrandbits(B))
            EN.set(0)
            b.settle()
            if not c["seq"] or g >= n + 3:
                judge(f"output while disabled, after {k} samples")
            ctx.ev("disabled_cycles")
            b.tick()
        SI.set(s)
        EN.set(1)
        b.settle()
        judge(f"output after {k} samples")
        b.tick()
        ref.push(s)
        hist = [s] + hist[:-1]
    ctx.sample = dict(case=c, taps=taps[:8])
