"""C34: IIR filter - the output follows the recursion of the designed Chebyshev filter."""
from ..bench import Bench
from . import dspref as R

RULE = ("A case is an IIR filter (sample width, fraction width, order, cutoff, low or high pass) fed with noise, steps, impulses and extremes under "
        "random enable patterns; every output is compared bit for bit with the fixed point recursion of an independently designed filter. A situation is "
        "(configuration, output octave).")
FLOORS = {"outputs": 20000, "disabled_cycles": 3000}


def cases(tier, rng):
    out = []
    for i in range(60 if tier == "quick" else 600):
        B = rng.choice([8, 12, 16, 18, 18, 24])
        rate = rng.choice([48000, 96000, 336000, 1000000, 44100, 11025, 7999, rng.randint(1000, 30000)])
        out.append(dict(B=B, F=B + rng.choice([0, 0, 1, 4, 6]), rate=rate, order=rng.choice([1, 2, 2, 3, 4, 5]), cutoff=int(rate * rng.uniform(.02, .45)),
                        ftype=rng.choice(["lowpass", "lowpass", "highpass"]), samples=600))
    for i in range(6 if tier == "quick" else 60):          # odd sample rates
        out.append(dict(B=18, F=rng.choice([24, 30]), rate=2 * rng.randint(100, 800) + 1, order=rng.choice([2, 3]), cutoff=rng.randint(20, 90), ftype=rng.choice(["lowpass", "highpass"]), samples=200))
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(B=B, F=B, rate=96000, order=o, cutoff=int(96000 * rng.uniform(.15, .4)), ftype="lowpass", samples=300) for B, o in ((32, 2), (32, 4), (24, 6)) for _ in range(m)]
    return out


def run_case(c, ctx):
    import contextlib, io
    from amlib.dsp import FixedPointIIRFilter
    rng = ctx.rng
    B, F = c["B"], c["F"]
    bi, ai = R.iir_design(c["rate"], c["order"], c["cutoff"], c["ftype"])
    bq, s1 = R.quant(bi, F)
    aq, s2 = R.quant(ai[1:], F)
    if not (s1 and s2):
        return
    with contextlib.redirect_stdout(io.StringIO()):
        dut = FixedPointIIRFilter(samplerate=c["rate"], bitwidth=B, fraction_width=F, cutoff_freq=c["cutoff"], filter_order=c["order"], filter_type=c["ftype"],
                                  verbose=rng.random() < .5)
        b = Bench(dut)
    EN, SI, SO = b.port(dut.enable_in), b.port(dut.signal_in), b.port(dut.signal_out)
    ref = R.IIR(bq, [0] + aq, B, F)
    for k, s in enumerate(R.stimulus(rng, B, c["samples"])):
        if k % 50 == 0:
            p = rng.choice([1, .5, .1])
        for g in range(0 if p == 1 else min(20, int(rng.expovariate(p)))):
            SI.set(rng.getrandbits(B))
            EN.set(0)
            b.settle()
            ctx.eq(SO.get(), ref.out(), "output", f"output while disabled, after {k} samples")
            ctx.ev("disabled_cycles")
            b.tick()
        SI.set(s)
        EN.set(1)
        b.settle()
        ctx.eq(SO.get(), ref.out(), "output", f"output after {k} samples", b=bq, a=aq)
        ctx.ev("outputs")
        ctx.seen(B, F, c["order"], c["ftype"], c["cutoff"], abs(SO.get()).bit_length())
        b.tick()
        ref.push(s)
    ctx.sample = dict(case=c, b=bq, a=aq)
