"""C37: filter bank - a chain of identical filters."""
from ..bench import Bench
from . import dspref as R

RULE = ("A case is a filter bank (structure, number of instances, filter parameters) under random samples and enables, compared bit for bit with the "
        "chained filter models. A situation is (configuration, output octave).")
FLOORS = {"outputs": 8000, "fir": 2000, "iir": 2000}


def cases(tier, rng):
    out = []
    for i in range(40 if tier == "quick" else 400):
        B = rng.choice([8, 16, 18, 18])
        rate = rng.choice([48000, 96000, 336000, 11025])
        st = "fir" if i % 2 else "iir"
        out.append(dict(B=B, F=B + rng.choice([0, 0, 4]), rate=rate, order=rng.choice([2, 3, 4] if st == "iir" else [2, 5, 12, 24]), structure=st, k=rng.choice([1, 2, 2, 3, 4]),
                        cutoff=int(rate * rng.uniform(.03, .4)), ftype="lowpass" if st == "fir" else rng.choice(["lowpass", "highpass"]), samples=400))
        if i % 6 == 1:
            out[-1].update(order=rng.choice([3, 5, 15]), ftype=rng.choice(["highpass", True, False]))
    for i in range(8 if tier == "quick" else 40):      # long chains, other widths
        st = "fir" if i % 2 else "iir"
        B = rng.choice([12, 20, 24])
        out.append(dict(B=B, F=B + rng.choice([0, 3]), rate=48000, order=rng.choice([2, 3] if st == "iir" else [3, 5, 40]), structure=st, k=rng.choice([5, 6, 7, 9, 12, 17]),
                        cutoff=int(48000 * rng.uniform(.1, .45)), ftype="lowpass", samples=250))
    return out


def model(c, ctx=None):
    if c["structure"] == "fir":
        t, sure = R.quant(R.fir_design(c["rate"], c["order"], c["cutoff"], c["ftype"]), c["F"])
        return R.Chain([R.FIR(t, c["B"], c["F"]) for _ in range(c["k"])]), sure
    bi, ai = R.iir_design(c["rate"], c["order"], c["cutoff"], c["ftype"])
    bq, s1 = R.quant(bi, c["F"])
    aq, s2 = R.quant(ai[1:], c["F"])
    return R.Chain([R.IIR(bq, [0] + aq, c["B"], c["F"]) for _ in range(c["k"])]), s1 and s2


def run_case(c, ctx):
    import contextlib, io
    from amlib.dsp.filterbank import Filterbank
    rng = ctx.rng
    ref, sure = model(c)
    if not sure:
        return
    with contextlib.redirect_stdout(io.StringIO()):
        dut = Filterbank(c["k"], c["rate"], bitwidth=c["B"], fraction_width=c["F"], cutoff_freq=c["cutoff"], filter_order=c["order"], filter_structure=c["structure"],
                         filter_type=c["ftype"], verbose=rng.random() < .5)
        b = Bench(dut)
    EN, SI, SO = b.port(dut.enable_in), b.port(dut.signal_in), b.port(dut.signal_out)
    for k, s in enumerate(R.stimulus(rng, c["B"], c["samples"])):
        if k % 50 == 0:
            p = rng.choice([1, .7, .3])
        for g in range(0 if p == 1 else min(6, int(rng.expovariate(p)))):
            SI.set(rng.getrandbits(c["B"]))
            EN.set(0)
            b.settle()
            ctx.eq(SO.get(), ref.out(), "output", f"output while disabled, after {k} samples")
            b.tick()
        SI.set(s)
        EN.set(1)
        b.settle()
        ctx.eq(SO.get(), ref.out(), "output", f"output after {k} samples")
        ctx.ev("outputs")
        ctx.ev(c["structure"])
        ctx.seen(c["structure"], c["k"], c["B"], c["order"], abs(SO.get()).bit_length())
        b.tick()
        ref.push(s)
    ctx.sample = dict(case=c)
