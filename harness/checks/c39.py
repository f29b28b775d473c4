"""C39: fractional resampler - output sample k is filtered upsampled sample k*N, none lost or repeated, whatever the flow control."""
from ..bench import Bench
from . import dspref as R
import math

RULE = ("A case is a resampler (M/N, sample width, filter structure, instances, order, prescale) fed and drained with random flow control (including long stalls and "
        "consumers that wait for valid); the output is compared bit for bit with zero stuffing, the filter chain and decimation. A situation is (configuration, "
        "flow control, output octave).")
FLOORS = {"outputs": 6000, "inputs": 6000, "held": 4000, "stalled_inputs": 2000}


def cases(tier, rng):
    out = []
    for i in range(110 if tier == "quick" else 1000):
        B = rng.choice([16, 16, 8, 12, 24])
        st = "iir" if i % 4 == 0 else "fir"
        out.append(dict(B=B, M=rng.choice([1, 2, 3, 4, 5, 6, 6, 7, 8]), N=rng.choice([1, 2, 3, 5, 6, 7, 7, 8]), structure=st, inst=rng.choice([1, 1, 2, 2, 3, 5]),
                        order=rng.choice([2, 3] if st == "iir" else [6, 12, 24]), rate=rng.choice([56000, 48000, 44100]), prescale=rng.choice([None, 1, 2, 4, 5, 3, 7, 16, 40, 100, 255, 300, 1000, -1, -3]), inputs=1500 if B == 8 else 300))
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(B=16, M=M, N=N, structure="fir", inst=1, order=12, rate=48000, prescale=rng.choice([None, 4]), inputs=80) for M, N in ((16, 15), (20, 50), (64, 3), (147, 160), (160, 147), (300, 7), (6, 300)) for _ in range(m)]
    return out


def run_case(c, ctx):
    import contextlib, io
    from amlib.dsp.resampler import FractionalResampler
    from .c37 import model
    rng = ctx.rng
    B, M, N = c["B"], c["M"], c["N"]
    H = math.ceil(B / 8) * 9
    pre = c["prescale"]
    if pre is None:
        pre = M - 1 if c["structure"] == "iir" else 4
    cutoff = int(c["rate"] * rng.uniform(.2, .45))
    ref, sure = model(dict(structure=c["structure"], rate=c["rate"] * M, order=c["order"], cutoff=cutoff, ftype="lowpass", B=H, F=max(18, H), k=c["inst"]))
    if not sure:
        return
    kw = dict(filter_structure="iir") if c["structure"] == "iir" else {}
    if c["prescale"] is not None:
        kw["prescale"] = c["prescale"]
    with contextlib.redirect_stdout(io.StringIO()):
        dut = FractionalResampler(input_samplerate=c["rate"], upsample_factor=M, downsample_factor=N, filter_instances=c["inst"], filter_order=c["order"], filter_cutoff=cutoff,
                                  bitwidth=B, verbose=False, **kw)
        b = Bench(dut)
    I = {k: b.port(dut.signal_in[k]) for k in ("valid", "ready", "payload")}
    O = {k: b.port(dut.signal_out[k]) for k in ("valid", "ready", "payload")}
    xs = R.stimulus(rng, B, c["inputs"])
    if abs(pre) > 8:
        xs = [x >> max(0, B - H + abs(pre).bit_length() - 1) for x in xs]
    exp = []
    up = 0                # upsampled samples modelled so far
    sent = taken = 0
    cur = None
    idle = 0
    held = None
    waits = rng.random() < .3
    mask = (1 << B) - 1
    t = 0
    pi, po = 1, 1
    rdy = 1
    while taken < len(exp) or sent < len(xs):
        if t % 100 == 0:
            pi, po = rng.choice([(1, 1), (1, .1), (.1, 1), (.5, .5), (1, .02), (.3, .3)])
        t += 1
        if t > 200 * c["inputs"] + 20000:
            ctx.fail("stuck", f"{sent} samples taken, {taken} samples out of {len(exp)} after {t} cycles")
        if cur is None and sent < len(xs) and rng.random() < pi:
            cur = xs[sent]
        I["valid"].set(cur is not None)
        I["payload"].set(cur if cur is not None else rng.getrandbits(B))
        if waits:
            O["ready"].set(0)
            b.settle()
            rdy = int(O["valid"].get() and rng.random() < max(po, .1))
        else:
            rdy = int(rng.random() < po)
        O["ready"].set(rdy)
        b.settle()
        v = O["valid"].get()
        if v:
            got = O["payload"].get() & mask
            ctx.check(taken < len(exp), "extra", f"output sample {taken} while only {sent} samples went in")
            ctx.eq(got, exp[taken], "output", f"output sample {taken} ({M}/{N}, {c['structure']}, {B} bits)")
            if not rdy:
                ctx.ev("held")
            idle = 0
        else:
            ctx.check(held is None, "dropped", f"output sample {taken} withdrawn before it was taken")
            idle = idle + 1 if taken < len(exp) else 0
            if taken < len(exp) and idle > 40 + 4 * M + 4 * N:
                ctx.fail("stuck", f"output sample {taken} of {len(exp)} does not come")
        if v and rdy:
            taken += 1
            held = None
            ctx.ev("outputs")
            ctx.seen(M, N, c["structure"], B, waits, po, abs(R.wrap(got, B)).bit_length())
        elif v:
            held = got
        took = cur is not None and I["ready"].get()
        if cur is not None and not took:
            ctx.ev("stalled_inputs")
        b.tick()
        if took:
            ctx.ev("inputs")
            s = R.wrap(cur * pre, H)
            for k in range(M):
                if up % N == 0:
                    exp.append(ref.out() & mask)
                ref.push(s if k == 0 else 0)
                up += 1
            sent += 1
            cur = None
    for _ in range(10 + 2 * M + 2 * N):
        O["ready"].set(1)
        I["valid"].set(0)
        b.settle()
        ctx.eq(O["valid"].get(), 0, "extra", "output after all samples")
        b.tick()
    ctx.sample = dict(case=c, outputs=taken)
