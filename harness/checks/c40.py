"""C40: stereo convolution - every sample pair yields exactly one output pair, the exact convolution with the impulse response."""
from ..bench import Bench
from . import dspref as R

RULE = ("A case is a convolver (mode, taps, parallel slices, sample width) fed with sample pairs (noise, steps, impulses, extremes; either channel first) under random flow "
        "control; every output is compared with the exact convolution. A situation is (mode, taps, slices, width, output octave).")
FLOORS = {"outputs": 6000, "held": 2000, "negative_taps": 30, "pairs": 3000, "sliced": 15}


def cases(tier, rng):
    out = []
    for i in range(120 if tier == "quick" else 1200):
        slices = rng.choice([1, 1, 2, 3, 4, 8])
        spp = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16])
        out.append(dict(mode=["CROSSFEED", "STEREO", "MONO"][i % 3], slices=slices, taps=slices * spp, B=rng.choice([8, 16, 24, 24]), pairs=rng.choice([40, 90]),
                        tapkind=rng.choice(["noise", "small", "extreme", "impulse"]), default_mode=rng.random() < .5))
    m = 1 if tier == "quick" else 8           # long histories
    out += [dict(mode=["CROSSFEED", "STEREO", "MONO"][i % 3], slices=rng.choice([1, 2]), taps=4, B=rng.choice([8, 24]), pairs=400, tapkind="noise", default_mode=False) for i in range(3 * m)]
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(mode=rng.choice(["CROSSFEED", "STEREO", "MONO"]), slices=s, taps=s * p, B=24, pairs=k, tapkind="noise", default_mode=False) for s, p, k in ((1, 100, 160), (2, 130, 300), (16, 4, 100), (1, 260, 300), (4, 64, 300)) for _ in range(m)]
    return out


def run_case(c, ctx):
    import contextlib, io
    import numpy as np
    from amlib.dsp.convolution.mac import StereoConvolutionMAC, ConvolutionMode
    rng = ctx.rng
    B, n = c["B"], c["taps"]
    top = 2 ** (B - 1) - 1
    taps = np.zeros((n, 2), dtype=np.int32)
    for i in range(n):
        for ch in (0, 1):
            taps[i, ch] = {"noise": lambda: rng.randint(-top - 1, top), "small": lambda: rng.randint(-3, 3), "extreme": lambda: rng.choice([top, -top - 1]),
                           "impulse": lambda: top if i == n * 3 // 4 else 0}[c["tapkind"]]()
    if (taps < 0).any():
        ctx.ev("negative_taps")
    if c["slices"] > 1:
        ctx.ev("sliced")
    rate = 48000
    kw = {} if c["mode"] == "MONO" and c["default_mode"] else dict(convolutionMode=getattr(ConvolutionMode, c["mode"]))
    with contextlib.redirect_stdout(io.StringIO()):
        # the clock leaves exactly taps/slices cycles per sample
        dut = StereoConvolutionMAC(taps=taps, samplerate=rate, clockfrequency=rate * (n // c["slices"]), bitwidth=B, debug=rng.random() < .3, **kw)
        b = Bench(dut)
    I = {k: b.port(dut.signal_in[k]) for k in ("valid", "ready", "payload", "first", "last")}
    O = {k: b.port(dut.signal_out[k]) for k in ("valid", "ready", "payload", "first", "last")}
    L, Rr = R.stimulus(rng, B, c["pairs"]), R.stimulus(rng, B, c["pairs"])
    t1 = [int(x) for x in taps[:, 0]]
    t2 = [int(x) for x in taps[:, 1]]

    def conv(x, t, k):
        return sum(x[k - j] * t[j] for j in range(min(n, k + 1)))
    exp = []
    for k in range(c["pairs"]):
        if c["mode"] == "CROSSFEED":
            l, r = conv(L, t1, k) + conv(Rr, t2, k), conv(Rr, t1, k) + conv(L, t2, k)
        elif c["mode"] == "STEREO":
            l, r = conv(L, t1, k), conv(Rr, t2, k)
        else:
            l, r = conv(L, t1, k), conv(Rr, t1, k)
        exp += [(R.wrap(l >> B, B), 1, 0), (R.wrap(r >> B, B), 0, 1)]
    words = []
    for k in range(c["pairs"]):
        pair = [(L[k], 1, 0), (Rr[k], 0, 1)]
        if rng.random() < .15:
            pair.reverse()
        words += pair
    sent = got = idle = t = 0
    while got < len(exp):
        if t % 200 == 0:
            pi, po = rng.choice([(1, 1), (.3, 1), (1, .3), (.5, .5), (1, .05)])
        t += 1
        v = sent < len(words) and (rng.random() < pi or I["valid"].get())
        if v:
            s, f, l = words[sent]
        else:
            s, f, l = rng.getrandbits(B), rng.getrandbits(1), rng.getrandbits(1)
        I["valid"].set(int(v))
        I["payload"].set(s)
        I["first"].set(f)
        I["last"].set(l)
        rdy = int(rng.random() < po)
        O["ready"].set(rdy)
        b.settle()
        took = v and I["ready"].get()
        if O["valid"].get():
            idle = 0
            ctx.check(got // 2 < sent // 2, "extra", f"output {got} after only {sent} input samples")
            want = exp[got]
            ctx.eq(R.wrap(O["payload"].get(), B), want[0], "output", f"output {got % 2} of pair {got // 2} ({c['mode']}, {n} taps in {c['slices']} slices, {B} bits)")
            ctx.eq((O["first"].get(), O["last"].get()), want[1:], "channel", f"(first, last) of output {got}")
            if rdy:
                got += 1
                ctx.ev("outputs")
                ctx.seen(c["mode"], n, c["slices"], B, abs(want[0]).bit_length())
            else:
                ctx.ev("held")
        else:
            idle += 1
            if sent // 2 > got // 2:
                ctx.check(idle < 2 * n + 60, "stuck", f"no output {got} although {sent} samples went in")
        b.tick()
        if took:
            sent += 1
            ctx.ev("pairs", sent & 1)
            I["valid"].set(0)
        ctx.check(t < 200000, "stuck", "input not accepted")
    ctx.eq(sent, len(words), "lost", "input samples taken")
    ctx.sample = dict(case=c)
