"""C38: FFT - every started transform outputs the bins of the windowed input, in order, once."""
from ..bench import Bench
import numpy as np
import math

RULE = ("A case is an FFT (points, width) used for several transforms (tones on and off bin, impulses, noise, steps, full scale) with the default window and with loaded "
        "real or complex windows, random sample intervals and random gaps; the output bins are compared with a floating point DFT of the windowed samples. "
        "A situation is (points, width, stimulus, window, transform number).")
FLOORS = {"ignored_strobes": 20000, "bins": 4000, "transforms": 100, "windows": 30}
ASSUMPTIONS = ["samples and window coefficients are strobed at least four cycles apart", "sample magnitudes stay within full scale"]


def cases(tier, rng):
    out = [dict(pts=1024, width=24, runs=1, limit=400)]
    for i in range(90 if tier == "quick" else 900):
        pts = rng.choice([2, 4, 4, 8, 16, 16, 32, 32, 64])
        if i % 20 == 0:
            pts = 256 if tier == "thorough" else 128
        out.append(dict(pts=pts, width=rng.choice([8, 12, 16, 18, 24]), runs=4 if pts < 64 else 2, limit=400))
    m = 1 if tier == "quick" else 8           # long histories
    out += [dict(pts=4, width=rng.choice([8, 16]), runs=60, limit=400) for _ in range(2 * m)]
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(pts=p, width=rng.choice([16, 18]), runs=1, limit=400) for p in ((512, 256) if tier == "quick" else (1024, 512, 256)) for _ in range(m)]
    return out


def run_case(c, ctx):
    import contextlib, io
    from amlib.dsp.fixedpointfft import FixedPointFFT
    rng = ctx.rng
    n, B = c["pts"], c["width"]
    with contextlib.redirect_stdout(io.StringIO()):
        dut = FixedPointFFT(bitwidth=B, pts=n, verbose=rng.random() < .5)
        b = Bench(dut)
    P = {k: b.port(getattr(dut, k)) for k in ("start", "done", "in_i", "in_q", "out_real", "out_imag", "strobe_in", "strobe_out", "wf_start", "wf_strobe", "wf_real", "wf_imag")}
    one = 2 ** (B - 1)
    k = np.arange(n)
    win = (0.35875 - 0.48829 * np.cos(k * 2 * np.pi / n) + 0.14128 * np.cos(k * 4 * np.pi / n) - 0.01168 * np.cos(k * 6 * np.pi / n)) + 0j
    stages = int(math.log2(n))
    tol = 2.2 + .35 * stages
    wname = "default"
    b.settle()
    ctx.eq(P["done"].get(), 1, "done", "done after reset")

    pn = rng.choice([0, 0, .1, .5])          # strobes at times when they have no effect

    def noise(samples=False, coefficients=False, starts=False):
        for on, names in ((samples, ["strobe_in"]), (coefficients, ["wf_strobe"]), (starts, ["start", "wf_start"])):
            for k in names:
                P[k].set(int(on and rng.random() < pn))
                ctx.ev("ignored_strobes", P[k].get())

    def quiet(cycles, **kw):
        for _ in range(cycles):
            noise(**kw)
            P["in_i"].set(rng.getrandbits(B))
            P["in_q"].set(rng.getrandbits(B))
            P["wf_real"].set(rng.getrandbits(B))
            P["wf_imag"].set(rng.getrandbits(B))
            b.settle()
            ctx.eq(P["strobe_out"].get(), 0, "strobe", "output strobe outside of the output phase")
            b.tick()
    for run in range(c["runs"]):
        if rng.random() < .5 or run == 1:
            wname = rng.choice(["rect", "ramp", "hann", "complex", "random", "asym"])
            w = {"rect": np.ones(n) * (1 - 1 / one), "ramp": (k + 1) / n * .99, "hann": .5 - .5 * np.cos(2 * np.pi * k / n),
                 "complex": .7 * np.exp(2j * np.pi * 1 * k / n), "random": np.array([rng.uniform(-.9, .9) for _ in range(n)]),
                 "asym": np.array([.9 if i < n // 4 else .1 for i in range(n)])}[wname] + 0j
            wi = [(int(x.real * one), int(x.imag * one)) for x in w]
            win = np.array([complex(p, q) / one for p, q in wi])
            P["wf_start"].set(1)
            b.tick()
            P["wf_start"].set(0)
            quiet(3, samples=True, starts=True)
            gap = rng.choice([4, 4, 7])
            n_left = n
            for p, q in wi:
                b.settle()
                ctx.eq(P["done"].get(), 0, "done", "done while loading the window")
                P["wf_real"].set(p)
                P["wf_imag"].set(q)
                noise(samples=True, starts=True)
                P["wf_strobe"].set(1)
                b.tick()
                P["wf_strobe"].set(0)
                quiet(gap - 1, samples=True, starts=n_left > 1)
                n_left -= 1
            quiet(6)
            ctx.eq(P["done"].get(), 1, "done", "done after loading the window")
            ctx.ev("windows")
        kind = rng.choice(["tone", "offbin", "negtone", "impulse", "noise", "dc", "real", "two"])
        amp = .95 * one / (1 if wname in ("default",) else 1)
        f = rng.randrange(n)
        if kind in ("tone", "offbin", "negtone"):
            fr = f + (rng.random() if kind == "offbin" else 0)
            x = amp * np.exp((-2j if kind == "negtone" else 2j) * np.pi * fr * k / n)
        elif kind == "impulse":
            x = np.zeros(n, complex)
            x[rng.randrange(n)] = amp * np.exp(1j * rng.random() * 6)
        elif kind == "noise":
            x = np.array([complex(rng.uniform(-1, 1), rng.uniform(-1, 1)) * amp * .7 for _ in range(n)])
        elif kind == "dc":
            x = np.full(n, amp * rng.choice([1, -1, 1j, -1j]))
        elif kind == "real":
            x = amp * np.cos(2 * np.pi * f * k / n) + 0j
        else:
            x = amp / 2 * (np.exp(2j * np.pi * f * k / n) + np.exp(2j * np.pi * rng.randrange(n) * k / n))
        xi = [(int(v.real), int(v.imag)) for v in x]
        P["start"].set(1)
        b.tick()
        P["start"].set(0)
        quiet(3, coefficients=True, starts=True)
        gap = rng.choice([4, 4, 6, 9])
        for p, q in xi:
            b.settle()
            ctx.eq(P["done"].get(), 0, "done", "done while samples are being taken")
            P["in_i"].set(p)
            P["in_q"].set(q)
            noise(coefficients=True, starts=True)
            P["strobe_in"].set(1)
            b.tick()
            P["strobe_in"].set(0)
            quiet(gap - 1, coefficients=True, starts=True)
        got = []
        limit = n * stages * 20 + n * 10 + 200
        for t in range(limit):
            calm = n > 500 and t % 16          # large transforms: noise in some cycles only
            if calm == 1:
                noise()
            if not calm:
                P["in_i"].set(rng.getrandbits(B))
            b.settle()
            if not calm and not P["done"].get():
                noise(samples=True, coefficients=True, starts=True)
                P["wf_real"].set(rng.getrandbits(B))
                b.settle()
            if P["strobe_out"].get():
                got.append(complex(P["out_real"].get(), P["out_imag"].get()))
                ctx.check(len(got) <= n, "strobe", f"more than {n} output strobes")
            d = P["done"].get()
            if d:
                noise()
            b.tick()
            if d:
                break
        else:
            ctx.fail("done", f"transform of {n} points not done after {limit} cycles")
        ctx.eq(len(got), n, "strobe", f"output strobes of a {n} point transform")
        y = np.array([complex(p, q) for p, q in xi]) * win
        want = np.fft.fft(y) / n
        g = np.array(got)
        err = max(np.abs((g - want).real).max(), np.abs((g - want).imag).max())
        bad = int(np.argmax(np.abs(g - want)))
        ctx.check(err <= tol, "bins", f"{n} point transform of {kind} with {wname} window: bin {bad} is {g[bad]}, expected {want[bad]:.1f} (worst error {err:.1f})", got=got[:32])
        rms = float(np.sqrt((np.abs(g - want) ** 2).mean()))
        ctx.check(rms <= 1.8, "bins", f"{n} point transform of {kind} with {wname} window: the errors of the bins are {rms:.2f} rms, more than rounding", got=got[:32])
        ctx.ev("bins", n)
        ctx.ev("transforms")
        ctx.seen(n, B, kind, wname, run)
        quiet(rng.choice([0, 0, 3, 20]), samples=True, coefficients=True)
        noise()
    ctx.sample = dict(case=c, worst_error=float(err))
