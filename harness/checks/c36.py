"""C36: CIC decimator - every R-th input strobes an output that is the exact N-fold moving sum, scaled."""
from ..bench import Bench
from math import ceil, log2
from . import dspref as R

RULE = ("A case is a CIC filter (width, stages, decimation) fed with +1/-1 patterns (noise, runs, tones, near full scale) at random intervals; every output "
        "strobe is compared with the exact N-fold moving sum of the inputs. A situation is (configuration, output octave, interval class).")
FLOORS = {"outputs": 3000, "inputs": 40000}
ASSUMPTIONS = ["input values are +1 or -1"]


def cases(tier, rng):
    out = []
    for i in range(110 if tier == "quick" else 1000):
        out.append(dict(width=rng.choice([8, 12, 16, 18, 18, 24]), stages=rng.choice([1, 2, 3, 4, 4, 5, 6]), dec=rng.choice([2, 3, 4, 5, 7, 8, 12, 12, 16, 32])))
        out[-1]["fullscale_pow2"] = False
    out.append(dict(width=8, stages=4, dec=8, fullscale_pow2=True))
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(width=w, stages=s, dec=d, fullscale_pow2=False) for w, s, d in ((24, 3, 64), (16, 4, 100), (32, 2, 128), (18, 8, 6), (24, 1, 300), (16, 1, 1000)) for _ in range(m)]
    # inputs of several bits, where the sums fit into the output width
    out += [dict(width=w, stages=s, dec=d, fullscale_pow2=False, amp=((1 << (w - 1)) - 1) // d ** s) for w, s, d in ((12, 1, 4), (16, 2, 5), (18, 3, 8), (18, 4, 12), (24, 4, 12), (24, 2, 32), (24, 1, 7), (32, 3, 16), (8, 1, 3)) for _ in range(2 * m)]
    return out


def run_case(c, ctx):
    import contextlib, io
    from amlib.dsp import FixedPointCICFilter
    rng = ctx.rng
    B, N, D = c["width"], c["stages"], c["dec"]
    with contextlib.redirect_stdout(io.StringIO()):
        dut = FixedPointCICFilter(bitwidth=B, filter_stage=N, decimation=D, verbose=rng.random() < .5)
        b = Bench(dut)
    ST, SI, SO, OS = b.port(dut.strobe_in), b.port(dut.signal_in), b.port(dut.signal_out), b.port(dut.strobe_out)
    h = [1]
    for _ in range(N):
        h2 = [0] * (len(h) + D - 1)
        for i, v in enumerate(h):
            for j in range(D):
                h2[i + j] += v
        h = h2
    full = D ** N
    need = max(1 + (full - 1).bit_length(), B)
    shift = need - B
    xs = []
    total = D * (60 + 3 * N)
    outs = 0
    since = 0
    # each comb stage is registered at the decimated rate, each integrator at the input rate
    delay = N * D + N - 1
    limit_pos = (1 << (need - 1)) - 1
    k = 0
    pend = []
    mode = "noise"
    gapcycles = 0
    while len(xs) < total:
        if len(xs) % (4 * D) == 0 and gapcycles == 0:
            mode = rng.choice(["noise", "noise", "run", "tone", "full", "full-"])
            run = rng.choice([2, 3, D, D * 2, 5])
            p = rng.choice([1, 1, .5, .1])
        if c["fullscale_pow2"]:
            mode = "full"
        st = gapcycles <= 0
        A = c.get("amp", 1)
        v = rng.choice([1, -1])
        if A > 1:
            v = rng.choice([A, -A, rng.randint(-A, A), rng.randint(-A, A), 0])
        if st:
            n = len(xs)
            if mode == "run" or mode == "tone":
                v = A if (n // run) & 1 else -A
            elif mode == "full":
                v = A if c["fullscale_pow2"] or n % (D * N) else -A
            elif mode == "full-":
                v = -A
            gapcycles = 0 if p == 1 else min(10, int(rng.expovariate(p)))
        else:
            gapcycles -= 1
        ST.set(int(st))
        SI.set(v)
        b.settle()
        since += 1
        if OS.get():
            ctx.check(outs < len(xs) // D, "strobe", f"output strobe {outs + 1} after only {len(xs)} inputs")
            end = (outs + 1) * D - delay           # number of inputs that have gone through the window
            acc = sum(h[j] * xs[end - 1 - j] for j in range(len(h)) if 0 <= end - 1 - j < len(xs))
            want = acc >> shift
            if acc == full and full >> (need - 1) and not c["fullscale_pow2"]:
                want = SO.get()                    # the one value that does not fit (known finding)
            ctx.eq(SO.get(), want, "output", f"output {outs} ({N} stages, decimation {D}, width {B}); exact sum {acc} of at most {full}")
            outs += 1
            since = 0
            ctx.ev("outputs")
            ctx.seen(B, N, D, abs(want).bit_length(), p)
        b.tick()
        if st:
            xs.append(v)
            ctx.ev("inputs")
    for _ in range(6):
        ST.set(0)
        b.settle()
        outs += OS.get()
        b.tick()
    ctx.eq(outs, len(xs) // D, "strobe", f"output strobes for {len(xs)} inputs at decimation {D}")
    ctx.sample = dict(case=c)
