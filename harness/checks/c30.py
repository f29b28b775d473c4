"""C30: linear feedback shift register."""
from itertools import islice

from ..bench import Bench
RULE = ("Random invertible tap sets, degrees and seeds; the hardware sequence, the software sequence and an independent recurrence are "
        "compared; known primitive polynomials must give the full period. A situation is (degree, taps, position).")
FLOORS = {"steps": 8000, "full_periods": 6}
PRIM = {3: (3, 2), 4: (4, 3), 5: (5, 3), 7: (7, 6), 8: (8, 6, 5, 4), 9: (9, 5), 10: (10, 7), 11: (11, 9), 16: (16, 14, 13, 11), 18: (18, 11), 20: (20, 17)}


def cases(tier, rng):
    out = [dict(degree=d, taps=list(t), reset=1 if d % 2 else rng.randint(1, (1 << d) - 1), full=True) for d, t in PRIM.items() if d != 16 or tier != "quick"]
    for _ in range(60 if tier == "quick" else 500):
        d = rng.choice([2, 3, 4, 5, 6, 8, 12, 16, 17, 24, 31, 32, 33, 40, 48, 64, 65, 100])
        out.append(dict(degree=d, taps=[d] + sorted(rng.sample(range(1, d), rng.randint(0, min(4, d - 1)))), reset=rng.randint(1, (1 << d) - 1), full=False, en=bool(rng.getrandbits(1))))
    for d in (20, 40, 64, 100):
        out.append(dict(degree=d, taps=[d] + sorted(rng.sample(range(1, d), min(d - 1, rng.randint(17, 60)))), reset=rng.randint(1, (1 << d) - 1), full=False, en=False))
    return out


def run_case(c, ctx):
    from amlib.utils import LinearFeedbackShiftRegister
    from amaranth import Signal
    from amaranth.hdl.xfrm import EnableInserter, ResetInserter
    rng = ctx.rng
    n, taps, mask = c["degree"], c["taps"], (1 << c["degree"]) - 1
    kw = {} if c["reset"] == 1 else dict(reset=c["reset"])
    d = LinearFeedbackShiftRegister(n, taps, **kw) if c["reset"] == 1 else LinearFeedbackShiftRegister(degree=n, taps=tuple(taps), **kw)

    def nxt(v):
        return (v << 1) & mask | (sum(v >> (t - 1) & 1 for t in taps) & 1)
    seq = [c["reset"]]
    for _ in range(mask + 1 if n <= 16 or c["full"] else 700):
        seq.append(nxt(seq[-1]))
    period = seq.index(c["reset"], 1) if c["reset"] in seq[1:] else None
    if c["full"]:
        ctx.eq(period, mask, "period", "period of the recurrence")
        soft = list(islice(d.generate(), (mask if c['full'] else period) + 3))
        ctx.eq((len(soft), len(set(soft))), (mask, mask), "period", f"distinct values generated for degree {n}")
        ctx.ev("full_periods")
    if period is not None:
        soft = list(islice(d.generate(), period + 3))
        ctx.eq(soft, seq[:period], "generate", "values from the software generator")
    else:
        soft = list(islice(d.generate(), len(seq)))
        ctx.eq(soft, seq, "generate", "first values from the software generator")
    en, rst = Signal(), Signal()
    mod = ResetInserter(rst)(EnableInserter(en)(d)) if c.get("en") else d
    b = Bench(mod)
    V = b.port(d.value)
    v = c["reset"]
    for t in range(min(len(seq), 400 if not c["full"] else 2100)):
        b.settle()
        ctx.eq(V.get(), v, "value", f"register value after {t} steps, taps {taps}")
        e = 1
        if c.get("en"):
            e, r = int(rng.random() < .7), int(rng.random() < .02)
            b.set(en, e)
            b.set(rst, r)
        b.tick()
        v = nxt(v) if e else v
        if c.get("en") and r:
            v = c["reset"]
        ctx.ev("steps")
        ctx.seen(n, tuple(taps), t)
    try:
        LinearFeedbackShiftRegister(4, [4, 3], reset=0)
    except AssertionError:
        pass
    else:
        ctx.fail("zero", "all-zero seed accepted")
