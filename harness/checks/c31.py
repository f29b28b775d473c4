"""C31: NRZI encoder."""
from ..bench import Bench
RULE = "Random and patterned bit streams; the line must toggle for every 1 and hold for every 0, and decoding must return the stream. A situation is (line level, last four bits)."
FLOORS = {"bits": 5000}


def cases(tier, rng):
    return [dict(p=rng.choice([.1, .5, .9]), cycles=600) for _ in range(16 if tier == "quick" else 160)]


def run_case(c, ctx):
    from amlib.utils import NRZIEncoder
    rng = ctx.rng
    d = NRZIEncoder()
    b = Bench(d)
    I, O = b.port(d.data_in), b.port(d.nrzi_out)
    line = O.get()
    h = []
    for t in range(c["cycles"]):
        v = int(rng.random() < c["p"])
        I.set(v)
        b.settle()
        ctx.eq(O.get(), line, "hold", "line level between clock edges")
        b.tick()
        line ^= v
        ctx.eq(O.get(), line, "toggle", f"line level after a {v}")
        h.append(v)
        ctx.ev("bits")
        ctx.seen(line, tuple(h[-4:]))
