"""C25: dividing counter."""
from ..bench import Bench
RULE = ("A case is a counter (divisor, width) with random activity and resets over several wrap-arounds compared with arithmetic every "
        "cycle. A situation is (divisor, width, count, active, reset).")
FLOORS = {"counts": 20000, "divided": 3000, "wraps": 60, "resets": 200}


def cases(tier, rng):
    out = [dict(div=rng.choice([1, 2, 3, 4, 5, 7, 8, rng.randint(2, 20)]), width=rng.choice([3, 4, 5, 5, 6, 8]), cycles=1500) for _ in range(70 if tier == "quick" else 700)]
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(div=d, width=w, cycles=4 * d + 1500) for d, w in ((64, 8), (100, 12), (255, 16), (256, 9), (257, 10), (1000, 16), (2100, 20), (3, 20)) for _ in range(m)]
    out += [dict(div=d, width=w, cycles=2 * d * 2 ** w + 900, pr=.0001) for d, w in ((1, 12), (2, 13), (7, 11)) for _ in range(m)]
    out += [dict(div=d, width=w, cycles=900, pr=.002) for d, w in ((9, 3), (20, 3), (8, 3), (17, 4), (33, 5), (100, 6), (3, 1), (2, 1), (5, 2), (4, 2)) for _ in range(m)]   # divisors beyond the wrap
    return out


def run_case(c, ctx):
    from amlib.utils import DividingCounter
    rng = ctx.rng
    w, div = c["width"], c["div"]
    d = DividingCounter(div, w)
    b = Bench(d)
    R, A, C, D, V = (b.port(x) for x in (d.reset_in, d.active_in, d.counter_out, d.divided_counter_out, d.dividable_out))
    count = divided = 0
    fresh = True           # since power-up or reset no active cycle: the divisible flag is not judged
    pr = c.get("pr", rng.choice([0, 0, .002, .02]))
    pa = rng.choice([.3, .8, 1]) if "pr" not in c else .95
    flag = 0
    for t in range(c["cycles"]):
        r, a = int(rng.random() < pr), int(rng.random() < pa)
        R.set(r)
        A.set(a)
        b.tick()
        if r:
            count = divided = 0
            fresh = True
            ctx.ev("resets")
        elif a:
            count = (count + 1) % (1 << w)
            wrap = count == 0
            flag = int(count % div == 0 and not wrap or wrap and (1 << w) % div == 0)
            divided = (divided + flag) % (1 << w)
            fresh = False
            ctx.ev("counts")
            ctx.ev("wraps", wrap)
            ctx.ev("divided", flag)
        ctx.eq(C.get(), count, "count", "counter")
        ctx.eq(D.get(), divided, "divided", f"divided counter at count {count}, divisor {div}")
        if not fresh:
            ctx.eq(V.get(), flag, "dividable", f"divisible flag at count {count}, divisor {div}")
        ctx.seen(div, w, count, r, a)
    ctx.sample = dict(case=c, count=count, divided=divided)
