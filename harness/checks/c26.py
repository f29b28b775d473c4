"""C26: clock divider."""
from ..bench import Bench
RULE = ("A case is a divider (ratio, idle level) with a random enable waveform compared with the ideal clock. A situation is (divisor, "
        "polarity, phase, enable, level).")
FLOORS = {"edges": 5000, "disabled": 3000}


def cases(tier, rng):
    out = [dict(div=rng.choice([2, 4, 6, 8, 10, 12, 32, 2 * rng.randint(1, 40)]), pol=i % 2, cycles=1500) for i in range(60 if tier == "quick" else 600)]
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(div=d, pol=rng.getrandbits(1), cycles=14 * d) for d in (100, 128, 254, 256, 258, 512, 1000, 5000) for _ in range(m)]
    return out


def run_case(c, ctx):
    from amlib.utils import SimpleClockDivider
    rng = ctx.rng
    h = c["div"] // 2
    d = SimpleClockDivider(c["div"], clock_polarity=1) if c["pol"] else SimpleClockDivider(c["div"])
    b = Bench(d)
    E, O = b.port(d.clock_enable_in), b.port(d.clock_out)
    level = c["pol"]
    en = 0
    hold = 0
    for t in range(c["cycles"]):
        hold -= 1
        if hold <= 0:
            en = int(rng.random() < .7)
            hold = rng.choice([1, h, 2 * h, rng.randint(1, 12 * h)])
        E.set(en)
        b.settle()
        ctx.eq(O.get(), level, "clock", f"clock at cycle {t}, divisor {c['div']}")
        b.tick()
        if (t + 1) % h == 0:
            new = 1 - level if en else c["pol"]
            ctx.ev("edges", new != level)
            level = new
        ctx.ev("disabled", 1 - en)
        ctx.seen(c["div"], c["pol"], t % h, en, level)
    for bad in (1, 3, 5, 7, 2 * rng.randint(4, 40) + 1, 2 * rng.randint(40, 600) + 1, 2 * rng.randint(500, 40000) + 1):
        try:
            SimpleClockDivider(bad)
        except AssertionError:
            pass
        else:
            ctx.fail("odd", "odd divisor accepted")
