"""C29: shift registers."""
from ..bench import Bench
RULE = "Random enables, loads, clears and data on both shift registers of random depth against integer models. A situation is (kind, depth, controls)."
FLOORS = {"shifts": 5000, "loads": 500, "clears": 300}


def cases(tier, rng):
    out = [dict(kind=rng.choice(["in", "out"]), depth=rng.choice([1, 2, 3, 8, 8, 16, 33, rng.randint(1, 64)]), rotate=bool(rng.getrandbits(1)), cycles=500) for _ in range(64 if tier == "quick" else 640)]
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(kind=k, depth=d, rotate=rng.random() < .5, cycles=6 * d) for k in ("in", "out") for d in (65, 100, 128, 256, 300) for _ in range(m)]
    return out


def run_case(c, ctx):
    from amlib.utils import InputShiftRegister, OutputShiftRegister
    rng = ctx.rng
    n = c["depth"]
    mask = (1 << n) - 1
    if c["kind"] == "in":
        d = InputShiftRegister(n)
        b = Bench(d)
        E, I, C, V = (b.port(x) for x in (d.enable_in, d.bit_in, d.clear_in, d.value_out))
        v = 0
        pc = rng.choice([0, .05, .2])
        for t in range(c["cycles"]):
            e, i, cl = rng.getrandbits(1), rng.getrandbits(1), int(rng.random() < pc)
            E.set(e); I.set(i); C.set(cl)
            b.settle()
            ctx.eq(V.get(), v, "value", f"value of a {n} bit input register")
            b.tick()
            if cl:
                v = 0
                ctx.ev("clears")
            elif e:
                v = (v << 1 | i) & mask
                ctx.ev("shifts")
            ctx.seen("in", n, e, i, cl)
        return
    d = OutputShiftRegister(n, rotate=True) if c["rotate"] else OutputShiftRegister(n)
    b = Bench(d)
    E, W, I, O = (b.port(x) for x in (d.enable_in, d.we_in, d.value_in, d.bit_out))
    v = 0
    pw = rng.choice([.02, .1, .4])
    for t in range(c["cycles"]):
        e, w, i = rng.getrandbits(1), int(rng.random() < pw), rng.getrandbits(n)
        E.set(e); W.set(w); I.set(i)
        b.settle()
        ctx.eq(O.get(), v & 1, "bit", f"output bit of a {n} bit register (rotate {c['rotate']})")
        b.tick()
        if w:
            v = i
            ctx.ev("loads")
        elif e:
            v = v >> 1 | ((v & 1) << (n - 1) if c["rotate"] else 0)
            ctx.ev("shifts")
        ctx.seen("out", n, e, w, c["rotate"])
