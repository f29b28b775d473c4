"""C16: LED helpers - seven segment digits and bar graphs."""
from ..bench import Bench

RULE = ("Seven segment: every nibble and random numbers of every width against a segment table drawn from the shapes of the digits. Bar: "
        "every input value of random (minimum, maximum, LEDs) configurations. A situation is (kind, configuration, value).")
FLOORS = {"digits": 500, "bar_values": 3000}
# segments a..g lit for each hexadecimal digit (b and d lower case)
SHAPES = ["abcdef", "bc", "abdeg", "abcdg", "bcfg", "acdfg", "acdefg", "abc", "abcdefg", "abcdfg", "abcefg", "cdefg", "adef", "bcdeg", "adefg", "aefg"]


def seg(n):
    return sum(1 << (6 - "abcdefg".index(x)) for x in SHAPES[n])


def cases(tier, rng):
    k = 1 if tier == "quick" else 8
    out = [dict(kind="nibble")]
    out += [dict(kind="number", width=4 * rng.randint(1, 8), reg=bool(i % 2), n=i) for i in range(16 * k)]
    out.append(dict(kind="number", width=32, reg=False))
    for i in range(40 * k):
        bits = rng.choice([2, 3, 4, 5, 8, 8, 10, 16])
        mn = rng.choice([0, 1, 16, rng.randint(0, 200)])
        rg = rng.choice([max(1, bits - 2), bits - 1, rng.randint(bits - 2, 300), 2 ** rng.randint(4, 8)])
        mx = mn + rg
        if i % 4 == 0:
            mx = max(2 ** (mn + bits).bit_length(), mn + bits)
        out.append(dict(kind="bar", mn=mn, mx=mx, bits=bits))
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(kind="number", width=w, reg=r, n=0) for w in (36, 64, 128) for r in (False, True) for _ in range(m)]
    for bits in (20, 24, 32, 33, 64):
        for rg in (bits + rng.randint(0, 9), rng.randint(300, 1000), rng.randint(5000, 70000)):
            mn = rng.choice([0, 1, 100, rng.randint(0, 3000)])
            out += [dict(kind="bar", mn=mn, mx=mn + rg, bits=bits) for _ in range(m)]
    out += [dict(kind="bar", mn=mn, mx=mx, bits=bits) for mn, mx, bits in ((0, 1 << 16, 8), (0, 100000, 3), (0, (1 << 17) - 1, 16), (1 << 16, 1 << 17, 5)) for _ in range(m)]
    for bits in (3, 5, 8):
        for rg in (rng.randint(1000, 5000), rng.randint(60000, 200000)):
            out += [dict(kind="bar", mn=rng.choice([0, 7, 70000]), mx=70000 + rg, bits=bits) for _ in range(m)]
    return out


def run_case(c, ctx):
    from amlib.io import led
    rng = ctx.rng
    if c["kind"] == "nibble":
        d = led.NibbleToSevenSegmentHex()
        b = Bench(d)
        for n in list(range(16)) * 2:
            b.set(d.nibble_in, n)
            b.settle()
            ctx.eq(b.get(d.seven_segment_out), seg(n), "segments", f"segments for hex digit {n:x}")
            ctx.ev("digits")
            ctx.seen("nibble", n)
        return
    if c["kind"] == "number":
        w = c["width"]
        d = led.NumberToSevenSegmentHex(width=w, register=c["reg"]) if w != 32 or c["reg"] else led.NumberToSevenSegmentHex()
        b = Bench(d)
        prev = 0
        for t in range(60):
            v = rng.choice([0, (1 << w) - 1, rng.getrandbits(w), rng.getrandbits(w), int("0123456789abcdef"[t % 16] * (w // 4), 16)])
            dots = rng.getrandbits(w // 4)
            b.set(d.number_in, v)
            b.set(d.dots_in, dots)
            b.settle()
            if c["reg"]:
                ctx.eq(b.get(d.seven_segment_out), prev, "segments", "registered segments before the clock edge")
                b.tick()
                b.tick()
                b.settle()
            want = 0
            for i in range(w // 4):
                want |= (seg(v >> (4 * i) & 15) | (dots >> i & 1) << 7) << (8 * i)
            prev = want
            ctx.eq(b.get(d.seven_segment_out), want, "segments", f"segments and dots for {v:#x}, dots {dots:#b}")
            ctx.ev("digits", w // 4)
            ctx.seen("number", w, c["reg"], t)
        return
    mn, mx, bits = c["mn"], c["mx"], c["bits"]
    d = led.NumberToBitBar(mn, mx, bits)
    b = Bench(d)
    I, O = b.port(d.value_in), b.port(d.bitbar_out)
    top = 1 << I.width
    ctx.check(top > mx, "bar", f"input of {I.width} bits cannot reach the maximum {mx}")
    step = (mx - mn) // (bits - 2) if bits > 2 else mx - mn
    vals = list(range(top))
    rng.shuffle(vals)
    edges = [k for e in [mn, mx] + [mn + i * step for i in range(1, bits)] for k in (e - 1, e, e + 1) if 0 <= k < top]
    for v in edges + [0, 1, top - 1] + vals[:600]:
        I.set(v)
        b.tick()
        b.settle()
        if v <= mn:
            lit = 0
        elif v >= mx:
            lit = bits
        else:
            lit = min(1 + (v - mn) // step, bits - 1)
        ctx.eq(O.get(), (1 << lit) - 1, "bar", f"bar of {bits} LEDs for value {v} in {mn}..{mx}")
        ctx.ev("bar_values")
        ctx.seen("bar", bits, lit, mx - mn)
    ctx.sample = dict(case=c, step=step)
