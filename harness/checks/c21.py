"""C21: stream serializer - every start emits the presented data words in order, once."""
from ..bench import Bench
from .gens import receive, idle, ports

RULE = ("A case is a serializer (number of words, width, clock domain, length limit or not) started many times with fresh random data, limits, "
        "backpressure and gaps. A situation is (words, width, limit).")
FLOORS = {"ignored_starts": 1000, "words": 4000, "held": 3000, "done": 900, "limited": 150, "zero_length": 20, "idle_cycles": 800}


def cases(tier, rng):
    out = []
    for i in range(300 if tier == "quick" else 5000):
        out.append(dict(length=rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17]), width=rng.choice([8, 8, 16, 1, 32]), mlw=rng.choice([None, None, 3, 4, 8]),
                        domain=rng.choice(["sync", "sync", "usb"]), starts=16))
    for i in range(6 if tier == "quick" else 60):       # marathons
        out.append(dict(length=rng.choice([1, 2, 3]), width=8, mlw=[None, 3][i % 2], domain="sync", starts=700))
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(length=L, width=rng.choice([8, 32, 64]), mlw=mlw, domain="sync", starts=6) for L in (33, 64, 100, 256, 300) for mlw in (None, 10) for _ in range(m)]
    out += [dict(length=L, width=8, mlw=mlw, domain="sync", starts=16) for L in (3, 6) for mlw in (1, 2, 12, 17, 20, 32) for _ in range(m)]
    return out


def run_case(c, ctx):
    from amlib.stream.generator import StreamSerializer
    from amaranth import Module, ClockDomain
    rng = ctx.rng
    W, L, dom = c["width"], c["length"], c["domain"]
    kw = {}
    if W != 8:
        kw["data_width"] = W
    if c["mlw"]:
        kw["max_length_width"] = c["mlw"]
    if dom != "sync":
        kw["domain"] = dom
    dut = StreamSerializer(L, **kw)
    m = Module()
    m.domains += ClockDomain(dom)
    m.submodules.dut = dut
    b = Bench(m, domains=(dom,))
    S = ports(b, dut.stream, 1, W)
    ST, DN = b.port(dut.start), b.port(dut.done)
    D = [b.port(x) for x in dut.data]
    ML = b.port(dut.max_length) if c["mlw"] else None
    MX = (1 << (c["mlw"] or 0)) - 1
    if ML:
        ctx.eq(ML.width, c["mlw"], "limit", "width of the length limit")
    for k in range(c["starts"]):
        idle(ctx, b, dom, S, DN, rng.choice([0, 0, 1, 5]), "idle serializer")
        words = [rng.getrandbits(W) for _ in range(L)]
        for p, w in zip(D, words):
            p.set(w)
        limit = L
        if ML:
            limit = min(MX, rng.choice([0, 1, 2, 1 << rng.randrange(c["mlw"]), 1 << c["mlw"] - 1, L, L + 1, MX, rng.randint(1, L)]))
            ML.set(limit)
        ST.set(1)
        b.settle()
        ctx.eq(S["valid"].get(), 0, "idle", "valid in the cycle of the start strobe")
        b.tick(dom)
        ST.set(0)
        if limit == 0:
            ctx.ev("zero_length")
            idle(ctx, b, dom, S, DN, 6, "length limit of zero")
            continue
        n = min(L, limit)
        if n < L:
            ctx.ev("limited")
        exp = [(w, int(i == 0), int(i == n - 1), 1) for i, w in enumerate(words[:n])]
        ctx.seen(L, W, n)
        receive(ctx, b, dom, S, DN, exp, f"{n} of {L} words", rng.choice([.2, .5, .9, 1]), ST=ST)
    ctx.sample = dict(case=c)
