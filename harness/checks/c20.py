"""C20: constant stream generator - every start emits exactly the requested part of the data, once."""
from ..bench import Bench
from .gens import receive, idle, ports

RULE = ("A case is a generator (data length, word width, byte strobes or a single valid, endianness, clock domain, length limit or not) that is "
        "started many times with random start positions, length limits, backpressure and gaps (also back to back); the words, packet flags, byte strobes and done pulses are "
        "compared with the data. A situation is (width, strobes, data length, start, limit).")
FLOORS = {"ignored_starts": 1000, "words": 5000, "held": 3000, "done": 900, "limited": 300, "partial": 60, "zero_length": 40, "idle_cycles": 800}


def cases(tier, rng):
    out = []
    for i in range(300 if tier == "quick" else 5000):
        w, nv = rng.choice([(8, 1), (8, 1), (16, 1), (32, 4), (32, 4), (16, 2), (32, 1), (24, 3), (64, 8), (12, 1), (1, 1)])
        out.append(dict(width=w, strobes=nv, length=rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 15, 16, 17, 31, 32, 33, 64]),
                        data=rng.choice(["bytes", "bytes", "bytearray", "ints"]) if w % 8 == 0 else "ints",
                        endian=rng.choice([None, "little", "big"]), limit=rng.choice([None, 8, 8, 16, 6]), explicit=rng.random() < .5,
                        domain=rng.choice(["sync", "sync", "usb"]), starts=16))
    for i in range(10 if tier == "quick" else 80):      # marathons
        w, nv = rng.choice([(8, 1), (32, 4), (16, 2)])
        out.append(dict(width=w, strobes=nv, length=rng.choice([3, 5, 7, 9]), data="bytes", endian=None, limit=[None, 8][i % 2], explicit=False, domain="sync", starts=700))
    m = 1 if tier == "quick" else 6           # large configurations
    for L in (100, 127, 128, 255, 256, 257, 300, 513, 700, 1100, 2100):
        out += [dict(width=w, strobes=nv, length=L, data="bytes", endian=rng.choice([None, "little", "big"]), limit=lim, explicit=False, domain="sync", starts=6) for w, nv, lim in ((8, 1, None), (8, 1, 12), (32, 4, 10)) for _ in range(m)]
    out += [dict(width=8 * n, strobes=n, length=L, data="bytes", endian=rng.choice([None, "big"]), limit=lim, explicit=False, domain="sync", starts=24)
            for n in (9, 16, 32, 40) for L in (n - 1, 2 * n, 3 * n + rng.randint(1, n - 1)) for lim in (None, 9) for _ in range(m)]
    out += [dict(width=w, strobes=nv, length=L, data="bytes", endian=None, limit=lim, explicit=False, domain="sync", starts=30)      # narrow and wide limits
            for lim in (1, 2, 3, 17, 20, 32, 64) for w, nv, L in ((8, 1, 5), (32, 4, 9), (16, 2, 4)) for _ in range(m)]
    for c in out:
        c["mlw"] = c.pop("limit")
    return out


def run_case(c, ctx):
    from amlib.stream.generator import ConstantStreamGenerator
    from amlib.stream import StreamInterface
    from amaranth import Module, ClockDomain
    rng = ctx.rng
    W, NV, L, dom = c["width"], c["strobes"], c["length"], c["domain"]
    bpw = (W + 7) // 8
    big = c["endian"] == "big"
    if c["data"] == "ints":
        data = words = [rng.getrandbits(W) for _ in range(L)]
        nbytes = L * bpw
        last_bytes = bpw
    else:
        raw = [rng.getrandbits(8) for _ in range(L)]
        data = bytes(raw) if c["data"] == "bytes" else bytearray(raw)
        words = [int.from_bytes(raw[i:i + bpw], "big" if big else "little") for i in range(0, L, bpw)]
        nbytes = L
        last_bytes = (L - 1) % bpw + 1
    orig = list(data)

    class Typed(StreamInterface):
        def __init__(self, payload_width=W, **kw):
            super().__init__(payload_width=payload_width, valid_width=NV, **kw)
    kw = {}
    if c["endian"]:
        kw["data_endianness"] = c["endian"]
    if c["mlw"]:
        kw["max_length_width"] = c["mlw"]
    if dom != "sync":
        kw["domain"] = dom
    if c["explicit"] or (NV == 1 and W == 8 and rng.random() < .3):
        kw["data_width"] = W
    if not (NV == 1 and "data_width" in kw):
        kw["stream_type"] = Typed
    dut = ConstantStreamGenerator(data, **kw)
    m = Module()
    m.domains += ClockDomain(dom)
    m.submodules.dut = dut
    b = Bench(m, domains=(dom,))
    ctx.eq(list(data), orig, "data", "the caller's data")
    S = ports(b, dut.stream, NV, W)
    ST, DN, SP = b.port(dut.start), b.port(dut.done), b.port(dut.start_position)
    ML = b.port(dut.max_length) if c["mlw"] else None
    OL = b.port(dut.output_length) if c["mlw"] else None
    top = (1 << c["mlw"]) - 1 if c["mlw"] else 0
    full = (1 << NV) - 1
    if ML:
        ctx.eq((ML.width, OL.width), (c["mlw"], c["mlw"]), "limit", "widths of the length limit and the output length")
    for k in range(c["starts"]):
        idle(ctx, b, dom, S, DN, rng.choice([0, 0, 1, 5]), "idle generator")
        sp = rng.choice([0, 0, rng.randrange(len(words)), SP.mask, rng.getrandbits(max(1, SP.width)) & SP.mask])
        SP.set(sp)
        eff = min(sp, len(words) - 1)
        avail = words[eff:]
        limit = None
        if ML:
            limit = min(top, rng.choice([top, top + 1 >> 1, 1 << rng.randrange(c["mlw"]), nbytes, 1, rng.randint(1, nbytes), rng.randint(1, bpw * len(avail)), bpw * rng.randint(1, len(avail)), 0]))
            ML.set(limit)
        ST.set(1)
        b.settle()
        ctx.eq(S["valid"].get(), 0, "idle", "valid in the cycle of the start strobe")
        if OL and c["data"] != "ints":
            ctx.eq(OL.get(), min(limit, nbytes), "output_length", f"output length with limit {limit} and {nbytes} bytes of data")
        b.tick(dom)
        ST.set(0)
        if limit == 0:
            ctx.ev("zero_length")
            idle(ctx, b, dom, S, DN, 6, "length limit of zero")
            continue
        exp = []
        left = limit if limit is not None else 1 << 30
        for i, w in enumerate(avail):
            at_end = i == len(avail) - 1
            nb = last_bytes if at_end else bpw
            take = min(nb, left)
            lastw = at_end or left <= bpw
            vm = 1 if NV == 1 else ((1 << take) - 1 if lastw else full)
            exp.append((w, int(i == 0), int(lastw), vm))
            if lastw and take < bpw and NV > 1:
                ctx.ev("partial")
            left -= bpw
            if lastw:
                break
        if limit is not None and len(exp) < len(avail):
            ctx.ev("limited")
        ctx.seen(W, NV, L, eff, min(limit, 99) if limit is not None else "-")

        def wiggle():
            SP.set(rng.getrandbits(max(1, SP.width)))
            ST.set(rng.random() < .1 and wiggle.inside)
        wiggle.inside = False
        receive(ctx, b, dom, S, DN, exp, f"{W} bit words, start {sp}, limit {limit}, {nbytes} bytes of data", rng.choice([.2, .5, .9, 1]), wiggle if k % 2 else None, ST=ST)
    ctx.sample = dict(case=c)
