"""C07: SPI multiplexer."""
from ..bench import Bench
RULE = ("A case is a multiplexer over 1..70 busses; every combination of chip selects and data outputs (exhaustive up to 4 "
        "busses, random above) is applied and the shared outputs compared. A situation is (n, selects, data).")
FLOORS = {"vectors": 2000}


def cases(tier, rng):
    return [dict(n=n, rep=r) for n in (1, 2, 3, 4, 5, 6, 8, 9, 16, 17, 33, 70) for r in range(4 if tier == "quick" else 30)]


def run_case(c, ctx):
    from amlib.io.spi import SPIMultiplexer, SPIDeviceBus
    rng = ctx.rng
    n = c["n"]
    bus = [SPIDeviceBus() for _ in range(n)]
    dut = SPIMultiplexer(bus)
    b = Bench(dut)
    sh = dut.shared_lines
    vecs = list(range(1 << (2 * n + 2))) if n <= 4 else [rng.getrandbits(2 * n + 2) for _ in range(1500)]
    rng.shuffle(vecs)
    for v in vecs[:1500]:
        cs = [v >> i & 1 for i in range(n)]
        if n > 6 and rng.random() < .7:
            cs = [0] * n
            if rng.random() < .9:
                cs[rng.randrange(n)] = 1
        do = [v >> (n + i) & 1 for i in range(n)]
        sck, sdi = v >> (2 * n) & 1, v >> (2 * n + 1) & 1
        for i in range(n):
            b.set(bus[i].cs, cs[i])
            b.set(bus[i].sdo, do[i])
        b.set(sh.sck, sck)
        b.set(sh.sdi, sdi)
        b.settle()
        for i in range(n):
            ctx.eq((b.get(bus[i].sck), b.get(bus[i].sdi)), (sck, sdi), "broadcast", f"(clock, data) forwarded to bus {i}")
        if sum(cs) == 1:
            ctx.eq(b.get(sh.sdo), do[cs.index(1)], "sdo", f"shared data output, chip selects {cs}, outputs {do}")
        elif sum(cs) == 0:
            ctx.eq(b.get(sh.sdo), 0, "sdo-idle", "shared data output with no chip selected")
        else:
            ctx.check(b.get(sh.sdo) in [d for d, s in zip(do, cs) if s], "sdo-multi", "shared data output comes from no selected bus")
        ctx.ev("vectors")
        ctx.seen(n, tuple(cs), tuple(do), sck, sdi)
    ctx.sample = dict(case=c, last_vector=dict(cs=cs, sdo=do))
