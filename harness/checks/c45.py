"""C45: Wishbone memories - every access is acknowledged once and the contents are exactly what was stored."""
import os
import tempfile

from ..bench import Bench

RULE = ("A case is a RAM, read-only RAM or ROM of random geometry and initial contents (words, bytes or a file written just before the circuit is built) accessed by a random bus master with partial writes, idle cycles, "
        "back to back accesses and incomplete requests; a shadow memory judges every acknowledge and every read. A situation is (kind, data width, granularity, address, write, select).")
FLOORS = {"reads": 8000, "writes": 5000, "partial": 1500, "blocked_writes": 500, "non_requests": 5000, "initial_words": 800, "back_to_back": 2000, "incomplete_words": 20}
ASSUMPTIONS = ["the bus and memory map classes of amaranth_soc are a functional stand-in"]


def cases(tier, rng):
    n = 1 if tier == "quick" else 12
    out = []
    for _ in range(220 * n):
        dw = rng.choice([8, 16, 32, 32, 32, 64])
        out.append(dict(kind=rng.choice(["ram", "ram", "ram", "ro", "rom"]), dw=dw, gran=rng.choice([None] + [g for g in (8, 16, 32, 64) if g <= dw]),
                        words=rng.choice([2, 2, 4, 8, 16, 64]), init=rng.choice(["none", "words", "bytes", "bytes", "file"]), order=rng.choice([None, "little", "big"]), ops=150))
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(kind=k, dw=dw, gran=None, words=w, init="bytes", order=rng.choice(["little", "big"]), ops=300) for k, dw, w in (("ram", 32, 256), ("ram", 8, 1024), ("rom", 32, 300 if False else 512), ("ram", 32, 4096)) for _ in range(m)]
    return out


def run_case(c, ctx):
    from amlib.soc.memory import WishboneRAM, WishboneROM
    rng = ctx.rng
    dw, gran, words = c["dw"], c["gran"] or 8, c["words"]
    parts = dw // gran
    aw = (words * parts - 1).bit_length()
    kw = dict(addr_width=aw)
    if dw != 32 or rng.random() < .5:
        kw["data_width"] = dw
    if c["gran"]:
        kw["granularity"] = gran
    if rng.random() < .5:
        kw["name"] = "mem_x"
    order = c["order"] or "little"
    init = c["init"]
    rom = c["kind"] == "rom"
    if rom:
        order = "little"
        init = "bytes" if init == "none" else init
    n = rng.randint(0 if init != "words" else 1, words)
    data = [rng.getrandbits(dw) for _ in range(n)]
    raw = b"".join(x.to_bytes(dw // 8, order) for x in data)
    shadow = data + [0] * (words - n)
    if init in ("bytes", "file") and n and rng.random() < .3 and dw > 8:
        cut = rng.randint(1, dw // 8 - 1)          # the last word may be incomplete
        raw = raw[:-cut]
        mask = (1 << (dw - 8 * cut)) - 1
        shadow[n - 1] &= mask if order == "little" else mask << 8 * cut
        ctx.ev("incomplete_words")
    fd, path = None, None
    try:
        if init == "file":
            fd, path = tempfile.mkstemp(prefix="c45")
            os.write(fd, b"the file is only read when the circuit is built")
            arg = path
        else:
            arg = {"none": None, "words": data, "bytes": raw}[init]
        if init == "none":
            shadow = [0] * words
        if rom:
            dut = WishboneROM(arg, **kw)
        else:
            if arg is not None:
                kw["init"] = arg
                if c["order"]:
                    kw["byteorder"] = order
            if c["kind"] == "ro":
                kw["read_only"] = True
            dut = WishboneRAM(**kw)
        if path:
            os.ftruncate(fd, 0)
            os.pwrite(fd, raw, 0)
        b = Bench(dut)
    finally:
        if path:
            os.close(fd)
            os.remove(path)
    bus = dut.bus
    ctx.eq((len(bus.adr), len(bus.dat_r), len(bus.dat_w), len(bus.sel)), ((words - 1).bit_length(), dw, dw, parts), "geometry", "bus geometry")
    res = list(bus.memory_map.all_resources())
    ctx.eq([(r.start, r.end, r.resource is dut) for r in res], [(0, words * parts, True)], "map", "memory map of the memory")
    A, DW, DR, SEL, CYC, STB, WE, ACK = (b.port(x) for x in (bus.adr, bus.dat_w, bus.dat_r, bus.sel, bus.cyc, bus.stb, bus.we, bus.ack))
    writable = c["kind"] == "ram"

    def request(adr, we, sel, val, gap):
        for _ in range(gap):
            k = rng.randrange(3)
            CYC.set(k == 1)
            STB.set(k == 2)
            A.set(rng.randrange(words)); WE.set(rng.getrandbits(1)); SEL.set(rng.getrandbits(parts)); DW.set(rng.getrandbits(dw))
            b.settle()
            b.tick("sync")
            b.settle()
            ctx.eq(ACK.get(), 0, "spurious", "acknowledge without a request")
            ctx.ev("non_requests")
        CYC.set(1); STB.set(1); A.set(adr); WE.set(we); SEL.set(sel); DW.set(val)
        b.settle()
        ctx.eq(ACK.get(), 0, "early", "acknowledge in the cycle of the request")
        b.tick("sync")
        b.settle()
        ctx.eq(ACK.get(), 1, "late", "acknowledge in the cycle after the request")
        got = DR.bits()
        if not we:
            ctx.eq(got, shadow[adr], "read", f"word {adr} ({c['kind']}, {dw} bits, granularity {gran}, initial contents {init} {order})")
            ctx.ev("reads")
        elif writable:
            for i in range(parts):
                if sel >> i & 1:
                    mask = ((1 << gran) - 1) << i * gran
                    shadow[adr] = shadow[adr] & ~mask | val & mask
            ctx.ev("writes")
            ctx.ev("partial", int(sel != (1 << parts) - 1))
        else:
            ctx.ev("blocked_writes")
        b.tick("sync")
        CYC.set(0)
        STB.set(0)
        b.settle()
        ctx.eq(ACK.get(), 0, "long", "acknowledge after the request was taken")
        ctx.ev("back_to_back", int(gap == 0))
        ctx.seen(c["kind"], dw, gran, adr, we, sel)

    for a in range(words):
        request(a, 0, rng.getrandbits(parts) if rng.random() < .3 else (1 << parts) - 1, rng.getrandbits(dw), rng.choice([0, 0, 1]))
        ctx.ev("initial_words")
    hot = [rng.randrange(words) for _ in range(3)]
    for _ in range(c["ops"]):
        request(rng.choice(hot) if rng.random() < .6 else rng.randrange(words), int(rng.random() < .5), rng.getrandbits(parts), rng.getrandbits(dw), rng.choice([0, 0, 0, 1, 3]))
    for a in range(words):
        request(a, 0, (1 << parts) - 1, 0, 0)
    ctx.sample = dict(case=c, words=words)
