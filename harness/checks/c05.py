"""C05: SPI device - word exchange with any conforming controller, in all four SPI modes."""
from ..bench import Bench
from amaranth import Record, Module, Elaboratable
from .c04 import Wrap

RULE = ("A case is a device configuration driven by an independent bit-level SPI controller model with random clock "
        "timing: multi-word selections, aborted words, clocks while not selected. Both directions are scored. A situation "
        "is (mode, order, cs polarity, word size, cdc, kind, word, reply).")
FLOORS = {"words": 800, "aborts": 50, "multiword": 50, "foreign_clocks": 50, "pair_words": 50}
ASSUMPTIONS = ["SCK half periods and CS setup/hold/idle times are at least 5 sync cycles (3 when the input synchroniser is skipped)"]


def cases(tier, rng):
    out = []
    k = 36 if tier == "quick" else 360
    for cpol in (0, 1):
        for cpha in (0, 1):
            for csh in (False, True):
                for msb in (True, False):
                    for i in range(k):
                        out.append(dict(cpol=cpol, cpha=cpha, csh=csh, msb=msb, skip=rng.random() < .4,
                                        ws=8 if i == 0 else rng.choice([1, 2, 3, 5, 7, 8, 9, 12, 16, 24, 32, rng.randint(1, 32)]),
                                        sel=7, res=i % 7 == 1))
                    for i in range(k // 4):
                        out.append(dict(pair=True, cpol=cpol, cpha=cpha, csh=csh, msb=msb, skip=rng.random() < .4,
                                        ws=rng.choice([4, 8, 12, 16, 24]), div=rng.choice([16, 20, 24, 32]), words=6))
    m = 1 if tier == "quick" else 8           # long histories
    for i in range(4 * m):
        out.append(dict(cpol=rng.getrandbits(1), cpha=rng.getrandbits(1), csh=rng.random() < .5, msb=rng.random() < .5, skip=i % 2 == 0, ws=rng.choice([2, 4, 8]), sel=260, res=False))
    out += [dict(cpol=p, cpha=h, csh=s, msb=rng.random() < .5, skip=s != (p == 1) and rng.random() < .3, ws=1, sel=20, res=False) for p in (0, 1) for h in (0, 1) for s in (False, True)]
    m = 1 if tier == "quick" else 6           # large configurations
    for ws in (40, 48, 64, 65, 100, 128, 200):
        out += [dict(cpol=rng.getrandbits(1), cpha=rng.getrandbits(1), csh=rng.random() < .5, msb=rng.random() < .5, skip=rng.random() < .5, ws=ws, sel=5, res=False) for _ in range(m)]
    return out


def run_case(c, ctx):
    if c.get("pair"):
        return pair(c, ctx)
    from amlib.io.spi import SPIDeviceInterface
    rng = ctx.rng
    ws, cpol, cpha = c["ws"], c["cpol"], c["cpha"]
    dut = SPIDeviceInterface(word_size=ws, clock_polarity=cpol, clock_phase=cpha, msb_first=c["msb"], cs_idles_high=c["csh"],
                             skip_input_cdc=c["skip"])
    if c["res"]:
        res = Record([("copi", 1), ("cipo", 1), ("clk", 1), ("cs", 1)])
        b = Bench(Wrap(dut, res))
        sck, sdi, sdo, csp, on = b.port(res.clk), b.port(res.copi), b.port(res.cipo), b.port(res.cs), 1
    else:
        b = Bench(dut)
        s = dut.spi
        sck, sdi, sdo, csp, on = b.port(s.sck), b.port(s.sdi), b.port(s.sdo), b.port(s.cs), 0 if c["csh"] else 1
    wi, wo, wa, wc = (b.port(x) for x in (dut.word_in, dut.word_out, dut.word_accepted, dut.word_complete))
    order = list(range(ws - 1, -1, -1)) if c["msb"] else list(range(ws))
    got, accs = [], [0]
    mn = 3 if c["skip"] else 5

    def clk(n=1):
        for _ in range(n):
            b.settle()
            if wc.get():
                got.append(wi.get())
            if wa.get():
                accs[0] += 1
            b.tick()

    csp.set(1 - on)
    sck.set(cpol)
    clk(10)
    ctx.check(not got and not accs[0], "foreign", "a word completed although the chip was not selected since power-up")
    last = None
    for n in range(c["sel"]):
        half = rng.choice([mn, mn, mn + 1, rng.randint(mn, 20)])
        jit = rng.random() < .3

        def h():
            clk(rng.randint(half, half + 6) if jit else half)
        kind = rng.choices(["words", "abort", "foreign"], [6, 2, 2])[0]
        if kind == "foreign":
            # another device is addressed on the shared lines
            for _ in range(rng.randint(1, 2 * ws + 2)):
                sdi.set(rng.getrandbits(1))
                sck.set(1 - cpol)
                h()
                sck.set(cpol)
                h()
            clk(8)
            ctx.check(not got and not accs[0], "foreign", "a word completed although the chip was not selected")
            ctx.ev("foreign_clocks")
            ctx.seen("foreign", cpol, cpha, ws)
            continue
        nw = rng.choice([1, 1, 2, 3]) if kind == "words" else rng.choice([0, 1])
        words = [rng.choice([0, (1 << ws) - 1, rng.getrandbits(ws), rng.getrandbits(ws)]) for _ in range(nw + 1)]
        replies = [rng.getrandbits(ws) for _ in range(nw + 1)]
        part = rng.randrange(ws) if kind == "abort" else None
        wo.set(replies[0])
        clk(mn + 1)
        csp.set(on)
        sck.set(cpol)
        back = []
        if cpha == 0:
            sdi.set(words[0] >> order[0] & 1)
        clk(rng.randint(mn, mn + 12))
        for w in range(nw + (kind == "abort")):
            bits = ws if w < nw else part
            rx = []
            for i in range(bits):
                o = order[i]
                if cpha == 0:
                    sdi.set(words[w] >> o & 1)
                    h()
                    rx.append(sdo.get())        # sampled just before the leading edge acts
                    sck.set(1 - cpol)
                    clk(mn)
                    if i == bits - 1 and w + 1 < len(replies):
                        pass
                    h()
                    sck.set(cpol)
                    if i + 1 < bits or w + 1 < len(words):
                        sdi.set(words[w if i + 1 < bits else w + 1] >> (order[i + 1] if i + 1 < bits else order[0]) & 1)
                    h()
                else:
                    sck.set(1 - cpol)
                    sdi.set(words[w] >> o & 1)
                    h()
                    clk(mn)
                    rx.append(sdo.get())
                    sck.set(cpol)
                    h()
                # the outgoing word was fixed when the word began: change it right after the first sampling,
                # then present the next word before the last bit
                if i == 0 and ws > 1:
                    wo.set(rng.getrandbits(ws))
                if i == max(0, ws - 2) and w + 1 < len(replies):
                    wo.set(replies[w + 1])
            if bits == ws:
                back.append(sum(v << o for v, o in zip(rx, order)))
            else:
                for v, o in zip(rx, order):
                    ctx.eq(v, replies[w] >> o & 1, "miso", "bit sent in a word that is aborted later")
        clk(mn + 2)
        csp.set(1 - on)
        clk(rng.randint(mn + 1, mn + 10))
        ctx.eq(got, words[:nw], "mosi", f"words received by the device (mode {cpol}{cpha}, msb first {c['msb']}, {ws} bits)")
        if ws > 1:
            ctx.eq(back, replies[:nw], "miso", f"words sent by the device (mode {cpol}{cpha}, msb first {c['msb']}, {ws} bits)")
        else:
            ctx.eq(back[:1], replies[:nw][:1], "miso", "first word sent by the device (1 bit words)")
        ctx.eq(accs[0], nw, "strobes", "acceptance strobes")
        if nw:
            last = words[nw - 1]
        if last is not None:
            ctx.eq(wi.get(), last, "hold", "received word still presented after deselection")
        got.clear()
        accs[0] = 0
        ctx.ev("words", nw)
        if nw > 1:
            ctx.ev("multiword")
        if kind == "abort":
            ctx.ev("aborts")
        ctx.seen(kind, cpol, cpha, c["csh"], c["msb"], c["skip"], ws, nw, part, words[0], replies[0])
        ctx.sample = dict(case=c, words=[hex(w) for w in words[:nw]], half=half)


class Pair(Elaboratable):
    def __init__(self, a, d):
        self.a, self.d = a, d

    def elaborate(self, platform):
        m = Module()
        m.submodules.a, m.submodules.d = self.a, self.d
        a, d = self.a.spi, self.d.spi
        m.d.comb += [d.sck.eq(a.sck), d.cs.eq(a.cs), d.sdi.eq(a.sdo), a.sdi.eq(d.sdo)]
        return m


def pair(c, ctx):
    """The library's own controller and device talking to each other."""
    from amlib.io.spi import SPIDeviceInterface, SPIControllerInterface
    rng = ctx.rng
    ws = c["ws"]
    kw = dict(word_size=ws, clock_polarity=c["cpol"], clock_phase=c["cpha"], msb_first=c["msb"], cs_idles_high=c["csh"])
    a = SPIControllerInterface(divisor=c["div"], **kw)
    d = SPIDeviceInterface(skip_input_cdc=c["skip"], **kw)
    b = Bench(Pair(a, d))
    for n in range(c["words"]):
        x, y = rng.getrandbits(ws), rng.getrandbits(ws)
        b.set(a.word_out, x)
        b.set(d.word_out, y)
        for _ in range(8):
            b.tick()
        b.set(a.start_transfer, 1)
        ga, gd = [], []
        for t in range((ws + 6) * c["div"] + 60):
            b.tick()
            b.set(a.start_transfer, 0)
            if b.get(a.word_complete):
                ga.append(b.get(a.word_in))
            if b.get(d.word_complete):
                gd.append(b.get(d.word_in))
        ctx.eq((ga, gd), ([y], [x]), "pair", f"(controller, device) received words, mode {c['cpol']}{c['cpha']}, divisor {c['div']}")
        ctx.ev("pair_words")
        ctx.seen("pair", c["cpol"], c["cpha"], ws, c["div"], x, y)
