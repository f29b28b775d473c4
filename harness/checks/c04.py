"""C04: SPI controller - every started transfer is one exact full-duplex word exchange, in all four SPI modes."""
from ..bench import Bench
from amaranth import Record, Module, Elaboratable, Signal

RULE = ("A case is a controller configuration (mode, bit order, CS polarity, word size, divisor, input synchroniser) "
        "driving an independent bit-level SPI slave model; each started transfer is scored on both sides. A situation is "
        "(mode, order, cs polarity, word size, divisor, cdc, word, reply).")
FLOORS = {"transfers": 400, "bits": 4000}
ASSUMPTIONS = ["even divisor >= 12 (>= 8 when the input synchroniser is skipped): below that the synchroniser latency exceeds half an SCK period",
               "the slave answers within the same clock cycle in which it sees an SCK edge"]


def cases(tier, rng):
    out = []
    k = 25 if tier == "quick" else 250
    for cpol in (0, 1):
        for cpha in (0, 1):
            for csh in (False, True):
                for msb in (True, False):
                    for i in range(k):
                        skip = rng.random() < .4
                        out.append(dict(cpol=cpol, cpha=cpha, csh=csh, msb=msb, skip=skip,
                                        ws=8 if i == 0 else rng.choice([2, 3, 4, 5, 7, 8, 12, 16, 24, 32, rng.randint(1, 32)]),
                                        div=rng.choice([8, 10, 12, 16] if skip else [12, 14, 16, 18, 20, 24, 30, 32, 40]),
                                        words=8, res=i == 1))
    m = 1 if tier == "quick" else 8           # long histories
    for i in range(4 * m):
        out.append(dict(cpol=rng.getrandbits(1), cpha=rng.getrandbits(1), csh=rng.random() < .5, msb=rng.random() < .5, skip=i % 2 == 0, ws=rng.choice([2, 4, 8]), div=8 if i % 2 == 0 else 12, words=330, res=False))
    out += [dict(cpol=p, cpha=h, csh=s, msb=rng.random() < .5, skip=False, ws=1, div=rng.choice([12, 16, 18]), words=8, res=False) for p in (0, 1) for h in (0, 1) for s in (False, True)]
    m = 1 if tier == "quick" else 6           # large configurations
    for ws, div, n in ((48, 12, 4), (64, 16, 4), (100, 12, 4), (8, 100, 4), (8, 256, 4), (16, 520, 2), (24, 1000, 1)):
        out += [dict(cpol=rng.getrandbits(1), cpha=rng.getrandbits(1), csh=rng.random() < .5, msb=rng.random() < .5, skip=rng.random() < .5, ws=ws, div=div, words=n, res=False) for _ in range(m)]
    return out


class Wrap(Elaboratable):
    """Connects the controller to a pin resource with the method the class offers for it."""
    def __init__(self, dut, res, device=False):
        self.dut, self.res = dut, res

    def elaborate(self, platform):
        m = Module()
        m.submodules.dut = self.dut
        m.d.comb += self.dut.connect_to_resource(self.res)
        return m


def run_case(c, ctx):
    from amlib.io.spi import SPIControllerInterface
    rng = ctx.rng
    ws, cpol, cpha = c["ws"], c["cpol"], c["cpha"]
    kw = dict(word_size=ws, divisor=c["div"], clock_polarity=cpol, clock_phase=cpha, cs_idles_high=c["csh"])
    if not (c["msb"] and rng.random() < .5):
        kw["msb_first"] = c["msb"]
    if c["skip"]:
        kw["skip_input_cdc"] = True
    dut = SPIControllerInterface(**kw)
    if c["res"]:
        # pins as a platform would provide them: chip select is "asserted = 1" at this level
        res = Record([("copi", 1), ("cipo", 1), ("clk", 1), ("cs", 1)])
        b = Bench(Wrap(dut, res))
        sck, sdi, sdo, csp, cs_on = b.port(res.clk), b.port(res.cipo), b.port(res.copi), b.port(res.cs), 1
    else:
        b = Bench(dut)
        s = dut.spi
        sck, sdi, sdo, csp, cs_on = b.port(s.sck), b.port(s.sdi), b.port(s.sdo), b.port(s.cs), 0 if c["csh"] else 1
    wi, wo, wa, wc, st = (b.port(x) for x in (dut.word_in, dut.word_out, dut.word_accepted, dut.word_complete, dut.start_transfer))
    order = list(range(ws - 1, -1, -1)) if c["msb"] else list(range(ws))
    half = c["div"] // 2
    last_in = None
    psck, pact = cpol, 0
    for n in range(c["words"]):
        word = rng.choice([0, (1 << ws) - 1, rng.getrandbits(ws), rng.getrandbits(ws)])
        reply = rng.getrandbits(ws)
        gap = rng.choice([0, 0, 1, rng.randint(0, 3 * c["div"])]) if n else rng.randint(0, 3 * c["div"])
        for _ in range(gap):
            # nothing may move while no transfer was requested
            b.settle()
            ctx.check(csp.get() != cs_on, "spurious-cs", "chip select active without a transfer")
            ctx.check(sck.get() == cpol, "idle-sck", "clock not at its idle level between transfers")
            ctx.check(not wc.get(), "spurious-complete", "completion strobe without a transfer")
            sdi.set(rng.getrandbits(1))
            b.tick()
        wo.set(word)
        st.set(1)
        got, k, strobes, acc, captured = [], 0, 0, 0, None
        pst = rng.choice([0, .05, .05, 1])
        sel = 0
        ended = None
        t = 0
        last_change = None
        while True:
            b.settle()
            clk, act = sck.get(), int(csp.get() == cs_on)
            if act and not pact:
                ctx.check(not sel, "reselect", "chip select toggled within one transfer")
                sel = 1
                k = 0
                if cpha == 0:
                    ctx.check(clk == cpol and psck == cpol, "cs-late", "first clock edge before the chip was selected (clock phase 0)")
                    sdi.set(reply >> order[0] & 1)
                    k = 1
            if (act or pact) and clk != psck:
                lead = clk != cpol
                if last_change is not None and len(got) < ws:
                    ctx.check(t - last_change >= 2, "sck-glitch", "clock pulse shorter than two cycles inside a word")
                last_change = t
                if lead == (cpha == 0):
                    got.append(sdo.get())
                    ctx.check(len(got) <= ws, "extra-bits", f"more than {ws} sampling edges while the chip is selected")
                elif k < ws:
                    sdi.set(reply >> order[k] & 1)
                    k += 1
                    if cpha == 0 and k == 1:
                        pass
                if len(got) == 1 and lead == (cpha == 0):
                    # the word on the bus was fixed when the transfer began
                    if t > half:
                        wo.set(rng.getrandbits(ws))
            elif not act and clk != cpol:
                ctx.fail("idle-sck", "clock not at its idle level while the chip is not selected")
            if wa.get():
                acc += 1
            if wc.get():
                strobes += 1
                captured = wi.get()
                ctx.check(len(got) == ws, "early-complete", f"completion after {len(got)} of {ws} bits")
            psck, pact = clk, act
            b.tick()
            st.set(int(len(got) < ws and rng.random() < pst))   # a request during a transfer is ignored
            t += 1
            if strobes and not act:
                break
            ctx.check(t < (ws + 6) * c["div"] + 100, "stuck", "the transfer does not finish", bits=len(got), selected=sel, strobes=strobes)
        st.set(0)
        ctx.eq(len(got), ws, "bit-count", "bits clocked out in the transfer")
        g = sum(bit << o for bit, o in zip(got, order))
        ctx.eq(g, word, "mosi", f"word received by the slave (mode {cpol}{cpha}, msb first {c['msb']}, {ws} bits, divisor {c['div']})")
        ctx.eq(captured, reply, "miso", f"word received from the slave (mode {cpol}{cpha}, msb first {c['msb']}, {ws} bits, divisor {c['div']})")
        ctx.eq((strobes, acc), (1, 1), "strobes", "completion/acceptance strobes in one transfer")
        ctx.ev("transfers")
        ctx.ev("bits", ws)
        ctx.seen(cpol, cpha, c["csh"], c["msb"], c["skip"], ws, c["div"], word, reply)
    ctx.sample = dict(case=c, word=hex(word), reply=hex(reply))
