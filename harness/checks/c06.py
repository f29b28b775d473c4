"""C06: SPI command and register interfaces."""
from ..bench import Bench
from amaranth import Signal, Module, Elaboratable, Record
from .c04 import Wrap

RULE = ("A case is a register map (memory registers of several widths and reset values, read-only, write-only and special "
        "function registers with strobes) and a random history of transactions: reads, writes, unknown addresses, "
        "transactions cut short at any bit, and transactions with surplus clocks; the reply bits, register contents and every "
        "strobe are compared with a dictionary model. A situation is (kind, register kind, address, value, cut position).")
FLOORS = {"reads": 200, "writes": 200, "aborted": 100, "surplus": 50, "commands": 100}
ASSUMPTIONS = ["SCK half periods of at least 4 sync cycles, chip select high and low for at least 4 sync cycles, inputs synchronous"]


class Host:
    """Bit-level host: output on the rising, sampling before the falling edge (CPOL 0, CPHA 1)."""
    def __init__(self, b, sck, sdi, sdo, cs, watch, rng):
        self.b, self.sck, self.sdi, self.sdo, self.cs, self.watch, self.rng = b, sck, sdi, sdo, cs, watch, rng

    def clk(self, n):
        for _ in range(n):
            self.b.settle()
            self.watch()
            self.b.tick()

    def select(self, n=None):
        self.cs.set(1)
        self.clk(n or self.rng.randint(4, 9))

    def deselect(self, n=None):
        self.cs.set(0)
        self.clk(n or self.rng.randint(4, 9))

    def bits(self, value, n, half):
        out = []
        for i in range(n - 1, -1, -1):
            self.sck.set(1)
            self.sdi.set(value >> i & 1)
            self.clk(half)
            self.clk(1)
            out.append(self.sdo.get())
            self.sck.set(0)
            self.clk(half)
        v = 0
        for bit in out:
            v = v << 1 | bit
        return v


def cases(tier, rng):
    out = []
    for i in range(260 if tier == "quick" else 2600):
        asz = rng.choice([3, 5, 7, 7, 15])
        rsz = rng.choice([5, 8, 16, 32, 12])
        out.append(dict(kind="reg", asz=asz, rsz=rsz, auto=rng.random() < .7, ops=14, default=rng.getrandbits(rsz), res=i % 9 == 0))
    for i in range(120 if tier == "quick" else 1200):
        out.append(dict(kind="cmd", csz=rng.choice([1, 3, 8, 8, 16]), wsz=rng.choice([1, 2, 8, 12, 32, 40]), ops=10, res=i % 9 == 0))
    m = 1 if tier == "quick" else 8           # long histories
    for i in range(2 * m):
        out.append(dict(kind="reg", asz=3, rsz=rng.choice([5, 8]), auto=rng.random() < .5, ops=400, default=0, res=False))
        out.append(dict(kind="cmd", csz=3, wsz=rng.choice([2, 8]), ops=400, res=False))
    m = 1 if tier == "quick" else 6           # large configurations
    for asz, rsz in ((15, 48), (7, 64), (20, 32), (31, 16), (7, 100)):
        out += [dict(kind="reg", asz=asz, rsz=rsz, auto=rng.random() < .7, ops=14, default=rng.getrandbits(rsz), res=False) for _ in range(2 * m)]
    out += [dict(kind="cmd", csz=csz, wsz=wsz, ops=10, res=False) for csz, wsz in ((32, 8), (8, 64), (64, 64), (8, 128), (8, 300)) for _ in range(m)]
    return out


def run_case(c, ctx):
    return (reg if c["kind"] == "reg" else cmd)(c, ctx)


class Top(Elaboratable):
    def __init__(self, dut, res=None):
        self.dut, self.res = dut, res

    def elaborate(self, platform):
        m = Module()
        m.submodules.dut = self.dut
        if self.res is not None:
            m.d.comb += self.dut.connect_to_resource(self.res)
        return m


def cmd(c, ctx):
    from amlib.io.spi import SPICommandInterface
    rng = ctx.rng
    csz, wsz = c["csz"], c["wsz"]
    dut = SPICommandInterface(command_size=csz, word_size=wsz)
    if c["res"]:
        res = Record([("copi", 1), ("cipo", 1), ("clk", 1), ("cs", 1)])
        b = Bench(Top(dut, res))
        sp = [b.port(x) for x in (res.clk, res.copi, res.cipo, res.cs)]
    else:
        b = Bench(dut)
        s = dut.spi
        sp = [b.port(x) for x in (s.sck, s.sdi, s.sdo, s.cs)]
    crdy, cmdp, wcp, wrp, wsend, idle, stalled = (b.port(x) for x in (dut.command_ready, dut.command, dut.word_complete,
                                                  dut.word_received, dut.word_to_send, dut.idle, dut.stalled))
    log = []
    reply = [0]

    def watch():
        if crdy.get():
            log.append(("cmd", cmdp.get()))
            wsend.set(reply[0])      # the response is prepared when the command is announced
        if wcp.get():
            log.append(("word", wrp.get()))
    h = Host(b, *sp, watch, rng)
    if rng.random() < .5:
        # chip select already asserted at power-up: the rest of that foreign transaction is ignored
        h.select()
        h.bits(rng.getrandbits(csz + wsz), csz + wsz, 4)
        ctx.check(not log and stalled.get(), "powerup", "reacted to a transaction that was under way at power-up", log=log)
        ctx.ev("powerup_selected")
    h.deselect(6)
    ctx.check(idle.get() and not stalled.get(), "idle", "not idle although the chip is not selected")
    for _ in range(c["ops"]):
        half = rng.randint(4, 8)
        command, word = rng.getrandbits(csz), rng.getrandbits(wsz)
        reply[0] = rng.getrandbits(wsz)
        wsend.set(rng.getrandbits(wsz))
        kind = rng.choices(["full", "cut", "surplus", "foreign"], [5, 3, 2, 1])[0]
        log.clear()
        if kind == "foreign":
            h.bits(rng.getrandbits(wsz), wsz, half)
            ctx.check(not log and idle.get(), "foreign", "reacted to clocks while not selected", log=log)
            continue
        cut = rng.randint(0, csz + wsz - 1) if kind == "cut" else csz + wsz
        h.select()
        ctx.check(not idle.get(), "idle", "idle although the chip is selected")
        h.bits(command >> max(0, csz - cut), min(cut, csz), half)
        want = [("cmd", command)] if cut >= csz else []
        n = min(max(cut - csz, 0), wsz)
        got = h.bits(word >> (wsz - n), n, half) if n else 0
        if cut >= csz:
            ctx.eq(got, reply[0] >> (wsz - n), "reply", f"first {n} bits of the reply word")
        if cut == csz + wsz:
            want.append(("word", word))
            ctx.check(stalled.get(), "stalled", "not stalled after the word although still selected")
        else:
            ctx.check(not stalled.get(), "stalled", "stalled in the middle of a transaction")
        if kind == "surplus":
            h.bits(rng.getrandbits(csz + wsz), rng.choice([1, csz, wsz, csz + wsz]), half)
            ctx.check(stalled.get(), "stalled", "not stalled while surplus bits arrive")
            ctx.ev("surplus")
        h.deselect()
        ctx.eq(log, want, "events", f"commands and words reported for a transaction of {cut} bits ({kind})")
        ctx.check(idle.get() and not stalled.get(), "idle", "not idle after deselection")
        if cut >= csz:
            ctx.eq(cmdp.get(), command, "command-hold", "command presented after the transaction")
        ctx.ev("commands")
        if kind == "cut":
            ctx.ev("aborted")
        ctx.seen("cmd", kind, csz, wsz, cut, command, word)
    # chip select already asserted when an interface wakes up is covered by 'surplus' (same waiting condition)


def reg(c, ctx):
    from amlib.io.spi import SPIRegisterInterface
    rng = ctx.rng
    asz, rsz = c["asz"], c["rsz"]
    dut = SPIRegisterInterface(address_size=asz, register_size=rsz, default_read_value=c["default"], support_size_autonegotiation=c["auto"])
    mask = (1 << rsz) - 1
    model = {}
    addrs = list(range(1 if c["auto"] else 0, 1 << asz)) if asz < 8 else rng.sample(range(1, 1 << asz), 12)
    rng.shuffle(addrs)
    addrs = addrs[:rng.randint(2, 6)]
    if c["auto"]:
        model[0] = dict(kind="const", value=mask)
    for a in addrs:
        kind = rng.choice(["mem", "mem", "memsize", "memsig", "ro", "roconst", "sfr", "wo"])
        r = dict(kind=kind)
        if kind in ("mem", "memsize"):
            size = rsz if kind == "mem" else rng.randint(1, rsz)
            reset = rng.getrandbits(size)
            kw = {} if kind == "mem" else dict(size=size)
            if rng.random() < .6:
                kw["reset"] = reset
            else:
                reset = 0
            if rng.random() < .5:
                r["rs"] = kw["read_strobe"] = Signal()
            if rng.random() < .5:
                r["ws"] = kw["write_strobe"] = Signal()
            r.update(sig=dut.add_register(a, **kw), size=size, value=reset)
        elif kind == "memsig":
            size = rng.randint(1, rsz)
            v = rng.getrandbits(size)
            sig = Signal(size, reset=v)
            r.update(sig=dut.add_register(a, value_signal=sig), size=size, value=v)
            ctx.check(r["sig"] is sig, "value-signal", "the given value signal is not the one used")
        elif kind == "ro":
            r["read"] = Signal(rsz)
            r["rs"] = Signal()
            dut.add_read_only_register(a, read=r["read"], read_strobe=r["rs"])
        elif kind == "roconst":
            r["value"] = rng.getrandbits(rsz)
            dut.add_read_only_register(a, read=r["value"])
        elif kind == "sfr":
            r.update(read=Signal(rsz), wsig=Signal(rsz), ws=Signal(), rs=Signal())
            dut.add_sfr(a, read=r["read"], write_signal=r["wsig"], write_strobe=r["ws"], read_strobe=r["rs"])
        else:
            r.update(wsig=Signal(rsz), ws=Signal())
            dut.add_sfr(a, write_signal=r["wsig"], write_strobe=r["ws"])
        model[a] = r
    if model:
        for a in list(model)[:2]:
            try:
                dut.add_sfr(a)
            except ValueError:
                ctx.ev("duplicate_rejected")
            else:
                ctx.fail("duplicate", f"a second register at address {a} was accepted")
    if c["res"]:
        res = Record([("copi", 1), ("cipo", 1), ("clk", 1), ("cs", 1)])
        b = Bench(Top(dut, res))
        sp = [b.port(x) for x in (res.clk, res.copi, res.cipo, res.cs)]
    else:
        b = Bench(dut)
        s = dut.spi
        sp = [b.port(x) for x in (s.sck, s.sdi, s.sdo, s.cs)]
    idle, stalled = b.port(dut.idle), b.port(dut.stalled)
    log = []
    for a, r in model.items():
        for k in ("rs", "ws", "wsig", "read", "sig"):
            if k in r:
                r["p_" + k] = b.port(r[k])

    def watch():
        for a, r in model.items():
            if "rs" in r and r["p_rs"].get():
                log.append(("r", a))
            if "ws" in r and r["p_ws"].get():
                log.append(("w", a, r["p_wsig"].get() if "wsig" in r else None))

    def readback(r):
        k = r["kind"]
        if k in ("const", "roconst"):
            return r["value"]
        if k in ("mem", "memsize", "memsig"):
            return r["value"]
        if k == "wo":
            return c["default"]
        return r["p_read"].get()
    h = Host(b, *sp, watch, rng)
    h.deselect(6)
    known = list(model)
    for _ in range(c["ops"]):
        for a, r in model.items():
            if "read" in r:
                r["p_read"].set(rng.getrandbits(rsz))
        b.settle()
        half = rng.randint(4, 7)
        write = rng.random() < .5
        a = rng.choice(known) if rng.random() < .85 else rng.getrandbits(asz)
        if rng.random() < .1 and known:
            a = rng.choice(known) ^ (1 << rng.randrange(asz))
        value = rng.choice([0, mask, rng.getrandbits(rsz), rng.getrandbits(rsz)])
        kind = rng.choices(["full", "cut", "surplus"], [6, 3, 2])[0]
        total = 1 + asz + rsz
        cut = rng.randint(0, total - 1) if kind == "cut" else total
        if kind == "cut" and rng.random() < .3:
            cut = total - 1
        r = model.get(a)
        expect = readback(r) if r else c["default"]
        log.clear()
        word = (int(write) << asz | a) << rsz | value
        h.select()
        n1 = min(cut, 1 + asz)
        h.bits(word >> (total - n1), n1, half)
        n2 = max(0, cut - n1) if cut > 1 + asz else 0
        got = h.bits((word & mask) >> (rsz - n2), n2, half) if n2 else 0
        if n2:
            ctx.eq(got, expect >> (rsz - n2), "reply", f"first {n2} bits read from address {a:#x} ({r['kind'] if r else 'unmapped'})")
        if kind == "surplus":
            h.bits(rng.getrandbits(total), rng.choice([1, 8, rsz, total]), half)
            ctx.check(stalled.get(), "stalled", "not stalled although the transaction carried all its bits")
            ctx.ev("surplus")
        h.deselect()
        ctx.check(idle.get() and not stalled.get(), "idle", "not idle after deselection")
        want = []
        if cut == total and r:
            if write:
                if r["kind"] in ("mem", "memsize", "memsig"):
                    r["value"] = value & ((1 << r["size"]) - 1)
                if "ws" in r:
                    want.append(("w", a, value if "wsig" in r else None))
            elif "rs" in r:
                want.append(("r", a))
        ctx.eq(log, want, "strobes", f"strobes for a {'write to' if write else 'read of'} {a:#x} ({r['kind'] if r else 'unmapped'}) with {cut} of {total} bits")
        for a2, r2 in model.items():
            if "sig" in r2:
                ctx.eq(r2["p_sig"].get(), r2["value"], "register", f"register {a2:#x} after a {'write to' if write else 'read of'} {a:#x} with {cut} of {total} bits")
        ctx.ev("aborted" if kind == "cut" else ("writes" if write else "reads"))
        ctx.seen("reg", kind, write, r["kind"] if r else "unmapped", asz, rsz, a, value, cut)
    ctx.sample = dict(case=c, registers={hex(a): r["kind"] for a, r in model.items()})
