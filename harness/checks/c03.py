"""C03: stream-fed UART transmitters (UARTTransmitter, UARTMultibyteTransmitter, bus-attached variant)."""
from ..bench import Bench

RULE = ("A case is a transmitter (plain, multi-byte with 1..6 bytes per word, or bus-attached), a divisor and a word "
        "sequence offered with random gaps; a line monitor decodes every bit cell. A situation is (variant, width, "
        "divisor, byte, back-to-back).")
FLOORS = {"frames": 500, "back_to_back": 50, "words": 200}
ASSUMPTIONS = ["amaranth_soc is replaced by the functional stand-in in /verif/stubs (needed only to import the module and for the bus record)"]


class Line8n1:
    """Online decoder of an 8n1 line that checks the length and level of every cell."""
    def __init__(self, ctx, div):
        self.ctx, self.d = ctx, div
        self.state, self.pos, self.high = "idle", 0, None
        self.bytes = []
        self.cells = []
        self.b2b = 0

    def step(self, v, t):
        d, ctx = self.d, self.ctx
        if self.state == "idle":
            if v == 0:
                self.state, self.pos, self.cells = "frame", 0, []
                self.b2b += self.high == d
                self.high = None
            else:
                if self.high is not None:
                    self.high += 1
                return False
        if self.state == "frame":
            cell, off = divmod(self.pos, d)
            if off == 0:
                self.cells.append(v)
            elif self.cells[-1] != v:
                ctx.fail("cell", f"the line changes {off} cycles into bit cell {cell} (cell length {d})", cycle=t)
            if cell == 9 and v != 1:
                ctx.fail("stop", "stop bit is low", cycle=t, cells=self.cells)
            self.pos += 1
            if self.pos == 10 * d:
                self.bytes.append(sum(bit << i for i, bit in enumerate(self.cells[1:9])))
                self.state, self.high = "idle", d
                ctx.ev("frames")
                return True
        return False

    @property
    def busy(self):
        return self.state == "frame"


def cases(tier, rng):
    out = []
    k = 1 if tier == "quick" else 10
    for kind in ("plain", "multi", "bus"):
        for d in (1, 2, 3, 4, 5, 7, 8, 10, 16, 17, 31, 32, 33, 64, 100):
            for _ in range({"plain": 6, "multi": 8, "bus": 2}[kind] * k):
                out.append(dict(kind=kind, div=d, width=rng.choice([1, 2, 3, 4, 4, 5, 6]) if kind == "multi" else 1,
                                words=rng.randint(4, 12), style=rng.choice(["burst", "gaps", "mixed"])))
    m = 1 if tier == "quick" else 6           # large configurations
    for kind, d, w, n in (("plain", 434, 1, 3), ("plain", 5208, 1, 1), ("plain", 41667, 1, 1), ("plain", 83333, 1, 1), ("multi", 1, 16, 4), ("multi", 2, 40, 3), ("multi", 434, 4, 2), ("bus", 868, 1, 3)):
        out += [dict(kind=kind, div=d, width=w, words=n, style=rng.choice(["burst", "gaps", "mixed"])) for _ in range(m)]
    return out


def run_case(c, ctx):
    from amlib.stream.uart import UARTTransmitter, UARTMultibyteTransmitter, UARTTransmitterPeripheral
    rng = ctx.rng
    d, nb = c["div"], c["width"]
    if c["kind"] == "plain":
        dut = UARTTransmitter(divisor=d)
        ctx.eq(len(dut.stream.payload), 8, "width", "payload width")
    elif c["kind"] == "multi":
        dut = UARTMultibyteTransmitter(byte_width=nb, divisor=d)
        ctx.eq(len(dut.stream.payload), 8 * nb, "width", "payload width")
    else:
        dut = UARTTransmitterPeripheral(divisor=d)
    b = Bench(dut)
    tx = b.port(dut.tx)
    if c["kind"] == "bus":
        valid = [b.port(dut.bus.cyc), b.port(dut.bus.stb), b.port(dut.bus.we)]
        payload, ready, idle, driving = b.port(dut.bus.dat_w), b.port(dut.bus.ack), None, None
    else:
        valid = [b.port(dut.stream.valid)]
        payload, ready, idle = b.port(dut.stream.payload), b.port(dut.stream.ready), b.port(dut.idle)
        driving = b.port(dut.driving) if c["kind"] == "plain" else None
    mon = Line8n1(ctx, d)
    words = [rng.choice([0, (1 << 8 * nb) - 1, rng.getrandbits(8 * nb), rng.getrandbits(8 * nb), rng.getrandbits(8 * nb)]) for _ in range(c["words"])]
    want = []
    wi, gap, t = 0, rng.randint(0, 5), 0
    limit = len(words) * (nb * 10 * d + 40 * d + 100) + 1000
    quiet = 0
    stall = 0
    while not (wi == len(words) and len(mon.bytes) == nb * len(words) and quiet > 12 * d + 20):
        offer = wi < len(words) and gap <= 0
        if c["kind"] == "bus":
            # a bus write needs all three of cycle, strobe and write enable
            lv = [1, 1, 1] if offer else rng.choice([[0, 0, 0], [1, 0, 1], [0, 1, 1], [1, 1, 0]])
        else:
            lv = [int(offer)]
        for p, v in zip(valid, lv):
            p.set(v)
        payload.set(words[wi] if offer else rng.getrandbits(8 * nb))
        b.settle()
        before = mon.busy
        fin = mon.step(tx.get(), t)
        inframe = mon.busy or fin
        if inframe:
            quiet = 0
        else:
            quiet += 1
        if len(mon.bytes) > len(want):
            ctx.fail("spurious", "a byte was transmitted that was never accepted", sent=mon.bytes, accepted=want)
        if fin:
            k = len(mon.bytes) - 1
            ctx.eq(mon.bytes[k], want[k], "data", f"byte {k % nb} of word {words[k // nb]:#x} on the line")
            ctx.seen(c["kind"], nb, d, mon.bytes[k], mon.b2b > 0)
        if driving is not None:
            ctx.eq(driving.get(), int(inframe), "driving", "the drive-enable output versus a frame being on the line")
            ctx.eq(idle.get(), int(not inframe), "idle", "the idle output versus no frame being on the line")
        gap -= 1
        if offer and ready.get():
            want += [(words[wi] >> (8 * i)) & 255 for i in range(nb)]
            wi += 1
            stall = 0
            ctx.ev("words")
            gap = {"burst": 0, "gaps": rng.randint(0, 15 * d * nb), "mixed": rng.choice([0, 0, rng.randint(0, 25 * d)])}[c["style"]]
        elif offer:
            stall += 1
            ctx.check(stall <= (nb + 2) * 10 * d + 50, "not-ready", "the transmitter stopped accepting words")
        b.tick()
        t += 1
        if t >= limit:
            ctx.fail("lost", "accepted words were not all transmitted", accepted=want, sent=mon.bytes)
    for p in valid:
        p.set(0)
    b.settle()
    ctx.check(tx.get() == 1, "idle-low", "the line does not idle high")
    if idle is not None:
        ctx.check(idle.get() == 1 and ready.get() == 1, "idle", "not idle and ready after everything was sent")
    ctx.ev("back_to_back", mon.b2b)
    if c["style"] == "burst" and c["kind"] == "plain" and d > 1:
        ctx.eq(mon.b2b, len(words) - 1, "gap", "frames sent without a gap while data was continuously available")
    ctx.sample = dict(case=c, words=[hex(w) for w in words[:3]])
