"""C42: readout of the logic analyser - every capture is transported completely and in order, over stream, UART and SPI."""
from ..bench import Bench
from .c41 import make_signals, pack

RULE = ("A case is an analyser with a readout (stream, possibly into another clock domain; UART; SPI with any clock mode and select polarity) watching randomly changing "
        "signals; it is triggered several times (also while capturing or sending) and drained with random flow control, line decoding or SPI reads (complete, aborted, repeated); "
        "what arrives is compared with the recorded history. A situation is (kind, width, depth, pretrigger, flow control, capture number).")
FLOORS = {"stream_captures": 150, "stream_words": 3000, "crossed_words": 800, "uart_samples": 80, "spi_samples": 400, "spi_aborted": 20, "held": 1000, "waiting_consumer": 30}
ASSUMPTIONS = ["amaranth_soc is replaced by the stand-in in /verif/stubs (needed only to import the UART module)"]


def cases(tier, rng):
    out = []
    n = 1 if tier == "quick" else 12
    for i in range(90 * n):
        out.append(dict(kind="stream", domain=rng.choice(["sync", "fast"]), o_domain=rng.choice([None, None, "sync", "fast", "out"]), depth=rng.choice([1, 2, 3, 8, 12, 16, 31, 40]),
                        pre=rng.choice([0, 1, 1, 2, 4]), en=rng.random() < .3, captures=4))
    for i in range(16 * n):
        out.append(dict(kind="uart", domain=rng.choice(["sync", "fast"]), depth=rng.choice([2, 5, 8]), pre=rng.choice([0, 1, 3]), en=False, captures=2, div=rng.choice([2, 3, 5])))
    for i in range(50 * n):
        out.append(dict(kind="spi", domain=rng.choice(["sync", "fast"]), depth=rng.choice([2, 4, 5, 8, 16]), pre=rng.choice([0, 1, 3]), en=rng.random() < .3, captures=2,
                        pol=rng.getrandbits(1), pha=rng.getrandbits(1), cs_high=rng.random() < .4))
    m = 1 if tier == "quick" else 8           # long histories
    out += [dict(kind="stream", domain="sync", o_domain=None, depth=rng.choice([1, 2, 3]), pre=1, en=False, captures=330) for i in range(2 * m)]
    out += [dict(kind="spi", domain="sync", depth=2, pre=1, en=False, captures=50, pol=0, pha=1, cs_high=False) for i in range(m)]
    out += [dict(kind="uart", domain="sync", depth=2, pre=1, en=False, captures=50, div=2) for i in range(m)]
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(kind="stream", domain="sync", o_domain=None, depth=d, pre=p, en=False, captures=2) for d, p in ((64, 1), (100, 20), (256, 2), (300, 0), (600, 1), (1100, 1)) for _ in range(m)]
    out += [dict(kind="spi", domain="sync", depth=d, pre=1, en=False, captures=1, pol=0, pha=1, cs_high=False) for d in (40, 70, 150, 300) for _ in range(m)]
    out += [dict(kind="uart", domain="sync", depth=d, pre=1, en=False, captures=1, div=2) for d in (33, 70, 130, 280) for _ in range(m)]
    return out


class Watch:
    """Drives the watched signals of the analyser randomly and records what a capture must contain."""
    def __init__(self, c, rng, b, dut, sigs):
        self.c, self.rng, self.b, self.sigs = c, rng, b, sigs
        self.S = [b.port(s) for s in sigs]
        self.T = b.port(dut.trigger)
        self.EN = b.port(dut.enable) if c["en"] else None
        self.hist = []
        self.drive()

    def drive(self):
        self.vals = [self.rng.getrandbits(len(s)) for s in self.sigs]
        for p, v in zip(self.S, self.vals):
            p.set(v)
        self.e = 1
        if self.EN is not None:
            self.e = int(self.rng.random() < .8)
            self.EN.set(self.e)

    def ticked(self):
        """to be called right after each clock edge of the analyser's domain"""
        self.hist.append((pack(self.vals, self.sigs), self.e))
        self.drive()

    def want(self, t0):
        return [v for i, (v, e) in enumerate(self.hist) if e and i >= t0 - self.c["pre"]][:self.c["depth"]]


def build(c, rng, dut):
    from amaranth import Module, ClockDomain, Signal
    m = Module()
    for d in ("sync", "fast", "out"):
        m.domains += ClockDomain(d)
        x = Signal(name="keep_" + d)
        m.d[d] += x.eq(~x)
    m.submodules.dut = dut
    return Bench(m, domains=("sync", "fast", "out"))


def kwargs(c):
    kw = dict(sample_depth=c["depth"], samples_pretrigger=c["pre"], with_enable=c["en"])
    if c["domain"] != "sync":
        kw["domain"] = c["domain"]
    return kw


def run_case(c, ctx):
    return dict(stream=run_stream, uart=run_uart, spi=run_spi)[c["kind"]](c, ctx)


def run_stream(c, ctx):
    from amlib.debug.ila import StreamILA
    rng = ctx.rng
    sigs = make_signals(rng)
    kw = kwargs(c)
    if c["o_domain"]:
        kw["o_domain"] = c["o_domain"]
    dut = StreamILA(signals=sigs, **kw)
    b = build(c, rng, dut)
    w = Watch(c, rng, b, dut, sigs)
    dom, odom = c["domain"], c["o_domain"] or c["domain"]
    st = dut.stream
    V, R, F, L, P = (b.port(x) for x in (st.valid, st.ready, st.first, st.last, st.payload))
    CPL = b.port(dut.complete)
    ctx.check(dut.bits_per_sample >= dut.sample_width and len(st.payload) == dut.bits_per_sample, "width", "stream too narrow for a sample")
    ratio = rng.choice([.3, .5, .7])
    style = None

    def step():
        """one clock edge; returns the word accepted by the consumer in this edge, if any"""
        if dom == odom:
            edges = (dom,)
        else:
            edges = rng.choices([(dom,), (odom,), (dom, odom)], [ratio, 1 - ratio, .1])[0]
        got = None
        b.settle()
        if odom in edges:
            v = V.get()
            if style == "wait":
                r = int(v and rng.random() < .6)
            else:
                r = int(rng.random() < style)
            R.set(r)
            b.settle()
            ctx.check(V.get() == v, "valid-depends", "valid changes with ready")
            v = V.get()
            now = (F.get(), L.get(), P.get()) if v else None
            if step.held is not None:
                ctx.eq(now, step.held, "held", "a valid word before it was accepted")
                ctx.ev("held")
            step.held = now if v and not r else None
            if v and r:
                got = now
        b.tick(*edges)
        if dom in edges:
            w.ticked()
        return got, edges
    step.held = None
    for k in range(c["captures"]):
        style = rng.choice(["wait", 1, .5, .2])
        n = 0
        while n < c["pre"] * 2 + 16 + rng.randint(0, 10):
            w.T.set(0)
            got, e = step()
            ctx.check(got is None, "spurious", "a word was sent without a capture")
            n += dom in e
        w.T.set(1)
        while True:
            got, e = step()
            ctx.check(got is None, "spurious", "a word was sent before the capture")
            if dom in e:
                break
        t0 = len(w.hist) - 1
        words, limit = [], 400 * c["depth"] + 3000
        noisy = rng.random() < .5
        while len(words) < c["depth"]:
            # triggers while capturing and sending do nothing (not near the end, after which they would count)
            w.T.set(int(noisy and len(words) < c["depth"] - 1 and rng.random() < .2 and (dom == odom or len(words) + 24 < c["depth"])))
            got, e = step()
            limit -= 1
            ctx.check(limit > 0, "stuck", f"only {len(words)} of {c['depth']} samples of capture {k} were sent (consumer: {style})")
            if got is not None:
                words.append(got)
        w.T.set(0)
        want = w.want(t0)
        ctx.eq(CPL.get(), 1, "complete", "complete while sending")
        ctx.eq([x[2] for x in words], want, "samples", f"samples streamed for capture {k} (depth {c['depth']}, pretrigger {c['pre']}, domains {dom} -> {odom})")
        ctx.eq([x[0] for x in words], [1] + [0] * (c["depth"] - 1), "first", "first markers of the packet")
        ctx.eq([x[1] for x in words], [0] * (c["depth"] - 1) + [1], "last", "last markers of the packet")
        for _ in range(60):
            got, e = step()
            ctx.check(got is None, "extra", "words were sent after the end of the capture")
        ctx.ev("stream_captures")
        ctx.ev("stream_words", len(words))
        ctx.ev("waiting_consumer", int(style == "wait"))
        if dom != odom:
            ctx.ev("crossed_words", len(words))
        ctx.seen("stream", dut.sample_width, c["depth"], c["pre"], style, k)
    ctx.sample = dict(case=c, width=dut.sample_width)


def run_uart(c, ctx):
    from amlib.debug.ila import AsyncSerialILA
    rng = ctx.rng
    sigs = make_signals(rng)
    dut = AsyncSerialILA(signals=sigs, divisor=c["div"], **kwargs(c))
    b = build(c, rng, dut)
    w = Watch(c, rng, b, dut, sigs)
    dom, d = c["domain"], c["div"]
    TX = b.port(dut.tx)
    nbytes = dut.bytes_per_sample
    ctx.check(nbytes * 8 >= dut.sample_width, "width", "too few bytes for a sample")
    line = []

    def step():
        b.settle()
        line.append(TX.get())
        b.tick(dom)
        w.ticked()
    for k in range(c["captures"]):
        for _ in range(c["pre"] + 20):
            step()
        ctx.check(all(line[-12:]), "idle", "line not idle before the trigger")
        w.T.set(1)
        step()
        w.T.set(0)
        t0 = len(w.hist) - 1
        del line[:]
        for _ in range(c["depth"] * (nbytes * 10 * d + 12) + 60 + c["pre"]):
            step()
        data, i = [], 0
        while i < len(line):
            if line[i]:
                i += 1
                continue
            cells = line[i:i + 10 * d]
            ctx.check(len(cells) == 10 * d, "frame", "a frame is not finished in time")
            bits = [cells[j * d:(j + 1) * d] for j in range(10)]
            ctx.check(all(len(set(x)) == 1 for x in bits) and bits[9][0] == 1, "frame", "malformed frame on the line")
            data.append(sum(bits[1 + j][0] << j for j in range(8)))
            i += 10 * d
        ctx.eq(len(data), c["depth"] * nbytes, "count", "bytes sent for a capture")
        got = [int.from_bytes(bytes(data[j:j + nbytes]), "little") for j in range(0, len(data), nbytes)]
        ctx.eq(got, w.want(t0), "samples", f"samples sent by UART for capture {k}")
        ctx.ev("uart_samples", len(got))
        ctx.seen("uart", dut.sample_width, c["depth"], c["pre"], d, k)
    ctx.sample = dict(case=c, width=dut.sample_width)


def run_spi(c, ctx):
    from amlib.debug.ila import SyncSerialILA
    rng = ctx.rng
    sigs = make_signals(rng)
    kw = kwargs(c)
    if (c["pol"], c["pha"]) != (0, 1) or rng.random() < .5:
        kw.update(clock_polarity=c["pol"], clock_phase=c["pha"])
    if c["cs_high"]:
        kw["cs_idles_high"] = True
    dut = SyncSerialILA(signals=sigs, **kw)
    b = build(c, rng, dut)
    w = Watch(c, rng, b, dut, sigs)
    dom = c["domain"]
    SCK, SDO, CS, CPL = (b.port(x) for x in (dut.spi.sck, dut.spi.sdo, dut.spi.cs, dut.complete))
    on, off = (0, 1) if c["cs_high"] else (1, 0)
    CS.set(off)
    SCK.set(c["pol"])
    bps = dut.bits_per_sample
    ctx.check(bps >= dut.sample_width and bps % 32 == 0, "width", "sample words are not made of 32 bit words")

    def step(n=1):
        for _ in range(n):
            b.tick(dom)
            w.ticked()

    def read(nbits):
        half = rng.randint(5, 9)
        CS.set(on)
        step(rng.randint(6, 20))
        bits = []
        for _ in range(nbits):
            if c["pha"]:
                SCK.set(1 - c["pol"])
                step(half)
                bits.append(SDO.get())
                SCK.set(c["pol"])
                step(half)
            else:
                bits.append(SDO.get())
                SCK.set(1 - c["pol"])
                step(half)
                SCK.set(c["pol"])
                step(half)
        step(rng.randint(5, 10))
        CS.set(off)
        step(rng.randint(8, 20))
        return bits
    for k in range(c["captures"]):
        step(c["pre"] * 2 + 20)
        w.T.set(1)
        step()
        w.T.set(0)
        t0 = len(w.hist) - 1
        n = 0
        b.settle()
        while not CPL.get():
            step()
            b.settle()
            n += 1
            ctx.check(n < 20 * c["depth"] + 200, "stuck", "capture does not complete")
        want = w.want(t0)
        for r in range(rng.choice([1, 2])):
            if rng.random() < .5:
                read(rng.randint(1, bps * min(3, c["depth"])))       # cut short: the next one starts at the first sample again
                ctx.ev("spi_aborted")
            m = c["depth"] if rng.random() < .7 else rng.randint(1, c["depth"])
            bits = read(m * bps)
            got = [int("".join(map(str, bits[j * bps:(j + 1) * bps])), 2) for j in range(m)]
            ctx.eq(got, want[:m], "samples", f"samples read by SPI for capture {k} (mode {c['pol']}{c['pha']}, read {r})")
            ctx.ev("spi_samples", m)
            ctx.seen("spi", dut.sample_width, c["depth"], c["pre"], c["pol"], c["pha"], k)
    ctx.sample = dict(case=c, width=dut.sample_width)
