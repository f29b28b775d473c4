"""C56: whole links - modules of the package connected to each other carry every message end to end."""
import contextlib
import io
from amaranth import DomainRenamer, Elaboratable, Module, Signal
from amaranth.lib.fifo import SyncFIFO
from ..bench import Bench
from ..i2clib import Pads
from ..i2s import I2SClock

RULE = ("A case is a system built only from modules of the package: generators, arbiter, FIFO, UART transmitter and receiver (the receiver on its own, slightly different clock); "
        "an SPI controller, the multiplexer and a bank of register interfaces; an I2C stream transmitter and several targets; a chain of I2S links. "
        "What comes out is compared with what was put in. A situation is (system, configuration, message).")
FLOORS = {"systems": 80, "uart_bytes": 700, "register_reads": 250, "register_writes": 150, "i2c_packets": 120, "i2c_octets": 200, "i2s_samples": 250}
ASSUMPTIONS = ["serial: divisor at least 10 and clocks that differ by at most 1 %", "SPI: divisor at least 12", "I2C: at least 32 cycles per bit; I2S: bit clock at least ten times slower than the system clock, slots two bits longer than a word"]


def cases(tier, rng):
    k = 1 if tier == "quick" else 10
    return [dict(mod=m, i=i) for m, n in [("line", 30), ("multi", 12), ("bank", 30), ("packets", 24), ("audio", 24)] for i in range(n * k)]


def run_case(c, ctx):
    ctx.ev("systems")
    with contextlib.redirect_stdout(io.StringIO()):
        globals()["do_" + c["mod"]](c, ctx, ctx.rng)
    ctx.sample = dict(case=c)


class Two:
    """Two clocks whose rates differ by up to a given fraction."""
    def __init__(self, b, r, off):
        self.b, self.rate, self.acc = b, 1 + r.choice([0, off, -off, r.uniform(-off, off)]), r.random()

    def tick(self, before_far):
        self.acc += self.rate
        self.b.tick("sync")
        while self.acc >= 1:
            self.acc -= 1
            before_far()
            self.b.tick("far")


def taker(b, rx, got, ctx):
    """The user of a serial receiver, called before every edge of its clock; every word is acknowledged at once."""
    b.set(rx.ack, 1)

    def take():
        b.settle()
        if b.get(rx.rdy):
            got.append(b.get(rx.data))
            ctx.ev("uart_bytes")
            ctx.check(not (b.get(rx.err.overflow) or b.get(rx.err.frame) or b.get(rx.err.parity)), "line-error", f"the receiver reports an error (overflow, frame, parity): {[b.get(x) for x in (rx.err.overflow, rx.err.frame, rx.err.parity)]} for byte {len(got)}: {got[-1]}")
    return take




def do_line(c, ctx, r):
    from amlib.io.serial import AsyncSerialRX
    from amlib.stream import StreamInterface, connect_fifo_to_stream, connect_stream_to_fifo
    from amlib.stream.arbiter import StreamArbiter
    from amlib.stream.generator import ConstantStreamGenerator, PacketListStreamer, StreamSerializer
    from amlib.stream.uart import UARTTransmitter
    div = r.choice([10, 11, 16, 33])
    rnd = lambda n: [r.getrandbits(8) for _ in range(n)]
    const = rnd(r.choice([1, 4, 9]))
    plist = [rnd(r.choice([1, 2, 5])) for _ in range(r.choice([1, 3]))]
    n_ser = r.choice([1, 2, 6])
    depth = r.choice([2, 5, 16])
    gens = [ConstantStreamGenerator(bytes(const)), PacketListStreamer([bytes(x) for x in plist]), StreamSerializer(n_ser)]
    arb, tx, rx = StreamArbiter(), UARTTransmitter(divisor=div), AsyncSerialRX(divisor=div)
    for g in gens:
        arb.add_stream(g.stream)
    m = Module()
    m.submodules.g0, m.submodules.g1, m.submodules.g2 = gens
    m.submodules.arb, m.submodules.tx, m.submodules.rx = arb, tx, DomainRenamer("far")(rx)
    m.submodules.fifo = f = SyncFIFO(width=10, depth=depth)
    m.d.comb += connect_stream_to_fifo(arb.source, f, 8, 9) + connect_fifo_to_stream(f, tx.stream, 8, 9) + [rx.i.eq(tx.tx)]
    b = Bench(m, ("sync", "far"))
    t = Two(b, r, .01)
    got = []
    take = taker(b, rx, got, ctx)

    def cyc():
        t.tick(take)
    for _ in range(3 * div):
        cyc()
    for round in range(5):
        vals = rnd(n_ser)
        for p, v in zip(gens[2].data, vals):
            b.set(p, v)
        which = r.choice([(0,), (1,), (2,), (0, 1), (1, 2), (0, 2), (0, 1, 2)])
        msg = [const, [x for p in plist for x in p], vals]
        # the arbiter may change between sources only when the active one pauses: the packet list pauses between packets
        units = {0: [const], 1: plist, 2: [vals]}
        for k in which:
            b.set(gens[k].start, 1)
        cyc()
        for k in which:
            b.set(gens[k].start, 0)
        total = sum(len(msg[k]) for k in which)
        got.clear()
        lim = (total + 4) * 10.3 * div + 100
        n = 0
        while len(got) < total and n < lim:
            cyc()
            n += 1
        for _ in range(12 * div):
            cyc()
        ctx.check(tuple(got) in merges([[tuple(x) for x in units[k]] for k in which]), "line",
                  f"UART link with clocks {t.rate:.4f}: {got} received for {[units[k] for k in which]}")
        ctx.seen("line", div, depth, which, tuple(got))


def merges(queues):
    """All orders in which whole units of several queues can be sent."""
    out, todo = set(), [((), tuple(tuple(q) for q in queues))]
    while todo:
        pre, qs = todo.pop()
        if not any(qs):
            out.add(pre)
        for i, q in enumerate(qs):
            if q:
                todo.append((pre + q[0], qs[:i] + (q[1:],) + qs[i + 1:]))
    return out


def do_multi(c, ctx, r):
    """Words split up by the multi-byte transmitter, read back by the receiver of a transceiver."""
    from amlib.io.serial import AsyncSerial
    from amlib.stream.uart import UARTMultibyteTransmitter
    div, w = r.choice([10, 13, 20]), r.choice([1, 2, 3, 4, 6])
    tx, se = UARTMultibyteTransmitter(byte_width=w, divisor=div), AsyncSerial(divisor=div)
    m = Module()
    m.submodules.tx, m.submodules.se = tx, DomainRenamer("far")(se)
    m.d.comb += se.rx.i.eq(tx.tx)
    b = Bench(m, ("sync", "far"))
    t = Two(b, r, .01)
    s = tx.stream
    words = [r.getrandbits(8 * w) for _ in range(max(3, 24 // w))]
    want = [x >> 8 * k & 255 for x in words for k in range(w)]
    got, k, gap, n = [], 0, 2, 0
    take = taker(b, se.rx, got, ctx)
    while len(got) < len(want):
        gap -= 1
        go = k < len(words) and gap <= 0
        b.set(s.valid, go)
        b.set(s.payload, words[k] if go else r.getrandbits(8 * w))
        b.settle()
        if go and b.get(s.ready):
            k += 1
            gap = r.choice([0, 0, 5, 12 * div * w])
        t.tick(take)
        n += 1
        ctx.check(n < (len(want) + 8) * 24 * div + 1000, "multi", f"only {len(got)} of {len(want)} bytes arrive", got=got, want=want)
    ctx.eq(got, want, "multi", f"bytes of words of {w} bytes received (clocks {t.rate:.4f})")
    ctx.seen("multi", div, w, tuple(words))


class Bank(Elaboratable):
    def __init__(self, ctl, devs):
        self.ctl, self.devs, self.sel = ctl, devs, Signal(range(len(devs)))

    def elaborate(self, platform):
        from amlib.io.spi import SPIMultiplexer
        m = Module()
        m.submodules.ctl = self.ctl
        m.submodules += self.devs
        m.submodules.mux = mux = SPIMultiplexer([d.spi for d in self.devs])
        s = self.ctl.spi
        m.d.comb += [mux.shared_lines.sck.eq(s.sck), mux.shared_lines.sdi.eq(s.sdo), s.sdi.eq(mux.shared_lines.sdo)]
        m.d.comb += [d.spi.cs.eq(s.cs & (self.sel == k)) for k, d in enumerate(self.devs)]
        return m


def do_bank(c, ctx, r):
    from amlib.io.spi import SPIControllerInterface, SPIRegisterInterface
    asz, rsz, n = r.choice([3, 7, 15]), r.choice([8, 12, 16, 32]), r.choice([1, 2, 3])
    div, default = r.choice([12, 16, 20]), r.getrandbits(rsz)
    w = 1 + asz + rsz
    devs, model = [], []
    for _ in range(n):
        d = SPIRegisterInterface(address_size=asz, register_size=rsz, default_read_value=default)
        regs = {}
        for a in r.sample(range(1, 1 << asz), 3):
            regs[a] = r.getrandbits(rsz)
            d.add_register(a, reset=regs[a])
        devs.append(d)
        model.append(regs)
    ctl = SPIControllerInterface(word_size=w, divisor=div, clock_polarity=0, clock_phase=1)
    top = Bank(ctl, devs)
    b = Bench(top)
    for _ in range(10):
        b.tick()
    for _ in range(20):
        k = r.randrange(n)
        a = r.choice(list(model[k])) if r.random() < .8 else r.randrange(1, 1 << asz)
        wr, v = r.getrandbits(1), r.choice([0, (1 << rsz) - 1, r.getrandbits(rsz), r.getrandbits(rsz)])
        b.set(top.sel, k)
        b.set(ctl.word_out, wr << (asz + rsz) | a << rsz | v)
        for _ in range(r.randint(4, 12)):
            b.tick()
        b.set(ctl.start_transfer, 1)
        b.tick()
        b.set(ctl.start_transfer, 0)
        t = 0
        b.settle()
        while not b.get(ctl.word_complete):
            b.tick()
            t += 1
            ctx.check(t < (w + 6) * div + 60, "bank-stuck", "a transfer never completes")
        back = b.get(ctl.word_in) & (1 << rsz) - 1
        for _ in range(r.randint(6, 12)):
            b.tick()
        what = f"register {a:#x} of device {k} of {n} (address {asz}, register {rsz} bits, divisor {div})"
        if wr:
            if a in model[k]:
                model[k][a] = v
            ctx.ev("register_writes")
        else:
            ctx.eq(back, model[k].get(a, default), "bank", f"read of {what}")
            ctx.ev("register_reads")
        ctx.seen("bank", asz, rsz, n, k, wr, v)
    for k in range(n):
        for a, v in model[k].items():
            b.set(top.sel, k)
            b.set(ctl.word_out, a << rsz)
            for _ in range(6):
                b.tick()
            b.set(ctl.start_transfer, 1)
            b.tick()
            b.set(ctl.start_transfer, 0)
            for _ in range((w + 6) * div + 60):
                if b.get(ctl.word_complete):
                    break
                b.tick()
            ctx.eq(b.get(ctl.word_in) & (1 << rsz) - 1, v, "bank", f"register {a:#x} of device {k} of {n} at the end")
            ctx.ev("register_reads")
            for _ in range(6):
                b.tick()


def do_packets(c, ctx, r):
    from amlib.io.i2c import I2CTarget
    from amlib.stream.i2c import I2CStreamTransmitter
    n = r.choice([1, 2, 3])
    pads = [Pads() for _ in range(n + 1)]
    m = Module()
    m.submodules.tx = tx = I2CStreamTransmitter(pads[0].given(r), r.choice([32, 40, 64]), clk_stretch=r.random() < .5, fifo_depth=r.choice([2, 4, 8]))
    tg = [I2CTarget(p.given(r)) for p in pads[1:]]
    m.submodules += tg
    b = Bench(m)
    addrs = r.sample(range(128), n)
    if n > 1 and r.random() < .5:
        addrs[1] = addrs[0] ^ 1 << r.randrange(7)
    lines = [(b.port(p.scl_t.i), b.port(p.sda_t.i), b.port(p.scl_t.oe), b.port(p.sda_t.oe), b.port(p.scl_t.o), b.port(p.sda_t.o)) for p in pads]
    packets = [(r.randrange(n), [r.getrandbits(8) for _ in range(r.choice([1, 1, 2, 5]))]) for _ in range(6)]
    items = []
    for k, data in packets:
        o = [addrs[k] << 1] + data
        items += [(x, i == 0, i == len(o) - 1) for i, x in enumerate(o)]
    for t, a in zip(tg, addrs):
        b.set(t.address, a)
        b.set(t.ack_o, 0)
    s = tx.stream_in
    logs = [[] for _ in tg]
    acks = [r.random() < .7 for _ in tg]
    i, gap, quiet, cyc = 0, 4, 0, 0
    want = [[] for _ in tg]
    for k, data in packets:
        want[k] += [("start",)] + [("write", x) for x in data] + [("stop",)]
    while quiet < 1500:
        gap -= 1
        go = i < len(items) and gap <= 0
        b.set(s.valid, go)
        v = items[i] if go else (r.getrandbits(8), r.getrandbits(1), r.getrandbits(1))
        b.set(s.payload, v[0]); b.set(s.first, v[1]); b.set(s.last, v[2])
        b.settle()
        if go and b.get(s.ready):
            i += 1
            gap = r.choice([0, 0, 0, 3, 900])
        scl = 0 if any(x[2].get() and not x[4].get() for x in lines) else 1
        sda = 0 if any(x[3].get() and not x[5].get() for x in lines) else 1
        for x in lines:
            x[0].set(scl)
            x[1].set(sda)
        b.settle()
        quiet += 1
        for t, log, ack in zip(tg, logs, acks):
            wr = b.get(t.write)
            b.set(t.ack_o, wr and ack)
            for e in ("start", "stop", "restart", "read"):
                if b.get(getattr(t, e)):
                    log.append((e,))
                    quiet = 0
            if wr:
                log.append(("write", b.get(t.data_i)))
                ctx.ev("i2c_octets")
                quiet = 0
        b.tick()
        cyc += 1
        ctx.check(cyc < 200000, "packets", "the bus never becomes quiet")
        if i < len(items):
            quiet = 0
    for k in range(n):
        ctx.eq(logs[k], want[k], "packets", f"what target {k} of {n} (address {addrs[k]:#x}) sees of the packets")
    ctx.ev("i2c_packets", len(packets))
    ctx.seen("packets", tuple(addrs), tuple(x[0] for x in items))


def do_audio(c, ctx, r):
    """Samples pass two links in a row, all four ends on one bit clock."""
    from amlib.io.i2s import I2SReceiver, I2STransmitter
    W = r.choice([8, 16, 24, 32, 20])
    S = W + r.choice([2, 3, 8])
    m = Module()
    t1, r1, t2, r2 = I2STransmitter(sample_width=W), I2SReceiver(sample_width=W), I2STransmitter(sample_width=W), I2SReceiver(sample_width=W)
    m.submodules += [t1, r1, t2, r2]
    m.d.comb += [r1.serial_data_in.eq(t1.serial_data_out), r2.serial_data_in.eq(t2.serial_data_out), t2.stream_in.stream_eq(r1.stream_out)]
    b = Bench(m)
    clk = I2SClock(r, S, r.choice([5, 7]), "STD", True)
    N = 16
    vals = [r.choice([0, (1 << W) - 1, r.getrandbits(W), r.getrandbits(W)]) | 1 for _ in range(N)]
    i, got = 0, []
    s, o = t1.stream_in, r2.stream_out
    b.set(o.ready, 1)
    ports = [(b.port(x.word_select_in), b.port(x.serial_clock_in), b.port(x.enable_in)) for x in (t1, r1, t2, r2)]
    n = 0
    while clk.n < 2 * N + 10:
        n += 1
        if n > 40:
            clk.step()
            # the second link starts when the first samples are waiting
            for j, p in enumerate(ports):
                p[0].set(clk.ws)
                p[1].set(clk.sck)
                p[2].set(1 if j < 2 or clk.n >= 6 else 0)
        b.set(s.valid, i < N)
        b.set(s.payload, vals[i] if i < N else 0)
        b.set(s.first, i % 2 == 0)
        b.set(s.last, i % 2 == 1)
        b.settle()
        if i < N and b.get(s.ready):
            i += 1
        if b.get(o.valid):
            got.append((b.get(o.payload), b.get(o.first), b.get(o.last)))
        b.tick()
    want = [(v, int(k % 2 == 0), int(k % 2 == 1)) for k, v in enumerate(vals)]
    # before the samples arrive the second link carries zero words
    k = next((k for k, g in enumerate(got) if g[0]), 0)
    ctx.eq(got[k:k + N], want, "audio", f"samples (value, first, last) of {W} bits in slots of {S} after two links")
    ctx.ev("i2s_samples", N)
    ctx.seen("audio", W, S, tuple(vals))
