"""C02: asynchronous serial receiver (AsyncSerialRX)."""
from ..bench import Bench
from amaranth import Record
from .c01 import PAR, parity_bit

RULE = ("A case is a receiver configuration fed with a random frame sequence: good frames, wrong parity, missing "
        "stop bit, false start, and frames completing while the consumer withholds its acknowledge; a scoreboard "
        "compares every delivered word and error flag. A situation is (config, kind of frame, word, gap class).")
FLOORS = {"delivered": 200, "parity_errors": 20, "frame_errors": 20, "overflows": 20, "false_starts": 5}


def cases(tier, rng):
    n = 600 if tier == "quick" else 8000
    out = []
    for d in (5, 6, 7, 8, 16):
        for p in PAR:
            out.append(dict(div=d, run=None, bits=8, par=p, pins=rng.random() < .3, frames=14))
    for _ in range(n):
        d = rng.choice([5, 6, 7, 9, 10, 16, 31, 64, rng.randint(5, 120)])
        out.append(dict(div=d, run=rng.randint(5, 60) if rng.random() < .4 else None,
                        bits=rng.choice([1, 3, 5, 7, 8, 9, 12, 16]), par=rng.choice(PAR), pins=rng.random() < .3,
                        frames=14 if tier == "quick" else 30))
    for i in range(6 if tier == "quick" else 40):          # long histories, with changes of the divisor while the line is idle
        out.append(dict(div=rng.choice([5, 6, 9]), run=rng.choice([None, 5, 8]), bits=rng.choice([3, 5, 8]), par=rng.choice(PAR), pins=rng.random() < .3, frames=400))
    for i in range(80 if tier == "quick" else 800):
        out.append(dict(loop=True, div=rng.randint(5, 40), bits=rng.choice([5, 7, 8, 9]), par=rng.choice(PAR), pins=False, frames=12, run=None))
    m = 1 if tier == "quick" else 6           # large configurations
    for d, w in ((217, 8), (434, 5), (868, 4), (5208, 1), (10417, 1), (41667, 1)):
        out += [dict(div=d, run=None, bits=rng.choice([8, 24, 32]) if d < 500 else 8, par=rng.choice(PAR), pins=rng.random() < .3, frames=w) for _ in range(m)]
    out.append(dict(div=rng.randint(65540, 83333), run=None, bits=2, par=rng.choice(PAR), pins=False, frames=1))
    return out


def run_case(c, ctx):
    if c.get("loop"):
        return loopback(c, ctx)
    from amlib.io.serial import AsyncSerialRX, AsyncSerial
    rng = ctx.rng
    kw = dict(divisor=c["div"], data_bits=c["bits"], parity=c["par"])
    if c["run"] is not None:
        kw["divisor_bits"] = 8
    pins = Record([("rx", [("i", 1)]), ("tx", [("o", 1)])]) if c["pins"] else None
    if pins is not None:
        kw["pins"] = pins
    pair = rng.random() < .3
    dut = AsyncSerial(**kw) if pair else AsyncSerialRX(**kw)
    rx = dut.rx if pair else dut
    b = Bench(dut)
    line = b.port(pins.rx.i if pins is not None else rx.i)
    rdy, ack, data, div = b.port(rx.rdy), b.port(rx.ack), b.port(rx.data), b.port(dut.divisor)
    eo, ef, ep = b.port(rx.err.overflow), b.port(rx.err.frame), b.port(rx.err.parity)
    d = c["run"] or c["div"]
    line.set(1)
    div.set(d)
    ackv = [1]
    got = []
    junk = [False]
    prev = [None]

    def cycle(v):
        line.set(v)
        ack.set(ackv[0])
        b.settle()
        if rdy.get() and ackv[0]:
            got.append((data.get(), ef.get(), ep.get(), eo.get(), b.cycle))
        b.tick()

    def drive(v, n):
        for _ in range(n):
            cycle(v)

    drive(1, rng.randint(3, 3 * d + 8))
    ctx.check(not got, "spurious", "a word was delivered on an idle line")
    total_cells = c["bits"] + 2 + (c["par"] != "none")
    for k in range(c["frames"]):
        if c["run"] is not None and rng.random() < .1:
            drive(1, 3 * d)
            d = rng.randint(5, 60)
            div.set(d)
            drive(1, rng.randint(1, 9))
            ctx.check(rdy.get() == 0, "spurious", "a word was delivered because the divisor changed")
            ctx.ev("divisor_changes")
        word = rng.choice([0, (1 << c["bits"]) - 1, rng.getrandbits(c["bits"]), rng.getrandbits(c["bits"])])
        pb = parity_bit(word, c["par"])
        kind = rng.choices(["good", "parity", "stop", "overflow", "false", "hold"], [6, 2 if pb is not None else 0, 2, 2, 1, 1])[0]
        perr = 0
        if kind == "parity":
            pb ^= 1
            perr = 1
        cells = [0] + [(word >> i) & 1 for i in range(c["bits"])] + ([pb] if pb is not None else []) + [1]
        del got[:]
        if kind == "false":
            if d < 8:
                continue
            drive(0, max(1, d // 2 - 4 if d > 8 else 1))
            drive(1, d * total_cells + 2 * d)
            ctx.eq(len(got), 1, "false-start", "words flagged after a false start bit")
            ctx.check(got[0][1] == 1, "frame-flag", "a start bit that did not last until its middle is not flagged as a frame error")
            ctx.ev("false_starts")
            ctx.seen(c["par"], c["bits"], d, "false")
            continue
        if kind == "stop":
            cells[-1] = 0
            for v in cells:
                drive(v, d)
            # line returns to idle; whatever the receiver makes of the broken remainder is unspecified
            drive(1, d * total_cells + 2 * d + 8)
            ctx.check(got, "lost", f"frame with word {word:#x} and a missing stop bit was not reported", divisor=d)
            w, fe, pe, ov, _ = got[0]
            ctx.eq(w, word, "data", "word received (missing stop bit)")
            ctx.eq((fe, pe, ov), (1, perr, 0), "flags", f"(frame, parity, overflow) flags for a missing stop bit, word {word:#x}")
            ctx.ev("frame_errors")
            ctx.ev("delivered")
            ctx.seen(c["par"], c["bits"], d, "stop", word)
            drive(1, rng.randint(d * (total_cells + 2), d * (total_cells + 3)))
            continue
        if kind == "overflow":
            # acknowledge withheld from mid-frame until well after completion
            before = (data.get(), ef.get(), ep.get())
            for i, v in enumerate(cells):
                if i == total_cells // 2:
                    ackv[0] = 0
                drive(v, d)
            drive(1, d + 6)
            ctx.check(not rdy.get() and not got, "overflow-delivered", "a frame was delivered although not acknowledged")
            ctx.eq(eo.get(), 1, "overflow-flag", "overflow flag after a frame completed without acknowledge")
            ackv[0] = 1
            drive(1, rng.randint(1, 3 * d))
            ctx.check(not got, "overflow-late", "the overflowed frame was delivered later", got=got)
            ctx.ev("overflows")
            ctx.seen(c["par"], c["bits"], d, "overflow", word)
            continue
        if kind == "hold":
            # consumer drops ack in the cycle after the word became ready: the word must wait for it
            for v in cells[:-1]:
                drive(v, d)
            n = 0
            while n < 3 * d + 12:
                line.set(1)
                ack.set(1)
                b.settle()
                if rdy.get():
                    break
                b.tick()
                n += 1
            ctx.check(rdy.get(), "lost", f"word {word:#x} was not delivered", divisor=d)
            ack.set(0)
            for _ in range(rng.randint(1, 2 * d)):
                b.settle()
                ctx.check(rdy.get() and data.get() == word, "hold", "a ready word was dropped before it was acknowledged")
                b.tick()
            del got[:]
            drive(1, 1)
            ctx.eq([g[0] for g in got], [word], "hold", "word handed over when the acknowledge returned")
            drive(1, 2 * d + 8)
            ctx.eq(len(got), 1, "duplicate", "number of deliveries of one held word")
            ctx.ev("held")
            ctx.ev("delivered")
            ctx.seen(c["par"], c["bits"], d, "hold", word)
            continue
        # good or parity frame, possibly with a small deviation of the sender's bit rate
        drift = 0.0
        if d >= 16 and rng.random() < .4:
            drift = rng.choice([-1, 1]) * 0.28 / total_cells
        acc, pos = 0.0, 0
        for i, v in enumerate(cells):
            end = int(round((i + 1) * d * (1 + drift)))
            drive(v, end - pos)
            pos = end
        gap = rng.choice([0, 0, 1, 2, rng.randint(0, 4 * d)])
        tail = 4 if pins is not None else 2
        # the middle of the stop bit has passed by now; allow the hand-over to complete, keeping the line high
        if gap == 0 and d >= 9 and drift == 0 and len(got) == 1:
            ctx.ev("back_to_back")
        else:
            drive(1, max(gap, tail + d // 2 + 2))
        ctx.eq(len(got), 1, "count", f"deliveries for one frame (word {word:#x}, divisor {d}, drift {drift:.3f})")
        w, fe, pe, ov, _ = got[0]
        ctx.eq(w, word, "data", f"word received (divisor {d}, parity {c['par']}, drift {drift:.3f})")
        ctx.eq((fe, pe, ov), (0, perr, 0), "flags", f"(frame, parity, overflow) flags for word {word:#x}, parity {c['par']}, frame kind {kind}")
        ctx.ev("delivered")
        if perr:
            ctx.ev("parity_errors")
        ctx.seen(c["par"], c["bits"], d, kind, word, gap > 0, drift != 0)
    ctx.sample = dict(case=c, last=dict(kind=kind, word=word))


def loopback(c, ctx):
    from amlib.io.serial import AsyncSerial
    rng = ctx.rng
    dut = AsyncSerial(divisor=c["div"], data_bits=c["bits"], parity=c["par"])
    b = Bench(dut)
    d = c["div"]
    o, i = b.port(dut.tx.o), b.port(dut.rx.i)
    i.set(1)
    b.set(dut.rx.ack, 1)
    sent, got = [], []
    left = c["frames"]
    t = 0
    gap = 0
    while len(got) < c["frames"]:
        offer = left > 0 and gap <= 0
        w = rng.getrandbits(c["bits"])
        b.set(dut.tx.ack, int(offer))
        b.set(dut.tx.data, w)
        b.settle()
        i.set(o.get())
        b.settle()
        gap -= 1
        if offer and b.get(dut.tx.rdy):
            sent.append(w)
            left -= 1
            gap = rng.choice([0, 0, rng.randint(0, 30 * d)])
        if b.get(dut.rx.rdy):
            got.append(b.get(dut.rx.data))
            ctx.eq(got[-1], sent[len(got) - 1] if len(got) <= len(sent) else None, "loopback", "word received through loopback")
            e = dut.rx.err
            ctx.check(not (b.get(e.frame) or b.get(e.parity) or b.get(e.overflow)), "loopback-flags", "error flag on a clean loopback")
            ctx.ev("loopback_words")
            ctx.ev("delivered")
            ctx.seen("loop", d, c["par"], got[-1])
        b.tick()
        t += 1
        ctx.check(t < c["frames"] * d * (c["bits"] + 40) + 1000, "loopback-lost", "words lost in loopback", sent=sent, got=got)
