"""C48: UART peripheral - words move between the bus and the line exactly once and in order, and its registers tell the truth."""
from ..bench import Bench
from .c01 import PAR, parity_bit

RULE = ("A case is a UART peripheral (divisor, word width, parity, FIFO depths) driven over its bus like a driver would: enabling, changing the divisor, filling both FIFOs beyond their depth, receiving good and broken frames, "
        "polling, interrupts, and sending and receiving at the same time; a line decoder and a queue model judge every word, register and interrupt. A situation is (width, parity, divisor, FIFO depth, phase, fill).")
FLOORS = {"sent": 500, "received": 500, "tx_dropped_full": 80, "tx_dropped_disabled": 80, "overflows": 80, "parity_errors": 30, "frame_errors": 30, "irq_reads": 500, "duplex": 300, "divisor_changes": 60, "collisions": 800, "busy_enables": 200, "busy_divisors": 150}
ASSUMPTIONS = ["the bus and register classes of amaranth_soc are functional stand-ins"]
NAMES = ["enabled", "divisor", "rx_data", "rx_rdy", "rx_err", "tx_data", "tx_rdy"]


def cases(tier, rng):
    n = 1 if tier == "quick" else 12
    return [dict(div=rng.choice([5, 6, 7, 9, 16, 33]), divbits=rng.choice([None, 8, 12, 17, 24, 32]), bits=rng.choice([8, 8, 8, 5, 7, 9, 12, 20, 32]), par=rng.choice(PAR), rxd=rng.choice([None, 1, 2, 3, 4, 8]),
                 txd=rng.choice([None, 1, 2, 3, 4, 8]), rounds=5) for _ in range(48 * n)] + \
        [dict(div=5, divbits=rng.choice([None, 8]), bits=rng.choice([5, 8]), par=rng.choice(PAR), rxd=rng.choice([2, 8]), txd=rng.choice([2, 8]), rounds=1, long=340) for _ in range(3 * n)]


def run_case(c, ctx):
    from amlib.soc.uart import UARTPeripheral
    rng = ctx.rng
    kw = dict(divisor=c["div"])
    if c["divbits"]:
        kw["divisor_bits"] = c["divbits"]
    if c["bits"] != 8:
        kw["data_bits"] = c["bits"]
    if c["par"] != "none":
        kw["parity"] = c["par"]
    if c["rxd"]:
        kw["rx_depth"] = c["rxd"]
    if c["txd"]:
        kw["tx_depth"] = c["txd"]
    uart = UARTPeripheral(**kw)
    rxd, txd, nb = c["rxd"] or 16, c["txd"] or 16, c["bits"]
    where = {r.name[-1].split("_", 1)[1]: r for r in uart.bus.memory_map.all_resources()}
    ctx.eq(sorted(where), sorted(NAMES + ["ev_status", "ev_pending", "ev_enable"]), "map", "registers")
    order = sorted(NAMES, key=lambda n: where[n].start)
    ctx.eq(order, NAMES, "map", "order of the registers")
    ctx.check(all(r.start % 4 == 0 for r in where.values()), "map", "registers are not word aligned")
    b = Bench(uart)
    bus = uart.bus
    A, DW, DR, SEL, CYC, STB, WE, ACK = (b.port(x) for x in (bus.adr, bus.dat_w, bus.dat_r, bus.sel, bus.cyc, bus.stb, bus.we, bus.ack))
    RX, TX, ENA, DRV, IRQ = (b.port(x) for x in (uart.rx, uart.tx, uart.enabled, uart.driving, uart.irq))
    top_adr = max(r.end for r in where.values()) // 4
    par = c["par"]
    pcell = par != "none"
    S = dict(div=c["div"])
    line, rxq = [], []
    RX.set(1)

    def tick():
        RX.set(rxq.pop(0) if rxq else 1)
        b.settle()
        line.append((TX.get(), DRV.get()))
        b.tick("sync")

    def access(name, we, val=0):
        r = where[name]
        n = r.end - r.start
        CYC.set(1); STB.set(1); WE.set(we); A.set(r.start // 4); SEL.set((1 << n) - 1); DW.set(val)
        for _ in range(12):
            b.settle()
            if ACK.get():
                break
            tick()
        else:
            ctx.fail("ack", f"access to {name} is not acknowledged")
        got = DR.bits() & (1 << 8 * n) - 1
        tick()
        CYC.set(0); STB.set(0)
        for _ in range(rng.choice([0, 0, 1, 3])):
            A.set(rng.randint(0, top_adr)); DW.set(rng.getrandbits(32)); WE.set(rng.getrandbits(1)); SEL.set(rng.getrandbits(4))
            tick()
        return got
    read = lambda n: access(n, 0)
    write = lambda n, v: access(n, 1, v)

    def wait(n):
        for _ in range(n):
            tick()

    def frame(word, bad=None):
        p = parity_bit(word, par)
        cells = [0] + [word >> i & 1 for i in range(nb)] + ([p ^ (bad == "parity")] if pcell else []) + [int(bad != "stop")]
        return [v for v in cells for _ in range(S["div"])]

    def sent():
        """decodes what was on the transmit line; starts over"""
        d, out, i = S["div"], [], 0
        L = [v for v, _ in line]
        flen = nb + 2 + pcell
        while i < len(L):
            if L[i]:
                i += 1
                continue
            cells = L[i:i + flen * d]
            ctx.check(len(cells) == flen * d, "frame", "incomplete frame")
            ctx.check(all(len(set(cells[k * d:(k + 1) * d])) == 1 for k in range(flen)), "frame", f"bit cells are not {d} cycles long")
            bits = cells[::d]
            w = sum(x << k for k, x in enumerate(bits[1:1 + nb]))
            ctx.eq(bits[-1], 1, "frame", "stop bit")
            if pcell:
                ctx.eq(bits[-2], parity_bit(w, par), "frame", f"parity bit of {w:#x}")
            ctx.check(all(dr for _, dr in line[i:i + (flen - 1) * d]), "driving", "not driving while a frame is being sent")
            out.append(w)
            i += flen * d
        del line[:]
        return out
    word_time = lambda: (nb + 2 + pcell) * S["div"]
    wait(rng.randint(2, 30))
    ctx.eq(sent(), [], "spurious", "sent after reset")
    ctx.eq((read("rx_rdy"), read("tx_rdy"), read("rx_err"), read("divisor")), (0, 1, 0, c["div"]), "reset", "(rx_rdy, tx_rdy, rx_err, divisor) after reset")
    ctx.eq(ENA.get(), 0, "reset", "enabled after reset")
    write("ev_pending", 7)
    M = dict(fifo=[], err=0, pend=0, en=0)

    def rx_frame(word, bad=None):
        """a frame while the bus is idle"""
        rxq.extend(frame(word, bad))
        wait(len(rxq) + 8)
        before = M["err"]
        if len(M["fifo"]) < rxd:
            M["fifo"].append(word)
            M["err"] = 4 if bad == "parity" else 0
            M["pend"] |= 1
            ctx.ev("received")
        else:
            M["err"] |= 1
            ctx.ev("overflows")
        if M["err"] and not before:
            M["pend"] |= 2
        ctx.ev("parity_errors", int(bad == "parity"))

    def events(what):
        """judges the event registers while nothing happens on the lines"""
        if M["fifo"]:
            M["pend"] |= 1
        ctx.eq(read("ev_pending"), M["pend"], "pending", f"pending events {what}")
        ctx.eq(read("ev_status"), (1 if M["fifo"] else 0) | (2 if M["err"] else 0) | 4, "status", f"event status {what}")
        ctx.eq(IRQ.get(), int(bool(M["pend"] & M["en"])), "irq", f"interrupt {what}: pending {M['pend']:03b}, enabled {M['en']:03b}")
        if rng.random() < .6:
            M["en"] = rng.getrandbits(3)
            write("ev_enable", M["en"])
            ctx.eq(read("ev_enable"), M["en"], "enable", "event enable register")
            ctx.eq(IRQ.get(), int(bool(M["pend"] & M["en"])), "irq", f"interrupt {what}: pending {M['pend']:03b}, enabled {M['en']:03b}")
        if rng.random() < .7:
            m = rng.getrandbits(3)
            write("ev_pending", m)
            M["pend"] &= ~m
            if M["fifo"]:
                M["pend"] |= 1
            ctx.eq(read("ev_pending"), M["pend"], "pending", f"pending events after clearing {m:03b}")
        ctx.ev("irq_reads")
    for rnd in range(c["rounds"]):
        # not enabled: words are not sent
        write("enabled", 0)
        ctx.eq(ENA.get(), 0, "enabled", "enabled")
        for _ in range(rng.randint(1, 3)):
            write("tx_data", rng.getrandbits(nb))
            ctx.ev("tx_dropped_disabled")
        wait(word_time() + 10)
        ctx.eq(sent(), [], "disabled", "sent while not enabled")
        write("enabled", 1)
        ctx.eq(ENA.get(), 1, "enabled", "enabled")
        wait(5)
        ctx.eq(sent(), [], "disabled", "words written while not enabled are sent later")
        if rng.random() < .6:
            top = (1 << uart_divwidth(where)) - 1
            S["div"] = min(rng.choice([5, 6, 8, 11, 20, 40, 120]), top) if c["divbits"] else min(top, max(5, rng.randint(5, c["div"])))
            write("divisor", S["div"])
            ctx.eq(read("divisor"), S["div"], "divisor", "divisor register")
            ctx.ev("divisor_changes")
        events("at the start")
        # transmit: some words, one after the other
        want = []
        for _ in range(rng.randint(0, 4)):
            w = rng.getrandbits(nb)
            for _ in range(1000):
                if read("tx_rdy"):
                    break
                wait(S["div"])
            else:
                ctx.fail("stuck", "the transmitter never becomes ready")
            write("tx_data", w)
            want.append(w)
        if want and word_time() > 60 and rng.random() < .5:
            # the FIFO is empty as soon as the last word has been taken from it, while that is still being sent
            wait((len(want) - 1) * word_time() + 12)
            for _ in range(1000):
                if DRV.get():
                    break
                tick()
            ctx.check(read("ev_pending") & 4 or not DRV.get(), "pending", "no event for the empty transmit FIFO while its last word is being sent")
            ctx.ev("early_empty")
        wait((len(want) + 1) * word_time() + 20)
        ctx.eq(sent(), want, "tx", "words sent")
        ctx.ev("sent", len(want))
        if want:
            M["pend"] |= 4
        ctx.eq(DRV.get(), 0, "driving", "driving while idle")
        ctx.eq(read("tx_rdy"), 1, "tx-ready", "tx_rdy while idle")
        events("after sending")
        # receive up to and beyond the depth
        for _ in range(rng.choice([1, 2, rxd, rxd + 1, rxd + 2])):
            rx_frame(rng.getrandbits(nb), rng.choices([None, "parity"], [6, 1 if pcell else 0])[0])
            if len(M["fifo"]) == rxd or rng.random() < .3:
                ctx.eq(read("rx_err"), M["err"], "rx-err", f"receive error register (overflow, frame, parity) with {len(M['fifo'])} of {rxd} words waiting")
        ctx.eq(read("rx_rdy"), 1, "rx-ready", "rx_rdy")
        events("after receiving")
        while M["fifo"]:
            ctx.eq(read("rx_rdy"), 1, "rx-ready", f"rx_rdy with {len(M['fifo'])} words waiting")
            w = M["fifo"].pop(0)
            ctx.eq(read("rx_data"), w, "rx", "word received")
            ctx.seen(nb, par, S["div"], rxd, "rx", len(M["fifo"]))
            if rng.random() < .1:
                break
        ctx.eq(read("rx_rdy"), int(bool(M["fifo"])), "rx-ready", "rx_rdy")
        if not M["fifo"] and rng.random() < .5:
            read("rx_data")
            ctx.eq(read("rx_rdy"), 0, "rx-ready", "rx_rdy after reading nothing")
        events("after reading")
        while M["fifo"]:
            ctx.eq(read("rx_data"), M["fifo"].pop(0), "rx", "word received")
        if rng.random() < .6 and rxd > 1:
            # a missing stop bit; whatever the receiver makes of the rest of the line being low is not specified
            write("ev_pending", 7)
            before, w = M["err"], rng.getrandbits(nb)
            rxq.extend(frame(w, "stop"))
            wait(len(rxq) + 2 * word_time() + 8)
            ctx.eq(read("rx_err") & 2, 2, "rx-err", "frame error flag after a missing stop bit")
            ctx.eq(read("ev_pending") & 3, 1 if before else 3, "pending", "pending events after a missing stop bit")
            ctx.eq(read("rx_data"), w, "rx", "word with a missing stop bit")
            while read("rx_rdy"):
                read("rx_data")
            rxq.extend(frame(w ^ 1))
            wait(len(rxq) + 8)
            ctx.eq((read("rx_err"), read("rx_rdy"), read("rx_data")), (0, 1, w ^ 1), "rx-err", "(rx_err, rx_rdy, rx_data) after the next good frame")
            ctx.ev("frame_errors")
            write("ev_pending", 7)
            M["err"] = M["pend"] = 0
        # reading while a word arrives, writing while one leaves
        if M["err"]:
            rx_frame(0)
            read("rx_data")
            M["fifo"].pop()
        for _ in range(6):
            n = rng.choice([0, 1, 1, rxd - 1, rxd])
            for _ in range(min(n, rxd)):
                rx_frame(rng.getrandbits(nb))
            full = len(M["fifo"]) == rxd
            w = rng.getrandbits(nb)
            rxq.extend(frame(w))
            wait(max(0, len(rxq) - (S["div"] + 1) // 2 - rng.randint(0, 9) + 5))
            if M["fifo"]:
                ctx.eq(read("rx_data"), M["fifo"].pop(0), "rx-collision", "word read while another one arrives")
            else:
                rdy = read("rx_rdy")
                if rdy:
                    ctx.eq(read("rx_data"), w, "rx-collision", "word read as soon as it is there")
                    w = None
            wait(len(rxq) + 8)
            over = read("rx_err")
            ctx.check(over in (0, int(full)), "rx-err", f"receive error register {over} after a good frame that came while there was room")
            if w is not None and not over:
                M["fifo"].append(w)
            while M["fifo"]:
                ctx.eq((read("rx_rdy"), read("rx_data")), (1, M["fifo"].pop(0)), "rx-collision", "words after one was read while another one arrived")
                ctx.ev("received")
            ctx.eq(read("rx_rdy"), 0, "rx-collision", "rx_rdy after reading everything")
            if over:
                rxq.extend(frame(0))
                wait(len(rxq) + 8)
                ctx.eq((read("rx_err"), read("rx_data")), (0, 0), "rx-err", "(rx_err, rx_data) after the next good frame")
            ctx.ev("collisions")
        M["err"] = 0
        sent()
        want = []
        for _ in range(5):
            w = rng.getrandbits(nb)
            write("tx_data", w)
            want.append(w)
            wait(max(0, word_time() - rng.randint(0, 16)))
        wait(6 * word_time() + 20)
        if word_time() > 26 or txd > 3:
            ctx.eq(sent(), want, "tx-collision", "words written while others leave")
            ctx.ev("sent", len(want))
        write("ev_pending", 7)
        M["pend"] = 0
        # fill the transmitter: with slow bits nothing is sent meanwhile
        sent()
        if word_time() > 14 * (txd + 4):
            want = []
            for k in range(txd + 3):
                rdy = read("tx_rdy")
                w = rng.getrandbits(nb)
                ctx.eq(rdy, int(k < txd + 1), "tx-ready", f"tx_rdy with {k} words written and a FIFO of {txd}")
                write("tx_data", w)
                if rdy:
                    want.append(w)
                else:
                    ctx.ev("tx_dropped_full")
                wait(2)
            M["pend"] |= 4
            wait((len(want) + 1) * word_time() + 20)
            ctx.eq(sent(), want, "tx-full", f"words sent (FIFO of {txd})")
            ctx.ev("sent", len(want))
            ctx.seen(nb, par, S["div"], txd, "full", len(want))
        # both directions at once
        want, got, coming, started = [], [], [], 0
        total = rng.randint(4, 10)
        guard, en = 0, 1
        while len(got) < total:
            guard += 1
            ctx.check(guard < 6000, "stuck", f"only {len(got)} of {total} words arrive")
            if not rxq and started < total and started - len(got) < rxd:
                w = rng.getrandbits(nb)
                coming.append(w)
                started += 1
                rxq.extend([1] * rng.choice([0, 0, 3, S["div"]]) + frame(w))
            k = rng.random()
            if k < .1:
                en ^= 1
                write("enabled", en)
                ctx.eq(ENA.get(), en, "enabled", "enabled, written while words are sent and received")
                ctx.ev("busy_enables")
            elif k < .4 and len(want) < total:
                if read("tx_rdy"):
                    w = rng.getrandbits(nb)
                    write("tx_data", w)
                    if en:
                        want.append(w)
                    else:
                        ctx.ev("tx_dropped_disabled")
            elif k < .8:
                if read("rx_rdy"):
                    got.append(read("rx_data"))
                    ctx.eq(got, coming[:len(got)], "rx-duplex", "words received while sending")
            else:
                wait(rng.randint(1, S["div"]))
        wait((txd + 2) * word_time() + 20)
        ctx.eq(sent(), want, "tx-duplex", "words sent while receiving")
        write("enabled", 1)
        ctx.eq(read("rx_rdy"), 0, "rx-ready", "rx_rdy after everything was read")
        M["err"] = 0
        ctx.eq(read("rx_err"), 0, "rx-err", "error flags after good frames")
        write("ev_pending", 7)
        M["pend"] = 0
        ctx.ev("duplex", len(want) + len(got))
        ctx.seen(nb, par, S["div"], rxd, txd, "duplex")
    # the divisor is changed in the middle of frames: what becomes of these is not specified, but the register tells the truth, and later frames are right
    write("enabled", 1)
    for _ in range(3):
        wait(word_time() + 10)
        sent()
        for _ in range(2):
            write("tx_data", rng.getrandbits(nb))
        rxq.extend(frame(rng.getrandbits(nb)))
        dmax = S["div"]
        for _ in range(rng.randint(1, 3)):
            wait(rng.randint(0, 3 * S["div"]))
            d = rng.randint(5, min((1 << uart_divwidth(where)) - 1, 60))
            write("divisor", d)
            ctx.eq(read("divisor"), d, "divisor", "divisor register, written during frames")
            dmax = max(d, dmax)
            ctx.ev("busy_divisors")
        S["div"] = d
        wait(len(rxq) + 3 * (nb + 3) * dmax + 20)
        del line[:]
        for _ in range(rxd + 1):
            read("rx_data")
        ctx.eq(read("rx_rdy"), 0, "rx-ready", "rx_rdy after everything was read")
        w, v = rng.getrandbits(nb), rng.getrandbits(nb)
        write("tx_data", w)
        rxq.extend(frame(v))
        wait(2 * word_time() + 8)
        ctx.eq(sent(), [w], "tx", "word sent after a change of the divisor")
        ctx.eq((read("rx_err"), read("rx_rdy"), read("rx_data"), read("rx_rdy")), (0, 1, v, 0), "rx", "(rx_err, rx_rdy, rx_data, rx_rdy) of a word received after a change of the divisor")
    # slow lines: the divisor register keeps every bit, and words are sent and received at large divisors
    if c["divbits"]:
        top = (1 << uart_divwidth(where)) - 1
        wait(word_time() + 10)
        sent()
        for d in [rng.randint(5, top) for _ in range(4)] + [top] + [1 << k for k in range(3, uart_divwidth(where))] + [min(top, rng.randint(130, 700))]:
            S["div"] = d
            write("divisor", d)
            ctx.eq(read("divisor"), d, "divisor", "divisor register")
            ctx.ev("divisor_changes")
        write("enabled", 1)
        w, v = rng.getrandbits(nb), rng.getrandbits(nb)
        write("tx_data", w)
        rxq.extend(frame(v))
        wait(2 * word_time())
        ctx.eq(sent(), [w], "tx", f"word sent at divisor {d}")
        ctx.eq((read("rx_err"), read("rx_rdy"), read("rx_data"), read("rx_rdy")), (0, 1, v, 0), "rx", f"(rx_err, rx_rdy, rx_data, rx_rdy) of a word received at divisor {d}")
        ctx.seen(nb, par, d, rxd, txd, "slow")
    # a long history: every register many times, and many words in both directions
    n = c.get("long", 0)
    top = min((1 << uart_divwidth(where)) - 1, 20)
    for k in range(n):
        e, S["div"] = rng.getrandbits(1), rng.randint(5, top)
        write("enabled", e)
        ctx.eq(ENA.get(), e, "enabled", "enabled")
        write("divisor", S["div"])
        ctx.eq(read("divisor"), S["div"], "divisor", "divisor register")
        ctx.ev("divisor_changes")
        M["en"] = rng.getrandbits(3)
        write("ev_enable", M["en"])
        ctx.eq(read("ev_enable"), M["en"], "enable", "event enable register")
    if n:
        write("enabled", 1)
        S["div"] = 5
        write("divisor", 5)
        write("ev_enable", 7)
        sent()
    for k in range(n):
        write("ev_pending", 7)
        ctx.eq((read("ev_pending"), IRQ.get()), (0, 0), "pending", f"pending events and interrupt before word {k}")
        w, v = rng.getrandbits(nb), rng.getrandbits(nb)
        write("tx_data", w)
        rxq.extend(frame(v))
        wait(2 * word_time())
        ctx.eq((read("ev_pending"), IRQ.get()), (5, 1), "pending", f"pending events and interrupt after word {k} was sent and received")
        ctx.eq(sent(), [w], "tx", f"word {k} sent")
        ctx.eq((read("rx_err"), read("rx_rdy"), read("rx_data"), read("rx_rdy")), (0, 1, v, 0), "rx", f"(rx_err, rx_rdy, rx_data, rx_rdy) of word {k}")
        ctx.ev("duplex", 2)
    ctx.sample = dict(case=c)


def uart_divwidth(where):
    return where["divisor"].resource.width
