"""C01: asynchronous serial transmitter (AsyncSerialTX) - line monitor decoding the waveform."""
from ..bench import Bench
from amaranth import Record

RULE = ("A case is a transmitter configuration (divisor, runtime divisor, data bits, parity) with a random "
        "sequence of words offered with random gaps; a monitor decodes the line cycle by cycle. A situation "
        "(config, word, back-to-back or after idle) counts when a complete frame was decoded and compared.")
FLOORS = {"frames": 100, "bits": 1000, "back_to_back": 10}
PAR = ("none", "mark", "space", "even", "odd")


def parity_bit(word, parity):
    ones = bin(word).count("1") & 1
    return {"none": None, "mark": 1, "space": 0, "even": ones, "odd": 1 - ones}[parity]


def cases(tier, rng):
    n = 500 if tier == "quick" else 6000
    out = []
    for d in (1, 2, 3, 4, 5, 8, 13):
        for p in PAR:
            out.append(dict(div=d, run=None, bits=8, par=p, pins=rng.random() < .3, words=12))
    for _ in range(n):
        d = rng.choice([1, 2, 3, 5, 7, 10, 16, 31, 32, 33, rng.randint(1, 100)])
        run = rng.randint(1, 60) if rng.random() < .5 else None
        out.append(dict(div=d, run=run, bits=rng.choice([1, 2, 5, 6, 7, 8, 9, 12, 16]), par=rng.choice(PAR),
                        pins=rng.random() < .3, words=10 if tier == "quick" else 24))
    for i in range(6 if tier == "quick" else 40):          # long histories
        out.append(dict(div=rng.choice([1, 2, 3, 6]), run=rng.choice([None, 2]), bits=rng.choice([2, 5, 8]), par=rng.choice(PAR), pins=rng.random() < .3, words=330))
    m = 1 if tier == "quick" else 6           # large configurations
    for d, w in ((104, 6), (434, 3), (868, 2), (5208, 1), (10417, 1), (41667, 1)):
        out += [dict(div=d, run=None, bits=rng.choice([8, 24, 32]) if d < 500 else 8, par=rng.choice(PAR), pins=rng.random() < .3, words=w) for _ in range(m)]
    out.append(dict(div=rng.randint(65540, 83333), run=None, bits=2, par=rng.choice(PAR), pins=False, words=1))
    return out


def run_case(c, ctx):
    from amlib.io.serial import AsyncSerialTX, AsyncSerial
    rng = ctx.rng
    kw = dict(divisor=c["div"], data_bits=c["bits"], parity=c["par"])
    if c["run"] is not None:
        kw["divisor_bits"] = max(7, c["div"].bit_length())
    pins = Record([("rx", [("i", 1)]), ("tx", [("o", 1)])]) if c["pins"] else None
    if pins is not None:
        kw["pins"] = pins
    via_pair = c["div"] >= 5 and rng.random() < .3
    dut = AsyncSerial(**kw) if via_pair else AsyncSerialTX(**kw)
    tx = dut.tx if via_pair else dut
    b = Bench(dut)
    o = b.port(pins.tx.o if pins is not None else tx.o)
    rdy, ack, data, div = b.port(tx.rdy), b.port(tx.ack), b.port(tx.data), b.port(dut.divisor)
    if pins is not None:
        b.set(pins.rx.i, 1)
    elif via_pair:
        b.set(dut.rx.i, 1)
    divs = [c["div"]]
    if c["run"] is not None:
        divs = [c["run"], rng.randint(1, 60), c["div"]]
    mask = (1 << c["bits"]) - 1
    edge = [0, mask, 1, 1 << (c["bits"] - 1), 0x55 & mask, 0xAA & mask]
    nbits = c["bits"] + (c["par"] != "none")
    for d in divs:
        # only change the divisor while the transmitter is idle
        div.set(d)
        for _ in range(3):
            b.tick()
        words = [rng.choice(edge) if rng.random() < .4 else rng.getrandbits(c["bits"]) for _ in range(c["words"])]
        style = rng.choice(["burst", "gaps", "mixed"])
        wi, gap = 0, 0
        pending = []          # accepted words not yet decoded
        state, pos, cur, cells = "idle", 0, None, []
        last_accept = None
        idle_run = 10 ** 6
        done_frames = 0
        t = 0
        wait_rdy = 0
        frame_cycles = (nbits + 2) * d
        limit = len(words) * (4 * frame_cycles + 8 * d + 200) + 500
        while done_frames < len(words) or state != "idle" or idle_run < d:
            offer = wi < len(words) and gap <= 0
            ack.set(1 if offer else 0)
            # the data port carries junk while nothing is offered: it must not be sent
            data.set(words[wi] if offer else rng.getrandbits(c["bits"]))
            b.settle()
            v = o.get()
            # --- line monitor
            if state == "idle":
                if v == 0:
                    ctx.check(pending, "spurious", "start bit on the line although no word was accepted", cycle=t)
                    ctx.check(done_frames == 0 or idle_run >= d, "stop-short",
                              f"stop bit/idle lasted only {idle_run} cycles (divisor {d})", cycle=t)
                    b2b = idle_run <= 2 * d + 4
                    state, pos, cells = "frame", 1, []
                    cur = pending.pop(0)
                    want = [0] + [(cur >> i) & 1 for i in range(c["bits"])]
                    pb = parity_bit(cur, c["par"])
                    if pb is not None:
                        want.append(pb)
                    want = [w for w in want for _ in range(d)]
                else:
                    idle_run += 1
            elif state == "frame":
                if v != want[pos]:
                    ctx.fail("waveform", f"line is {v} at cycle {pos} of the frame for word {cur:#x} "
                             f"(divisor {d}, parity {c['par']}, {c['bits']} bits): expected {want[pos]}", cell=pos // d)
                pos += 1
            if state == "frame" and pos == len(want):
                state, pos = "stop", 0
            elif state == "stop":
                ctx.check(v == 1, "stop", f"stop bit is low at cycle {pos} for word {cur:#x}", divisor=d)
                pos += 1
                if pos == d:
                    state, idle_run = "idle", d
                    done_frames += 1
                    ctx.ev("frames")
                    ctx.ev("bits", nbits + 2)
                    if b2b:
                        ctx.ev("back_to_back")
                    ctx.seen(c["div"], d, c["bits"], c["par"], cur, b2b)
            # --- handshake
            gap -= 1
            if rdy.get():
                wait_rdy = 0
            else:
                wait_rdy += 1
                ctx.check(wait_rdy <= frame_cycles + 3 * d + 30, "not-ready", "the transmitter never becomes ready again", cycle=t)
            if offer and rdy.get():
                pending.append(words[wi])
                ctx.check(len(pending) <= 1, "double-accept", "a word was accepted while another accepted one was not yet sent")
                wi += 1
                gap = {"burst": 0, "gaps": rng.randint(0, 4 * d + 5), "mixed": rng.choice([0, 0, rng.randint(0, 3 * frame_cycles)])}[style]
                last_accept = t
            if pending:
                ctx.check(t - last_accept <= frame_cycles + 4 * d + 40, "lost", f"accepted word {pending[0]:#x} never reached the line", divisor=d)
            b.tick()
            t += 1
            ctx.check(t < limit, "stuck", "the sequence of words was not transmitted in time",
                      sent=done_frames, accepted=wi)
        # settles to idle: line stays high, ready
        ack.set(0)
        for _ in range(3 * d + 5):
            b.settle()
            ctx.check(o.get() == 1, "idle-low", "line not high when idle")
            b.tick()
        ctx.check(rdy.get() == 1, "not-ready", "transmitter not ready when idle")
        ctx.ev("cycles", t)
    ctx.sample = dict(case=c, words=words[:4], divisor=d)
