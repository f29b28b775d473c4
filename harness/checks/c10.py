"""C10: I2C stream transmitter - every packet becomes one start / octets / stop sequence, whatever the timing of the source."""
from ..bench import Bench
from ..i2clib import Pads, BusMonitor

RULE = ("A case is a transmitter (period, FIFO depth, clock stretching) fed random packets with random gaps inside and between "
        "packets; a bus monitor decodes the lines and the decoded sequence must be exactly the packets. A situation is "
        "(packet length, position, octet, gap, acknowledge).")
FLOORS = {"packets": 150, "octets": 500, "starved": 60, "full": 40, "timed_words": 100}
ASSUMPTIONS = ["every packet begins with a first marker and ends with a last marker"]


def cases(tier, rng):
    out = []
    for i in range(110 if tier == "quick" else 1200):
        out.append(dict(period=rng.choice([4, 8, 8, 16, 20, 33]), stretch=rng.random() < .5, depth=rng.choice([2, 4, 4, 16]),
                        gaps=rng.choice(["none", "short", "long", "mixed", "events"]), packets=4, limit=120))
    for i in range(2 if tier == "quick" else 12):           # long histories: many packets, and packets of many octets
        for packets, octets in [(330, 1), (120, 4), (3, 400)]:
            out.append(dict(period=rng.choice([4, 8]), stretch=rng.random() < .5, depth=rng.choice([2, 4, 16]), gaps=rng.choice(["none", "short"]), packets=packets, octets=octets))
    for i in range(24 if tier == "quick" else 240):         # words that come at certain times after what happens on the bus
        out.append(dict(period=rng.choice([4, 8, 8, 16]), stretch=rng.random() < .5, depth=rng.choice([2, 4, 16]), gaps="events", packets=40, octets=rng.choice([1, 1, 2, 3])))
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(period=p, stretch=rng.random() < .5, depth=d, gaps=rng.choice(["none", "short", "mixed"]), packets=k) for p, d, k in ((100, 64, 4), (256, 4, 3), (600, 4, 3), (8, 100, 60), (8, 300, 60)) for _ in range(m)]
    return out


def run_case(c, ctx):
    from amlib.stream.i2c import I2CStreamTransmitter
    rng = ctx.rng
    pads = Pads()
    dut = I2CStreamTransmitter(pads.given(rng), c["period"], clk_stretch=c["stretch"], fifo_depth=c["depth"])
    b = Bench(dut)
    s = dut.stream_in
    V, R, D, F, L = (b.port(x) for x in (s.valid, s.ready, s.payload, s.first, s.last))
    scl_i, sda_i = b.port(pads.scl_t.i), b.port(pads.sda_t.i)
    oec, oed, oc, od = b.port(pads.scl_t.oe), b.port(pads.sda_t.oe), b.port(pads.scl_t.o), b.port(pads.sda_t.o)
    scl_i.set(1)
    sda_i.set(1)
    mon = BusMonitor()
    pk = [[rng.choice([0, 255, rng.getrandbits(8), rng.getrandbits(8)]) for _ in range(rng.randint(max(1, c["octets"] // 2), c["octets"]) if "octets" in c else rng.choice([1, 1, 2, 3, rng.randint(1, 8)]))] for _ in range(c["packets"])]
    items = [(o, i == 0, i == len(p) - 1) for p in pk for i, o in enumerate(p)]
    byte_t = 9 * 4 * (c["period"] // 4 + 3)
    gap = 0
    i = 0
    hold = 0
    shigh = 1
    nbits = 0
    idle = 0
    t = 0
    limit = (len(items) + 4 * len(pk)) * byte_t * 8 + 4000
    decoded, cur, bits = [], None, 0
    starved = 0
    due = None          # the next word is offered so many cycles after the next event on the bus
    while idle < 40 * c["period"] + 600:
        t += 1
        ctx.check(t < limit, "stuck", "packets are never completed")
        if i < len(items):
            if gap > 0:
                gap -= 1
                V.set(0)
                D.set(rng.getrandbits(8)); F.set(rng.getrandbits(1)); L.set(rng.getrandbits(1))
            else:
                o, f, l = items[i]
                V.set(1); D.set(o); F.set(f); L.set(l)
                b.settle()
                if R.get():
                    i += 1
                    gap = {"none": 0, "short": rng.randint(0, 4), "long": rng.randint(0, 3 * byte_t),
                           "mixed": rng.choice([0, 0, rng.randint(0, 2 * byte_t)]), "events": rng.choice([0, 3 * byte_t])}[c["gaps"]]
                    if c["gaps"] == "events" and gap:
                        due = rng.choice([rng.randint(0, 4), rng.randint(0, c["period"] + 8)])
                    if gap > byte_t and not l:
                        ctx.ev("starved")
                else:
                    ctx.ev("full")
        else:
            V.set(0)
            D.set(rng.getrandbits(8)); F.set(rng.getrandbits(1)); L.set(rng.getrandbits(1))
        b.settle()
        ctx.check(not (oec.get() and oc.get()) and not (oed.get() and od.get()), "push-pull", "a line is driven high")
        if hold:
            hold -= 1
        scl = 0 if oec.get() or hold else 1
        sda = 0 if oed.get() or not shigh else 1
        fell = mon.scl and not scl
        ev = mon.step(scl, sda)
        if ev is None:
            idle = idle + 1 if i >= len(items) else 0
        else:
            idle = 0
            if ev[0] == "S":
                decoded.append(["S"])
                bits = 0
            elif ev[0] == "P":
                ctx.check(decoded and decoded[-1][-1] != "P", "framing", "stop without a transaction")
                decoded[-1].append("P")
                bits = 0
            else:
                if bits == 0:
                    cur = 0
                bits += 1
                if bits <= 8:
                    cur = cur << 1 | ev[1]
                else:
                    if bits == 9:
                        ctx.check(decoded and decoded[-1][-1] != "P", "framing", "octet outside a transaction")
                        decoded[-1].append(cur)
                        bits = 0
                        ctx.ev("octets")
        if due is not None and ev is not None and (ev[0] in "SP" or bits == 0):
            gap, due = min(gap, due), None
            ctx.ev("timed_words")
        if fell:
            # the slave acknowledges (or not) in the ninth slot
            shigh = 1
            if bits == 8:
                shigh = rng.getrandbits(1)
            if c["stretch"] and rng.random() < .1:
                hold = rng.randint(1, 2 * c["period"])
                ctx.ev("stretched")
        scl = 0 if oec.get() or hold else 1
        sda = 0 if oed.get() or not shigh else 1
        mon.scl, mon.sda = scl, sda
        scl_i.set(scl)
        sda_i.set(sda)
        b.tick()
    want = [["S"] + p + ["P"] for p in pk]
    ctx.eq(decoded, want, "bus", f"transactions on the bus (gaps {c['gaps']}, depth {c['depth']})")
    ctx.ev("packets", len(pk))
    for p in pk:
        for j, o in enumerate(p):
            ctx.seen(len(p), j, o, c["gaps"], c["depth"])
    ctx.sample = dict(case=c, packets=pk)
