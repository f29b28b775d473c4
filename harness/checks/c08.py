"""C08: I2C initiator - the bus carries exactly the commanded conditions, bits and acknowledges."""
from ..bench import Bench
from ..i2clib import Pads, BusMonitor

RULE = ("A case is an initiator (period, clock-stretch support) given a random legal command history (start, repeated start, "
        "write, read, stop) while a slave model answers and stretches SCL; a bus monitor decodes both lines. A situation is "
        "(command, previous command, data, acknowledge, period, stretch).")
FLOORS = {"starts": 200, "stops": 100, "writes": 300, "reads": 200, "stretches": 100, "ignored_strobes": 50, "held_without_stretch": 20}
ASSUMPTIONS = ["the slave changes SDA within a quarter period after SCL falls, or while it stretches the clock, and holds it while SCL is high"]


def cases(tier, rng):
    out = []
    for i in range(220 if tier == "quick" else 2500):
        st = rng.random() < .7
        out.append(dict(period=rng.choice([4, 5, 7, 8, 8, 12, 12, 16, 16, 17, 20, 30, 33, 64]), stretch=st, how=rng.choice(["kw", "default"]) if st else "kw", cmds=14))
    m = 1 if tier == "quick" else 8           # long histories
    for i in range(2 * m):
        out.append(dict(period=8, stretch=i % 2 == 0, how="kw", cmds=700))
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(period=p, stretch=rng.random() < .5, how="kw", cmds=k) for p, k in ((128, 12), (200, 12), (256, 10), (600, 8), (1000, 5)) for _ in range(m)]
    return out


def run_case(c, ctx):
    from amlib.io.i2c import I2CInitiator
    rng = ctx.rng
    pads = Pads()
    dut = I2CInitiator(pads.given(rng), c["period"]) if c["how"] == "default" else I2CInitiator(pads.given(rng), c["period"], clk_stretch=c["stretch"])
    b = Bench(dut)
    scl_t, sda_t = pads.scl_t, pads.sda_t
    P = {k: b.port(getattr(dut, k)) for k in ("busy", "start", "stop", "read", "write", "data_i", "ack_o", "data_o", "ack_i")}
    pscl, psda = b.port(scl_t.i), b.port(sda_t.i)
    oe_c, o_c, oe_d, o_d = b.port(scl_t.oe), b.port(scl_t.o), b.port(sda_t.oe), b.port(sda_t.o)
    pscl.set(1)
    psda.set(1)
    q = c["period"] // 4
    mon = BusMonitor()
    S = dict(sda=1, scl=1, next_sda=1, delay=0, hold=0, hold_at=None, want_stretch=False)
    stretch_p = rng.choice([0, .2, .6]) if c["stretch"] else 0

    def cycle():
        """one clock cycle; the slave reacts to falling SCL by updating SDA and possibly holding SCL"""
        b.settle()
        ctx.check(not (oe_c.get() and o_c.get()) and not (oe_d.get() and o_d.get()), "push-pull", "a line is actively driven high")
        mscl = 0 if oe_c.get() else 1
        msda = 0 if oe_d.get() else 1
        if S["hold"] > 0:
            S["hold"] -= 1
            S["scl"] = 0 if S["hold"] else 1
        scl, sda = mscl & S["scl"], msda & S["sda"]
        fell = mon.scl and not scl
        ev = mon.step(scl, sda)
        if fell:
            S["delay"] = rng.randint(1, max(1, q - 1))
            if stretch_p and rng.random() < stretch_p:
                S["hold"] = rng.randint(1, 3 * c["period"])
                S["scl"] = 0
                # it stretches because its bit is not ready yet
                S["delay"] = rng.choice([S["delay"], rng.randint(1, max(1, q - 1, S["hold"] - 1))])
                ctx.ev("stretches")
        if S["delay"]:
            S["delay"] -= 1
            if S["delay"] == 0 and not mon.scl:
                S["sda"] = S["feed"].pop(0) if S.get("feed") else 1
        scl, sda = mscl & S["scl"], msda & S["sda"]
        if (scl, sda) != (mon.scl, mon.sda):
            e2 = mon.step(scl, sda)
            mon.t -= 1
            ev = e2 or ev
        pscl.set(scl)
        psda.set(sda)
        b.tick()
        return ev

    def idle(n):
        for _ in range(n):
            ev = cycle()
            ctx.check(ev is None, "unsolicited", f"bus activity {ev} without a command")

    def run(cmd, feed, bound):
        """strobe a command, run until not busy; returns the bus events it caused"""
        n0 = len(mon.log)
        S["feed"] = list(feed)
        P[cmd].set(1)
        cycle()
        P[cmd].set(0)
        junk = rng.random() < .4 and cmd in ("read", "write")   # surely busy for long
        jt = rng.randint(2, 16 * q)
        t = 0
        while True:
            b.settle()
            if not P["busy"].get():
                break
            if junk and t == jt:
                # strobes while busy are ignored
                k = rng.choice(["start", "stop", "read", "write"])
                P[k].set(1)
                P["data_i"].set(rng.getrandbits(8))
                P["ack_i"].set(rng.getrandbits(1))
                ctx.ev("ignored_strobes")
            if junk and t == jt + 1:
                P[k].set(0)
            cycle()
            t += 1
            ctx.check(t < bound, "stuck", f"command {cmd} never completes")
        ctx.check(t > 0, "busy", f"busy was not raised by command {cmd}")
        return mon.log[n0:]

    for t in range(8):
        cycle()
    b.settle()
    ctx.check(not P["busy"].get(), "busy", "busy after power-up without a command")
    n = c["cmds"]
    prev = None
    active = False
    bound = 12 * (4 * (q + 1) + 3 * c["period"] + 40)
    while n > 0 or active:
        n -= 1
        if not active:
            cmd = "start"
        elif n <= 0:
            cmd = "stop"
        else:
            cmd = rng.choices(["write", "read", "start", "stop"], [5, 4, 1.5, 1.5])[0]
        # the line synchronisers must have seen a (pointless) start before the next condition is commanded
        idle(rng.randint(8, 40) if prev == "start" and cmd in ("start", "stop") else rng.choice([0, 0, 1, rng.randint(0, 40)]))
        rise0 = len(mon.rises)
        if cmd == "start":
            log = run("start", [1] * 3, bound)
            # a repeated start may need one extra clock pulse with SDA released; it carries no data bit decision
            ctx.check(log and log[-1] == ("S",) and [e for e in log if e[0] != "b"] == [("S",)] and sum(e[0] == "b" for e in log) <= 1
                      and (prev is not None and active or log == [("S",)]),
                      "start", f"bus events of a {'repeated ' if active else ''}start after {prev}: {log}")
            active = True
            ctx.ev("starts")
            info = ()
        elif cmd == "stop":
            log = run("stop", [1] * 3, bound)
            ctx.check(log and log[-1] == ("P",) and [e for e in log if e[0] != "b"] == [("P",)] and sum(e[0] == "b" for e in log) <= 1,
                      "stop", f"bus events of a stop after {prev}: {log}")
            active = False
            idle(3)
            b.settle()
            ctx.check(not oe_c.get() and not oe_d.get(), "release", "lines not released after a stop")
            ctx.ev("stops")
            info = ()
        elif cmd == "write":
            data, ack = rng.choice([0, 255, rng.getrandbits(8), rng.getrandbits(8)]), rng.getrandbits(1)
            P["data_i"].set(data)
            log = run("write", [1] * 8 + [0 if ack else 1], bound)
            want = [("b", data >> i & 1) for i in range(7, -1, -1)] + [("b", 0 if ack else 1)]
            ctx.eq(log, want, "write", f"bus events of write {data:#04x} (slave {'acks' if ack else 'naks'}) after {prev}, period {c['period']}")
            ctx.eq(P["ack_o"].get(), ack, "ack", "acknowledge reported for a write")
            ctx.ev("writes")
            info = (data, ack)
        else:
            data, ack = rng.choice([0, 255, rng.getrandbits(8), rng.getrandbits(8)]), rng.getrandbits(1)
            P["ack_i"].set(ack)
            log = run("read", [data >> i & 1 for i in range(7, -1, -1)] + [1], bound)
            want = [("b", data >> i & 1) for i in range(7, -1, -1)] + [("b", 0 if ack else 1)]
            ctx.eq(log, want, "read", f"bus events of a read of {data:#04x} with ack {ack} after {prev}, period {c['period']}")
            ctx.eq(P["data_o"].get(), data, "data", "octet read")
            ctx.ev("reads")
            info = (data, ack)
        if cmd in ("read", "write") and len(mon.rises) - rise0 >= 9:
            r = mon.rises[rise0:rise0 + 9]
            gaps = [y - x for x, y in zip(r, r[1:])]
            ctx.check(min(gaps) >= c["period"], "too-fast", f"SCL period of {min(gaps)} cycles, configured {c['period']}")
            if not stretch_p:
                ctx.check(max(gaps) <= 2 * c["period"] + 16, "too-slow", f"SCL period of {max(gaps)} cycles, configured {c['period']}")
        ctx.seen(cmd, prev, info, c["period"], stretch_p)
        prev = cmd
    if mon.min_low is not None:
        ctx.check(mon.min_low >= max(2, c["period"] // 4), "low-time", f"SCL low for only {mon.min_low} cycles at period {c['period']}")
        ctx.check(mon.min_high >= max(2, c["period"] // 4), "high-time", f"SCL high for only {mon.min_high} cycles at period {c['period']}")
    if not c["stretch"]:
        # somebody holding the clock makes no difference
        times = []
        idle(30)
        for cmd in ("start", "write", "write", "stop"):
            P[cmd].set(1)
            cycle()
            P[cmd].set(0)
            t, lows = 1, []
            hold = range(0)
            if times and len(times) == 2:
                h = rng.randint(0, times[1] - 20)
                hold = range(h, rng.randint(h + 1, times[1] - 10))
            while True:
                b.settle()
                if not P["busy"].get():
                    break
                S["scl"] = 0 if t in hold else 1
                lows.append(oe_c.get())
                cycle()
                t += 1
                ctx.check(t < bound, "stuck", f"command {cmd} never completes")
            S["scl"] = 1
            times.append(t)
            if len(times) == 2:
                pattern = lows
            if len(times) == 3:
                ctx.eq((t, lows), (times[1], pattern), "no-stretch", f"(duration, clock driven) of a write while the clock is held low during cycles {hold}, clock stretching not enabled")
                ctx.ev("held_without_stretch")
            idle(8 + 3 * q)
    ctx.sample = dict(case=c, events=len(mon.log), tail=mon.log[-6:])
