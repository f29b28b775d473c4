"""C09: I2C target - answers its own address only, exchanges octets exactly, delimits transactions, never disturbs the bus."""
from ..bench import Bench
from ..i2clib import Pads

RULE = ("'bus' cases: a target is driven at its pins by a model initiator that sends random histories (addresses equal to, near and "
        "far from the target's, writes, reads, repeated starts, stops at any bit position, random timing); every strobe, data value "
        "and every level the target drives in each bit slot is compared with a reference. 'pair' cases: one initiator and two targets "
        "share a bus. A situation is (kind of slot, octet number, data, acknowledge, how the transaction ended).")
FLOORS = {"addr_hits": 200, "addr_misses": 150, "octets_written": 300, "octets_read": 250, "stops": 100, "restarts": 80,
          "mid_octet_ends": 60, "pair_octets": 120, "naks": 60, "void_messages": 60, "direct_stops": 60, "slot_stops": 20}
ASSUMPTIONS = ["half periods of at least 6 clock cycles, SDA changed by the initiator at least one cycle after SCL fell",
               "the experimental clock-stretch request input stays low"]


def cases(tier, rng):
    k = 1 if tier == "quick" else 10
    out = [dict(kind="bus", h=rng.choice([6, 6, 7, 8, 10, 17]), trans=10, limit=100) for _ in range(180 * k)]
    out += [dict(kind="pair", period=rng.choice([32, 40, 64]), trans=6, limit=200) for _ in range(40 * k)]
    m = 1 if tier == "quick" else 8           # long histories
    out += [dict(kind="bus", h=6, trans=150, limit=200) for _ in range(3 * m)]
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(kind="bus", h=h, trans=4, limit=200) for h in (40, 150, 300, 600) for _ in range(m)]
    out += [dict(kind="pair", period=p, trans=3, limit=200) for p in (256, 600) for _ in range(m)]
    return out


class Target:
    """monitors of one target's ports; the user side supplies data and acknowledges"""
    def __init__(self, b, dut, pads, rng):
        self.b, self.rng = b, rng
        self.p = {k: b.port(getattr(dut, k)) for k in ("start", "stop", "restart", "write", "read", "data_i", "data_o", "ack_o", "address")}
        self.scl_i, self.sda_i = b.port(pads.scl_t.i), b.port(pads.sda_t.i)
        self.oec, self.oed = b.port(pads.scl_t.oe), b.port(pads.sda_t.oe)
        self.oc, self.od = b.port(pads.scl_t.o), b.port(pads.sda_t.o)
        self.scl_i.set(1)
        self.sda_i.set(1)
        self.log = []
        self.ack_plan = None     # None or cycles to wait before asserting ack_o
        self.wait = None
        self.prev = 1

    def drive(self, scl, sda):
        self.scl_i.set(scl)
        self.sda_i.set(sda)

    def pre(self, ctx):
        """before the clock edge: user side logic, logging"""
        p = self.p
        p["ack_o"].set(0)
        octet = self.rng.getrandbits(8)
        p["data_o"].set(octet)
        self.b.settle()
        if p["write"].get():
            self.wait = self.ack_plan
        if self.wait is not None:
            if self.wait == 0:
                p["ack_o"].set(1)
                self.wait = None
                self.b.settle()
            else:
                self.wait -= 1
        for k in ("start", "stop", "restart"):
            if p[k].get():
                self.log.append((k,))
        if p["write"].get():
            self.log.append(("write", p["data_i"].get()))
        if p["read"].get():
            self.log.append(("read", octet))
        ctx.check(not (self.oed.get() and self.od.get()) and not (self.oec.get() and self.oc.get()), "push-pull", "target drives a line high")

    def low(self):
        return self.oed.get()

    def scl_low(self):
        return self.oec.get()

    def take(self):
        l, self.log = self.log, []
        return l


def run_case(c, ctx):
    (run_bus if c["kind"] == "bus" else run_pair)(c, ctx)


def run_bus(c, ctx):
    from amlib.io.i2c import I2CTarget
    rng = ctx.rng
    pads = Pads()
    dut = I2CTarget(pads.given(rng))
    b = Bench(dut)
    t = Target(b, dut, pads, rng)
    addr = rng.choice([0, 127, 0x2a, 0x55, rng.getrandbits(7), rng.getrandbits(7)])
    t.p["address"].set(addr)
    h = c["h"]
    L = dict(scl=1, sda=1, slot=0)        # what the initiator drives; whether the target may hold SDA low now

    def cyc(n=1):
        for _ in range(n):
            b.settle()
            t.drive(L["scl"], L["sda"] & (0 if t.low() else 1))
            t.pre(ctx)
            ctx.check(not t.scl_low(), "scl", "target drives the clock line")
            if t.low() and not L["slot"]:
                L["bad"] = L.get("bad", 0) + 1
                # the target sees the falling edge two cycles late: it may still hold SDA just after SCL fell
                ctx.check(L["bad"] <= 5, "bus-contention", "target holds SDA low outside its own slots")
            b.tick()

    def dur():
        return h + rng.choice([0, 0, 1, rng.randint(0, h)])

    def bit(v, target_low=None, pulled=False):
        """one clock pulse: initiator drives v (1 = released); target_low: expected target drive (None: not the target's slot)"""
        L["scl"] = 0
        cyc(1)
        L["slot"] = 0
        L["bad"] = 0
        if rng.random() < .3:
            L["sda"] = rng.getrandbits(1) if target_low is None else 1     # data may wobble while SCL is low
            cyc(1)
        L["sda"] = v
        if target_low:
            L["slot"] = 1
        cyc(dur())
        L["scl"] = 1
        cyc(1)
        got = 0
        n = dur()
        for k in range(n):
            b.settle()
            got = t.low()
            ctx.eq(bool(got), bool(target_low), "slot",
                   f"target drives SDA {'low' if got else 'released'} while SCL is high (expected {'low' if target_low else 'released'})", cycle=k)
            cyc(1)
        b.settle()
        return L["sda"] & (0 if t.low() else 1)

    def start():
        # from idle or from SCL high/SDA whatever
        if not L["sda"] or t.low():
            L["scl"] = 0
            cyc(1)
            L["slot"] = 0
            L["bad"] = 0
            L["sda"] = 1
            cyc(dur())
            L["scl"] = 1
            cyc(dur())
        L["sda"] = 0
        cyc(dur())

    def stop(direct=True):
        b.settle()
        if direct and L["scl"] and not L["sda"] and not t.low() and rng.random() < .6:
            ctx.ev("direct_stops")
            direct_stop()
            return
        L["scl"] = 0
        cyc(1)
        L["slot"] = 0
        L["bad"] = 0
        L["sda"] = 0
        cyc(dur())
        L["scl"] = 1
        cyc(dur())
        L["sda"] = 1
        cyc(dur() + 6)

    def direct_stop():
        """stop right after a bit that left SDA low with SCL high"""
        L["sda"] = 1
        cyc(dur() + 6)

    def ends(want, how):
        ctx.eq(t.take(), want, "strobes", f"strobes at {how}")

    cyc(rng.randint(4, 12))
    ends([], "idle")
    n = c["trans"]
    open_bus = False           # a start happened and the bus is not idle
    while n > 0 or open_bus:
        n -= 1
        if open_bus and n < 0:
            stop()
            ends([], "stop with no transaction open")
            open_bus = False
            break
        if open_bus and rng.random() < .3:
            stop()
            ends([], "stop with no transaction open")
            open_bus = False
            cyc(rng.randint(0, 20))
        start()
        ends([], "start condition before any address")
        open_bus = True
        if rng.random() < .12:         # a message without content
            direct_stop()
            ends([], "stop right after a start")
            ctx.ev("void_messages")
            open_bus = False
            cyc(rng.choice([0, 0, 12]))
            continue
        # ---- address
        a = addr if rng.random() < .6 else rng.choice([addr ^ (1 << rng.randrange(7)), rng.getrandbits(7), 127 ^ addr])
        rw = rng.getrandbits(1)
        octet = a << 1 | rw
        cut = rng.randrange(1, 8) if rng.random() < .12 else None
        aborted = False
        for i in range(8):
            if cut == i:
                aborted = True
                break
            bit(octet >> (7 - i) & 1)
            ends([], "address bit")
        if aborted:
            ctx.ev("mid_octet_ends")
            ctx.seen("cut-address", i)
            if rng.random() < .5:
                stop()
                open_bus = False
            ends([], "aborted address")
            continue
        hit = a == addr
        ctx.ev("addr_hits" if hit else "addr_misses")
        # ---- acknowledge slot; the target strobes start when it acknowledges
        bit(1, 1 if hit else None)
        log = t.take()
        if not hit:
            ctx.eq(log, [], "strobes", f"strobes after address {a:#x} (own address {addr:#x})")
            for _ in range(rng.randint(0, 2)):      # traffic to somebody else: target stays silent
                o = rng.choice([octet, addr << 1, addr << 1 | 1, rng.getrandbits(8)])
                for i in range(8):
                    bit(o >> (7 - i) & 1)
                bit(rng.getrandbits(1))
                ends([], "octet for another device")
            ctx.seen("miss", bin(a ^ addr).count("1"), rw)
            continue
        if rw:
            ctx.check(len(log) == 2 and log[0] == ("start",) and log[1][0] == "read", "strobes", f"strobes after a read address: {log}")
            data = log[1][1]
        else:
            ctx.eq(log, [("start",)], "strobes", "strobes after a write address")
        # ---- octets
        k = 0
        while True:
            k += 1
            r = rng.random()
            if not rw:
                if r < .3 or k > 5:
                    # end the transaction here, possibly in mid octet
                    m = rng.choice([0, 0, rng.randrange(1, 8)])
                    for i in range(m):
                        bit(rng.getrandbits(1))
                    if m:
                        ctx.ev("mid_octet_ends")
                    ends([], "partial octet")
                    if rng.random() < .5:
                        stop()
                        ends([("stop",)], f"stop after {k - 1} octets and {m} bits")
                        open_bus = False
                        ctx.ev("stops")
                    else:
                        start()
                        ends([("restart",)], f"repeated start after {k - 1} octets and {m} bits")
                        ctx.ev("restarts")
                        # this repeated start is abandoned or reused: fall through to a fresh start from the outer loop
                    ctx.seen("w-end", k, m, open_bus)
                    break
                o = rng.choice([0, 255, addr << 1, rng.getrandbits(8), rng.getrandbits(8)])
                ack = rng.random() < .75
                t.ack_plan = rng.randint(0, max(0, h - 5)) if ack else None
                for i in range(8):
                    bit(o >> (7 - i) & 1)
                    ends([], "octet bit")
                if not ack and rng.random() < .15:
                    bit(0)             # nobody acknowledges, and the initiator ends the transaction within the slot
                    t.ack_plan = t.wait = None
                    ends([("write", o)], f"octet {o:#x} written")
                    direct_stop()
                    ends([("stop",)], "stop within the acknowledge slot of a written octet")
                    ctx.ev("slot_stops")
                    open_bus = False
                    break
                bit(1, 1 if ack else None)
                t.ack_plan = t.wait = None
                ends([("write", o)], f"octet {o:#x} written")
                ctx.ev("octets_written")
                ctx.seen("w", k, o, ack)
            else:
                m = 8
                if rng.random() < .12:
                    # the initiator can only end in mid octet after a released bit
                    ones = [i for i in range(1, 8) if data >> (8 - i) & 1]
                    ones = [i for i in ones if data >> (7 - i) & 1]
                    m = rng.choice(ones) if ones else 8
                for i in range(m):
                    bit(1, 1 - (data >> (7 - i) & 1))
                    ends([], "bit read")
                if m < 8:
                    ctx.ev("mid_octet_ends")
                    if rng.random() < .5:
                        stop()
                        ends([("stop",)], f"stop in mid octet of a read ({m} bits)")
                        open_bus = False
                        ctx.ev("stops")
                    else:
                        L["sda"] = 1
                        start()
                        ends([("restart",)], f"repeated start in mid octet of a read ({m} bits)")
                        ctx.ev("restarts")
                    ctx.seen("r-end", k, m, open_bus)
                    break
                if data & 1 and rng.random() < .12:
                    start()
                    ends([("restart",)], "repeated start right after the last bit of a read octet")
                    ctx.ev("restarts")
                    ctx.seen("r-end", k, 8, open_bus)
                    break
                ctx.ev("octets_read")
                if k > 4 or r < .3:
                    bit(1)
                    ends([("stop",)], "read octet not acknowledged")
                    ctx.ev("naks")
                    ctx.seen("r-nak", k, data)
                    for _ in range(rng.choice([0, 0, 5])):
                        bit(1)
                    ends([], "after the end of the read")
                    break
                bit(0)
                log = t.take()
                ctx.check(len(log) == 1 and log[0][0] == "read", "strobes", f"strobes after an acknowledged read octet: {log}")
                ctx.seen("r", k, data)
                data = log[0][1]
                if rng.random() < .1:
                    direct_stop()
                    ends([("stop",)], "stop within the acknowledge slot of a read octet")
                    ctx.ev("slot_stops")
                    open_bus = False
                    break
    cyc(10)
    ends([], "idle at the end")
    b.settle()
    ctx.check(not t.low(), "idle", "target holds SDA on an idle bus")
    ctx.sample = dict(case=c, address=addr)


def run_pair(c, ctx):
    from amlib.io.i2c import I2CTarget, I2CInitiator
    from amaranth import Module
    rng = ctx.rng
    p0, p1, p2 = Pads(), Pads(), Pads()
    m = Module()
    ini = I2CInitiator(p0.given(rng), c["period"])
    m.submodules.i = ini
    tg = [I2CTarget(p1.given(rng)), I2CTarget(p2.given(rng))]
    m.submodules.t1, m.submodules.t2 = tg
    b = Bench(m)
    T = [Target(b, tg[0], p1, rng), Target(b, tg[1], p2, rng)]
    addrs = rng.sample(range(128), 2)
    if rng.random() < .5:
        addrs[1] = addrs[0] ^ (1 << rng.randrange(7))
    for t, a in zip(T, addrs):
        t.p["address"].set(a)
    I = {k: b.port(getattr(ini, k)) for k in ("busy", "start", "stop", "read", "write", "data_i", "ack_o", "data_o", "ack_i")}
    pi = (b.port(p0.scl_t.i), b.port(p0.sda_t.i), b.port(p0.scl_t.oe), b.port(p0.sda_t.oe))
    pi[0].set(1)
    pi[1].set(1)

    def cyc():
        b.settle()
        scl = 0 if pi[2].get() or any(t.scl_low() for t in T) else 1
        sda = 0 if pi[3].get() or any(t.low() for t in T) else 1
        pi[0].set(scl)
        pi[1].set(sda)
        for t in T:
            t.drive(scl, sda)
        for t in T:
            t.pre(ctx)
        b.tick()

    def cmd(k):
        I[k].set(1)
        cyc()
        I[k].set(0)
        n = 0
        b.settle()
        while I["busy"].get():
            cyc()
            b.settle()
            n += 1
            ctx.check(n < 60 * c["period"], "stuck", f"{k} never completes")
        for _ in range(5):
            cyc()

    for _ in range(6):
        cyc()
    openat = None
    for n in range(c["trans"]):
        cmd("start")
        which = rng.choice([0, 1, None])
        a = addrs[which] if which is not None else rng.choice([x for x in range(128) if x not in addrs])
        rw = rng.getrandbits(1)
        exp_pre = [[], []]
        if openat is not None:
            exp_pre[openat] = [("restart",)]
        for k in (0, 1):
            ctx.eq(T[k].take(), exp_pre[k], "pair", f"strobes of target {k} at a start condition")
        openat = None
        I["data_i"].set(a << 1 | rw)
        cmd("write")
        ctx.eq(I["ack_o"].get(), int(which is not None), "pair-ack", "address acknowledge seen by the initiator")
        logs = [T[0].take(), T[1].take()]
        for k in (0, 1):
            want = [] if k != which else ["start", "read"] if rw else ["start"]
            ctx.eq([e[0] for e in logs[k]], want, "pair", f"strobes of target {k} at address {a:#x}")
        if which is None:
            cmd("stop")
            continue
        t = T[which]
        nxt = logs[which][1][1] if rw else None
        cnt = rng.randint(0 if not rw else 1, 3)
        for j in range(cnt):
            if rw:
                ack = int(j < cnt - 1)
                I["ack_i"].set(ack)
                cmd("read")
                ctx.eq(I["data_o"].get(), nxt, "pair-data", "octet read by the initiator")
                log = t.take()
                ctx.eq([e[0] for e in log], ["read"] if ack else ["stop"], "pair", "target strobes after a read octet")
                nxt = log[0][1] if ack else None
            else:
                ack = int(rng.random() < .7)
                o = rng.getrandbits(8)
                I["data_i"].set(o)
                t.ack_plan = rng.randint(0, 2) if ack else None
                cmd("write")
                t.ack_plan = None
                ctx.eq(t.take(), [("write", o)], "pair-data", "target strobes after a written octet")
                ctx.eq(I["ack_o"].get(), ack, "pair-ack", "acknowledge seen by the initiator")
            ctx.ev("pair_octets")
            ctx.seen("pair", rw, j, ack)
        ctx.eq(T[1 - which].take(), [], "pair", "strobes of the target not addressed")
        if rng.random() < .5 or n == c["trans"] - 1:
            cmd("stop")
            ctx.eq(t.take(), [] if rw else [("stop",)], "pair", "target strobes at a stop")
        elif not rw:
            openat = which
    ctx.sample = dict(case=c, addresses=addrs)
