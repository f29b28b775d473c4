"""C12: I2S receiver - every word slot becomes one stream sample tagged with its channel; loopback with the transmitter."""
from ..bench import Bench
from ..i2s import I2SClock

RULE = ("'bus' cases: a reference transmitter sends random words (standard or left justified, slot lengths from the minimum up, with "
        "random padding bits) and the receiver's stream is compared, under random backpressure and enable toggling. 'loop' cases: "
        "transmitter and receiver of this package back to back. A situation is (format, width, slot length, channel, pattern class).")
FLOORS = {"samples": 2000, "stalled": 200, "overflowed": 5, "loop_samples": 300, "reenabled": 10, "levels": 50000}
ASSUMPTIONS = ["bit clock at least ten times slower than the system clock", "the first word after enabling is not judged (the receiver is still aligning)"]


def cases(tier, rng):
    out = []
    k = 1 if tier == "quick" else 9
    for i in range(150 * k):
        w = rng.choice([8, 12, 16, 16, 17, 20, 24, 24, 24, 31, 32, 32])
        fmt = rng.choice(["STD", "STD", "LJ"])
        out.append(dict(kind="bus", fmt=fmt, w=w, slot_extra=rng.choice([2, 2, 3, 8, rng.randint(2, 20)]), half=rng.choice([5, 5, 6, 9]), jitter=rng.random() < .6,
                        depth=rng.choice([2, 4, 16]), drain=rng.choice(["ready", "rand", "slow"]), slots=rng.choice([16, 26]), limit=100))
    for i in range(30 * k):
        out.append(dict(kind="loop", fmt="STD", w=rng.choice([8, 16, 24, 32, 20]), slot_extra=rng.choice([2, 3, 8, 16]), half=rng.choice([5, 7]), limit=100))
    for w in (8, 16, 24, 32):
        for e in (0, 1):
            for fmt in ("STD", "LJ"):
                out.append(dict(kind="bus", fmt=fmt, w=w, slot_extra=e, half=5, jitter=False, depth=16, drain="ready", slots=16, limit=100))
    for _ in range(14 if tier == "quick" else 140):        # short words, odd depths
        out.append(dict(kind="bus", fmt=rng.choice(["STD", "LJ"]), w=rng.choice([2, 3, 4, 5, 6, 7]), slot_extra=rng.choice([2, 3, 9]), half=rng.choice([5, 6]), jitter=rng.random() < .5, depth=rng.choice([1, 2, 3, 5, 9]), drain=rng.choice(["ready", "rand", "slow"]), slots=26, limit=100))
    m = 1 if tier == "quick" else 8           # long histories
    for i in range(3 * m):
        out.append(dict(kind="bus", fmt=rng.choice(["STD", "LJ"]), w=rng.choice([8, 12]), slot_extra=2, half=5, jitter=False, depth=rng.choice([2, 4, 16]), drain=["ready", "rand", "slow"][i % 3], slots=360, limit=200))
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(kind="bus", fmt=rng.choice(["STD", "LJ"]), w=w, slot_extra=e, half=h, jitter=True, depth=d, drain=rng.choice(["ready", "rand"]), slots=16, limit=200) for w, e, h, d in ((16, 16, 20, 64), (24, 8, 40, 100), (32, 32, 13, 300), (48, 16, 6, 16), (24, 100, 6, 16)) for _ in range(m)]
    out += [dict(kind="bus", fmt=fmt, w=8, slot_extra=2, half=5, jitter=False, depth=d, drain="block", slots=d + 24, limit=200) for fmt, d in (("STD", 16), ("STD", 32), ("LJ", 70), ("STD", 300)) for _ in range(m)]
    return out


def make(c):
    from amlib.io.i2s import I2SReceiver, I2S_FORMAT
    if c["fmt"] == "STD" and c["n"] % 2:
        return I2SReceiver(sample_width=c["w"], fifo_depth=c.get("depth", 16))
    return I2SReceiver(sample_width=c["w"], frame_format=I2S_FORMAT.STANDARD if c["fmt"] == "STD" else I2S_FORMAT.LEFT_JUSTIFIED, fifo_depth=c.get("depth", 16))


def run_case(c, ctx):
    (run_bus if c["kind"] == "bus" else run_loop)(c, ctx)


def run_bus(c, ctx):
    rng = ctx.rng
    W, S = c["w"], c["w"] + c["slot_extra"]
    dut = make(c)
    b = Bench(dut)
    so = dut.stream_out
    V, R, D, F, L = (b.port(x) for x in (so.valid, so.ready, so.payload, so.first, so.last))
    EN, WS, CK, IN, LV = (b.port(x) for x in (dut.enable_in, dut.word_select_in, dut.serial_clock_in, dut.serial_data_in, dut.fifo_level_out))
    clk = I2SClock(rng, S, c["half"], c["fmt"], c["jitter"])
    off = 1 if c["fmt"] == "STD" else 0

    def word():
        return rng.choice([0, (1 << W) - 1, 1, 1 << (W - 1), rng.getrandbits(W), rng.getrandbits(W), rng.getrandbits(W)])
    words = []                      # per slot number n: word whose bits start at bit `off` of slot n
    def bits_of(n):
        while len(words) <= n:
            words.append(word())
        return words[n]

    def level(n, k):
        # data line during bit k of slot n
        i = k - off
        if i < 0:
            n, i = n - 1, S - off + k
            if n < 0:
                return 0
        if i < W:
            return bits_of(n) >> (W - 1 - i) & 1
        return rng.getrandbits(1)

    got = []
    stall = 0
    en = False
    first_slot = None
    dis = rng.randint(6, c["slots"] - 7) if rng.random() < .25 and c["slot_extra"] >= 2 else None
    lost_window = None
    IN.set(0)
    ptr = None
    end_n = c["slots"]
    drain_left = 60 + c["depth"]
    pv = None
    lev = arrived = hidden = 0
    while clk.n < end_n or drain_left > 0:
        if clk.n < end_n:
            e = clk.step()
        else:
            drain_left -= 1
            e = None
        CK.set(clk.sck)
        WS.set(clk.ws)
        if e == "fall" or e is None and clk.n == 0 and clk.k == 0 and clk.t == c["half"]:
            IN.set(level(clk.n, clk.k))
        if not en and not clk.left and clk.k >= 1 and clk.k < S - 2 and clk.n % 2 == 0 and (first_slot is None or clk.n > lost_window + 1):
            en = True
            EN.set(1)
            if first_slot is None:
                first_slot = clk.n + 1
            else:
                first2 = clk.n + 1
        if en and dis is not None and clk.n >= dis and clk.k == S // 2:
            dis_slot = clk.n
            lost_window = clk.n
            en = False
            dis = None
            EN.set(0)
            ctx.ev("reenabled")
        if stall > 0:
            stall -= 1
        elif c["drain"] == "rand" and rng.random() < .02:
            stall = rng.randint(1, 3 * S * c["half"])
        elif c["drain"] == "slow" and rng.random() < .05:
            stall = rng.randint(1, rng.choice([12, 50]) * S * c["half"])
        elif c["drain"] == "block":
            stall = 1 << 30
        if clk.n >= end_n:
            stall = 0
        R.set(int(stall == 0))
        b.settle()
        now = LV.get()
        ctx.check(now <= c["depth"], "level", "FIFO level beyond its depth")
        ctx.check(now - lev in (0, 1), "level", f"FIFO level goes from {lev} (without what was taken) to {now} in one cycle")
        arrived += now - lev
        lev = now - int(V.get() and stall == 0)
        ctx.check(now >= V.get(), "level", "a sample is offered although the FIFO level is 0")
        hidden = hidden + 1 if now and not V.get() else 0
        ctx.check(hidden < 4, "level", f"no sample is offered although the FIFO level is {now}")
        ctx.ev("levels")
        if V.get():
            cur = (D.get(), F.get(), L.get())
            if pv is not None:
                ctx.eq(cur, pv, "stable", "stream output changed while it waited for ready")
            if stall == 0:
                got.append(cur + (clk.n,))
                pv = None
            else:
                pv = cur
                ctx.ev("stalled")
        else:
            ctx.check(pv is None, "stable", "valid dropped while waiting for ready")
            ctx.check(not F.get() and not L.get(), "flags", "first/last asserted without valid")
        b.tick()
    ctx.eq((arrived, LV.get()), (len(got), 0), "level", "(increments of the FIFO level, level at the end) against the samples delivered")
    # the word whose bits started in slot n; the first word after enabling is not judged
    sent = [(words[n], n) for n in range(first_slot, min(end_n - 1, len(words)))]
    key = "samples"
    ctx.check(got, key, "nothing received")
    for v, f, l, _ in got:
        ctx.check(f + l == 1, "flags", f"first={f} last={l} for a sample")
    g = [(v, f) for v, f, l, _ in got][1:]
    w = [(x, int(n % 2 == 1)) for x, n in sent][1:]
    # slots with odd numbers are left (slot 0 is a right slot)
    if lost_window is None:
        full = c["drain"] == "ready"
        if full:
            ctx.eq(g[:len(w)], w, key, f"received samples ({c['fmt']}, {W} bits in {S})")
            ctx.check(len(g) <= len(w) + 1, key, "more samples than words sent")
        else:
            i = 0
            miss = 0
            for x in g:
                while i < len(w) and w[i] != x:
                    i += 1
                    miss += 1
                ctx.check(i < len(w), key, f"received {x} which is not among the remaining words sent (dropped {miss})", got=g, sent=w)
                i += 1
            if miss:
                ctx.ev("overflowed")
            ctx.check(not miss or c["drain"] != "rand" or c["depth"] < 16, key, "samples dropped although the FIFO cannot have been full")
    else:
        a = [(x, int(n % 2 == 1)) for x, n in sent if n > first_slot and n < lost_window - 1]
        z = [(x, int(n % 2 == 1)) for x, n in sent if n > lost_window + 3]
        if c["drain"] == "ready":
            ctx.eq(g[:len(a)], a, key, "samples before disabling")
            tail = [(v, f) for v, f, l, n in got if n > lost_window + 5]
            ctx.check(not tail or is_sub(tail, z), key, "samples after enabling again are not the words sent", got=tail, sent=z)
            ctx.check(len(tail) >= len(z) - 4, key, "samples missing after enabling again", got=tail, sent=z)
    ctx.ev("samples", len(g))
    for v, f in g:
        ctx.seen(c["fmt"], W, c["slot_extra"], f, v.bit_count() // 4)
    ctx.sample = dict(case=c, received=len(g), head=g[:3])


def is_sub(a, b):
    it = iter(b)
    return all(x in it for x in a)


def run_loop(c, ctx):
    from amaranth import Module
    from amlib.io.i2s import I2STransmitter
    rng = ctx.rng
    W, S = c["w"], c["w"] + c["slot_extra"]
    m = Module()
    tx = I2STransmitter(sample_width=W)
    rx = make(c)
    m.submodules.tx, m.submodules.rx = tx, rx
    m.d.comb += [rx.serial_data_in.eq(tx.serial_data_out)]
    b = Bench(m)
    P = [(b.port(x.word_select_in), b.port(x.serial_clock_in), b.port(x.enable_in)) for x in (tx, rx)]
    clk = I2SClock(rng, S, c["half"], "STD", True)
    N = 20
    vals = [rng.getrandbits(W) for _ in range(N)]
    i = 0
    got = []
    V, R, D, F = (b.port(x) for x in (tx.stream_in.valid, tx.stream_in.ready, tx.stream_in.payload, tx.stream_in.first))
    OV, OR, OD, OF, OL = (b.port(x) for x in (rx.stream_out.valid, rx.stream_out.ready, rx.stream_out.payload, rx.stream_out.first, rx.stream_out.last))
    OR.set(1)
    for t in range(40):
        step_in(V, R, D, F, b, vals, i)
        if i < N and R.get():
            i += 1
        b.tick()
    for p in P:
        p[2].set(1)
    while clk.n < N + 4:
        clk.step()
        for p in P:
            p[0].set(clk.ws)
            p[1].set(clk.sck)
        step_in(V, R, D, F, b, vals, i)
        if i < N and R.get():
            i += 1
        if OV.get():
            got.append((OD.get(), OF.get(), OL.get()))
        b.tick()
    want = [(v, int(k % 2 == 0), int(k % 2 == 1)) for k, v in enumerate(vals)]
    ctx.eq(got[:N], want, "loopback", "samples (value, first, last) looped back")
    ctx.ev("loop_samples", N)
    ctx.seen("loop", W, c["slot_extra"], c["half"])


def step_in(V, R, D, F, b, vals, i):
    if i < len(vals):
        V.set(1)
        D.set(vals[i])
        F.set(i % 2 == 0)
    else:
        V.set(0)
    b.settle()
