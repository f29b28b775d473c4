"""C14: MAX7219 display driver - the modelled chips end up configured as asked and showing the current digits, in every module of the chain."""
from ..bench import Bench

RULE = ("A case is a driver (modules, SPI divisor, start-up delay, start-up sequence); a model of the daisy-chained chips (shift "
        "registers on rising clock edges, latches on the end of the select) executes what appears on the pins. Digits are changed at "
        "random times. A situation is (modules, divisor, register, position, data class).")
FLOORS = {"words": 2000, "init_words": 150, "updates": 120, "timed_updates": 120, "digits_checked": 1500, "wired": 15, "quiet": 4}


def cases(tier, rng):
    out = []
    for i in range(60 if tier == "quick" else 600):
        out.append(dict(mods=rng.choice([1, 1, 2, 2, 3, 4]), div=rng.choice([10, 10, 12, 14, 16, 20]), delay=rng.choice([1, 2, 3, 20, rng.randint(4, 300)]),
                        init=rng.choice(["default", "default", "short", "long", "very long"]), updates=3, limit=150, wired=rng.choice([None, None, "flat", "pins"])))
    m = 1 if tier == "quick" else 8           # long histories
    out += [dict(mods=1, div=10, delay=3, init="short", updates=50, limit=300, wired=None) for _ in range(m)]
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(mods=k, div=d, delay=t, init="short", updates=1, limit=300, wired=None) for k, d, t in ((8, 10, 3), (16, 10, 3), (1, 64, 300), (1, 100, 5000), (1, 10, 70000)) for _ in range(m)]
    out += [dict(mods=1, div=10, delay=3, init="huge", updates=1, limit=300, wired=None) for _ in range(2 * m)]
    out += [dict(mods=k, div=10, delay=d, init="short", updates=1, limit=300, wired=None) for k, d in ((1, 0), (2, 0), (1, .5))]
    # delays beyond 24 bits: nothing may move on the bus long before their end
    out += [dict(mods=1, div=10, delay=d, init="short", updates=1, limit=300, wired=None, quiet=3000) for d in ((1 << 24) + 7, 20000000, (1 << 25) + 300, 50000000) for _ in range(m)]
    out += [dict(mods=1, div=10, delay=d, init="short", updates=1, limit=300, wired=None, quiet=70000) for d in ((1 << 24) + 60000, 25e6)][:m]
    return out


def run_case(c, ctx):
    from amlib.io.max7219 import SerialLEDArray, default_init_sequence
    rng = ctx.rng
    M = c["mods"]
    if c["init"] == "default":
        # display test off, no decoding, full brightness, eight digits, normal operation
        init = [list(map(int, x)) for x in default_init_sequence]
        ctx.eq(sorted(init), [[9, 0], [10, 15], [11, 7], [12, 1], [15, 0]], "default", "default start-up sequence")
        dut = SerialLEDArray(divisor=c["div"], init_delay=c["delay"], no_modules=M)
    else:
        n = {"short": rng.randint(1, 4), "long": rng.randint(6, 7), "very long": rng.randint(8, 16), "huge": rng.randint(33, 150)}[c["init"]]
        init = [[rng.choice([9, 10, 11, 12, 15]), rng.getrandbits(8)] for _ in range(n)]
        dut = SerialLEDArray(divisor=c["div"], init_delay=c["delay"], init_sequence=[list(x) for x in init], no_modules=M)
    bus = dut.spi_bus_out
    pins = None
    if c["wired"]:
        from amaranth import Module, Record, Signal
        pins = Record([(x, 1 if c["wired"] == "flat" else [("o", 1)]) for x in ("copi", "clk", "cs")])
        m = Module()
        m.submodules.dut = dut
        m.d.comb += dut.connect_to_resource(pins)
        b = Bench(m)
        pin = (lambda x: getattr(pins, x)) if c["wired"] == "flat" else (lambda x: getattr(pins, x).o)
        SCK, SDO, CS_A = (b.port(pin(x)) for x in ("clk", "copi", "cs"))
        # the resource's select is asserted while the chips are selected
        CS = type("Inverted", (), {"get": lambda self: 1 - CS_A.get()})()
        SDI = b.port(bus.sdi)
        ctx.ev("wired")
    else:
        b = Bench(dut)
        SCK, SDO, CS, SDI = (b.port(x) for x in (bus.sck, bus.sdo, bus.cs, bus.sdi))
    VAL = b.port(dut.valid_in)
    DIG = [b.port(dut.digits_in[i]) for i in range(8 * M)]
    shift = [0] * (16 * M)
    count = 0
    words = []                     # list of per-module (reg, data) of every latch
    ps, pc, pd = SCK.get(), CS.get(), SDO.get()
    current = [0] * (8 * M)
    versions = [(0, list(current))]
    t = 0
    t_first = None
    word_t = M * 16 * (c["div"] + 2) + 60
    updates = 0
    next_up = rng.randint(0, 8 * word_t)
    T_up = []
    wt = []
    total_words = len(init) + 8 * (3 + 3 * c["updates"])
    sel_t = None
    while len(words) < total_words:
        t += 1
        if t == c.get("quiet"):
            ctx.ev("quiet")
            return
        ctx.check(t < c["delay"] + (total_words + 4) * 2 * word_t, "stuck", f"only {len(words)} words in {t} cycles")
        # --- user side
        for d in DIG:
            if rng.random() < .02:
                d.set(rng.getrandbits(8))
        if updates < 4 * c["updates"] and t >= next_up:
            for i, d in enumerate(DIG):
                v = rng.choice([0, 255, rng.getrandbits(8), rng.getrandbits(8)])
                d.set(v)
            VAL.set(1)
            b.settle()
            current = [d.get() for d in DIG]
            versions.append((t, list(current)))
            updates += 1
            if rng.random() < .4:
                next_up = t + rng.randint(20 * word_t, 26 * word_t)
            else:
                next_up = t + rng.randint(3 * word_t // 2, 9 * word_t)
            if len(wt) >= len(init) + 2 and rng.random() < .7:
                # right around the select or the load of a coming word
                period = wt[-1][1] - wt[-2][1]
                next_up = max(t + 1, rng.choice(wt[-1]) + rng.randint(-5, 5) + ((next_up - wt[-1][1]) // period) * period)
                ctx.ev("timed_updates")
            ctx.ev("updates")
        else:
            VAL.set(0)
        SDI.set(rng.getrandbits(1))
        b.settle()
        s, k, d = SCK.get(), CS.get(), SDO.get()
        if pc and not k:
            shift = [0] * (16 * M)
            count = 0
            ctx.check(not s, "select", "selected while the clock is high")
            sel_t = t
        if k:
            ctx.check(not (s and not ps), "select", "clock edge while no chip is selected")
        if s and not ps and not k:
            shift = shift[1:] + [d]
            count += 1
            ctx.check(pd == d, "setup", "data changed together with the rising clock edge")
        if k and not pc:
            ctx.eq(count, 16 * M, "length", "bits shifted into the chain before the load edge")
            w = []
            for m in range(M):           # module 0 is the first in the chain: it keeps the last 16 bits
                x = int("".join(map(str, shift[16 * (M - 1 - m):16 * (M - m)])), 2)
                w.append((x >> 8, x & 255))
            words.append(w)
            wt.append((sel_t, t))
            ctx.ev("words")
            judge(c, ctx, init, words, wt, versions, M, word_t)
        ps, pc, pd = s, k, d
        if t_first is None and not k:
            t_first = t
            ctx.check(t >= c["delay"], "delay", f"first transfer at cycle {t}, start-up delay {c['delay']}")
            ctx.check(t <= c["delay"] + 4 * c["div"] + 20, "delay", f"first transfer only at cycle {t}, start-up delay {c['delay']}")
        b.tick()
    ctx.sample = dict(case=c, init=init, words=len(words), last=words[-1])


def judge(c, ctx, init, words, wt, versions, M, word_t):
    n = len(words) - 1
    w = words[n]
    if n < len(init):
        ctx.eq(w, [tuple(init[n])] * M, "init", f"start-up word {n} of {len(init)} in every module")
        ctx.ev("init_words")
        ctx.seen(M, c["div"], w[0][0], len(init))
        return
    k = (n - len(init)) % 8
    t0, t1 = wt[n]
    # digits latched when the word was assembled, shortly before the select
    lo, hi = t0 - 3 * c["div"] - 12, t0 + 1
    for m in range(M):
        reg, data = w[m]
        ctx.eq(reg, k + 1, "digit-order", f"digit register of word {n - len(init)} after start-up, module {m}")
        ok = [v[8 * m + k] for t, v in versions if lo <= t <= hi]
        before = [v for t, v in versions if t < lo]
        ok.append(before[-1][8 * m + k])
        if len(before) == len(versions):
            ok = ok[-1:]
        ctx.check(data in ok, "digit", f"module {m} digit {k} shows {data:#x}, should be {[hex(x) for x in ok]}")
        ctx.ev("digits_checked")
        ctx.seen(M, c["div"], reg, m, data in (0, 255))
