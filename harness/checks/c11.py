"""C11: I2S transmitter - each word slot carries the next sample of its channel, or silence and a strobe."""
from ..bench import Bench
from ..i2s import I2SClock

RULE = ("A case is a transmitter (sample width, slot length, FIFO depth, clock ratio and jitter) whose stream is fed by a random "
        "source: full speed, just in time, starving, or with channels out of order; a reference receiver samples the data line on "
        "rising bit clock edges and decodes every slot. A situation is (width, slot length, slot outcome, sample pattern class).")
FLOORS = {"slots": 1500, "samples": 900, "underflows": 100, "mismatches": 40, "fifo_full": 50, "reenabled": 15, "levels": 800, "data_changes": 800, "disabled_cycles": 3000}
ASSUMPTIONS = ["bit clock at least ten times slower than the system clock", "word select changes with or shortly after the falling bit clock edge",
               "the first word after enabling is not judged (the transmitter is still aligning)"]


def cases(tier, rng):
    out = []
    for i in range(170 if tier == "quick" else 1500):
        w = rng.choice([8, 12, 16, 16, 17, 20, 24, 24, 24, 31, 32, 32])
        out.append(dict(fmt="STD", w=w, slot_extra=rng.choice([2, 2, 3, 8, rng.randint(2, 20)]), half=rng.choice([5, 5, 6, 9]), jitter=rng.random() < .6,
                        depth=rng.choice([2, 4, 16]), feed=rng.choice(["full", "full", "jit", "starve", "shuffle"]), slots=rng.choice([16, 26]), limit=100))
    out += [dict(fmt="STD", w=w, slot_extra=e, half=5, jitter=False, depth=d, feed="full", slots=26, limit=100) for w, e, d in ((2, 2, 1), (3, 2, 3), (4, 3, 5), (5, 2, 9), (6, 3, 2), (7, 2, 3))]
    # formats and slot lengths that the documentation describes
    for w in (8, 16, 24, 32):
        out.append(dict(fmt="STD", w=w, slot_extra=0, half=5, jitter=False, depth=16, feed="full", slots=16, limit=100))
        out.append(dict(fmt="STD", w=w, slot_extra=1, half=5, jitter=False, depth=16, feed="full", slots=16, limit=100))
        out.append(dict(fmt="LJ", w=w, slot_extra=8, half=5, jitter=False, depth=16, feed="full", slots=16, limit=100))
    for _ in range(14 if tier == "quick" else 140):        # short words, odd depths
        out.append(dict(fmt="STD", w=rng.choice([2, 3, 4, 5, 6, 7]), slot_extra=rng.choice([7, 8, 9]), half=rng.choice([5, 6]), jitter=rng.random() < .5, depth=rng.choice([1, 2, 3, 5, 9]), feed=rng.choice(["full", "jit", "starve"]), slots=26, limit=100))
    m = 1 if tier == "quick" else 8           # long histories
    for i in range(3 * m):
        out.append(dict(fmt="STD", w=rng.choice([8, 12]), slot_extra=2, half=5, jitter=False, depth=rng.choice([2, 4, 16]), feed=["full", "jit", "starve"][i % 3], slots=360, limit=200))
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(fmt="STD", w=w, slot_extra=e, half=h, jitter=True, depth=d, feed=rng.choice(["full", "jit"]), slots=16, limit=200) for w, e, h, d in ((16, 16, 20, 64), (24, 8, 40, 100), (32, 32, 13, 300), (48, 16, 6, 16), (24, 100, 6, 16)) for _ in range(m)]
    out += [dict(fmt="STD", w=w, slot_extra=2, half=5, jitter=False, depth=d, feed="full", slots=16, limit=200) for w, d in ((8, 31), (16, 150), (24, 300)) for _ in range(m)]
    return out


def run_case(c, ctx):
    from amlib.io.i2s import I2STransmitter, I2S_FORMAT
    rng = ctx.rng
    W, S = c["w"], c["w"] + c["slot_extra"]
    if c["fmt"] == "STD" and c["n"] % 2:
        dut = I2STransmitter(sample_width=W, fifo_depth=c["depth"])
    else:
        dut = I2STransmitter(sample_width=W, frame_format=I2S_FORMAT.STANDARD if c["fmt"] == "STD" else I2S_FORMAT.LEFT_JUSTIFIED, fifo_depth=c["depth"])
    b = Bench(dut)
    st = dut.stream_in
    V, R, D, F = (b.port(x) for x in (st.valid, st.ready, st.payload, st.first))
    EN, WS, CK, OUT = (b.port(x) for x in (dut.enable_in, dut.word_select_in, dut.serial_clock_in, dut.serial_data_out))
    UN, MI, LV = (b.port(x) for x in (dut.underflow_out, dut.mismatch_out, dut.fifo_level_out))
    clk = I2SClock(rng, S, c["half"], c["fmt"], c["jitter"])
    first_off = 1 if c["fmt"] == "STD" else 0
    queue = []          # accepted, not yet transmitted: (value, is_left)
    nxt_left = True
    pend = None
    slot_bits, slot_left = [], False
    un = mi = 0
    maxlev = 0
    state = dict(slots=0, judged=0)
    empty_ago = 10**9
    en = 0
    enable_at = rng.randint(0, 4 * c["half"])
    fresh = 0           # slots since enable
    rest = 0
    lateflag = 0
    vclass = ""
    push_gap = 0
    guard = 0
    slot_t = 0
    total = c["slots"]
    n0 = clk.n
    dis_at = rng.randint(6, total - 8) if rng.random() < .3 else None
    avail_at_load = None
    mid = None          # (slot, level, queue length) in the middle of the slot
    lev = out = 0
    since_rise = since_fall = 999
    while state["slots"] < total:
        # --- source
        guard = max(0, guard - 1)
        window = clk.k <= 3 or clk.k >= S - 1          # loads happen here
        if pend is None and push_gap <= 0:
            want = len(queue) < {"full": 99, "jit": 1, "starve": 1, "shuffle": 99}[c["feed"]]
            if want and not (c["feed"] in ("jit", "starve") and window):
                v = rng.choice([0, (1 << W) - 1, 1, 1 << (W - 1), rng.getrandbits(W), rng.getrandbits(W), rng.getrandbits(W)])
                pend = (v, nxt_left)
                nxt_left = not nxt_left
                if c["feed"] == "shuffle" and rng.random() < .2:
                    nxt_left = not nxt_left
        push_gap -= 1
        if pend is not None:
            V.set(1)
            D.set(pend[0])
            F.set(pend[1])
        else:
            V.set(0)
            D.set(rng.getrandbits(W))
            F.set(rng.getrandbits(1))
        # --- clocks
        e = clk.step()
        CK.set(clk.sck)
        WS.set(clk.ws)
        if not en and enable_at <= 0 and not clk.left and 1 <= clk.k < S - 2 and queue:
            en = 1
            EN.set(1)
            fresh = 0
        enable_at -= 1
        b.settle()
        since_rise, since_fall = 0 if e == "rise" else since_rise + 1, 0 if e == "fall" else since_fall + 1
        if OUT.get() != out:
            out ^= 1
            if c["half"] >= 8:
                ctx.check(since_fall < since_rise, "edge", f"data line changes {since_rise} cycles after a rising edge of the bit clock")
                ctx.ev("data_changes")
        now = LV.get()
        ctx.check(now - lev in (0, -1), "level", f"FIFO level goes from {lev} (counting what was accepted) to {now} in one cycle")
        lev = now
        if clk.k == S // 2 and clk.k > 3:
            mid = (clk.n, now, len(queue))
        if pend is not None:
            if R.get():
                lev += 1
                queue.append(pend)
                pend = None
                push_gap = rng.randint(0, 3 * S * c["half"]) if c["feed"] == "starve" else 0
            else:
                ctx.ev("fifo_full")
        un += UN.get()
        mi += MI.get()
        ctx.check(LV.get() <= c["depth"], "level", "FIFO level beyond its depth")
        if e == "rise":
            # --- the receiver samples
            slot_bits.append(OUT.get())
            if len(slot_bits) == S + first_off:
                bits, slot_bits = slot_bits[first_off:], slot_bits[S:]
                left = not clk.left if first_off else clk.left
                val = int("".join(map(str, bits[:W])), 2)
                if en:
                    fresh += 1
                    if mid is not None and mid[0] == clk.n - first_off and fresh >= 5:
                        ctx.eq(mid[1], mid[2] - int(not un and not mi), "level", f"FIFO level in the middle of a slot ({un} underflow, {mi} mismatch)")
                        ctx.ev("levels")
                    judge(c, ctx, queue, val, bits, W, left, fresh, un, mi)
                    un = mi = 0
                    state["slots"] += 1
                else:
                    ctx.check(un == 0 and mi == 0, "strobe", "underflow or mismatch strobe while disabled")
                if dis_at is not None and state["slots"] >= dis_at and en and 2 <= rng.randint(0, 9):
                    # disable in the middle of the following slot, restart later
                    rest = max(1, rng.choice([rng.randint(min(3, S - 3), S - 3), rng.randint(W, S - 2)]))
                    dis_at = None
        if rest and e == "fall":
            rest -= 1
            if rest == 0:
                return finish(c, ctx, b, clk, dut, EN, queue, rng, LV, OUT, CK, WS, V)
        b.tick()
    # the FIFO holds exactly what was accepted and not sent
    ctx.sample = dict(case=c)


def judge(c, ctx, queue, val, bits, W, left, fresh, un, mi):
    ctx.ev("slots")
    key = "samples"
    if fresh <= 2:
        # aligning: the first left word takes the head of the FIFO (slot 1 is the rest of the right slot)
        if fresh == 2 and queue:
            queue.pop(0)
        return
    if un:
        ctx.eq((un, mi), (1, 0), key, "strobes in one slot (underflow, mismatch)")
        ctx.check(not queue or c["feed"] in ("jit", "starve"), key, f"underflow reported with {len(queue)} samples waiting")
        ctx.eq(val, 0, key, "word transmitted while the FIFO was empty")
        ctx.ev("underflows")
        ctx.seen(W, c["slot_extra"], "underflow", left)
    elif mi:
        ctx.eq((un, mi), (0, 1), key, "strobes in one slot (underflow, mismatch)")
        ctx.check(queue and queue[0][1] != left, key, "channel mismatch reported for a sample of the right channel")
        ctx.eq(val, 0, key, "word transmitted on a channel mismatch")
        ctx.ev("mismatches")
        ctx.seen(W, c["slot_extra"], "mismatch", left)
    else:
        ctx.check(queue, key, f"slot carries {val:#x} although no sample was available and no underflow was reported")
        v, l = queue.pop(0)
        ctx.eq(left, l, key, "channel of the transmitted sample (left?)")
        ctx.eq(val, v, key, f"{'left' if left else 'right'} word of {W} bits in a slot of {W + c['slot_extra']}, slot {fresh} after enabling")
        ctx.check(not any(bits[W:]), "padding", "bits after the sample are not zero")
        ctx.ev("samples")
        ctx.seen(W, c["slot_extra"], "sample", left, v in (0, 1), v.bit_count() // 4)


def finish(c, ctx, b, clk, dut, EN, queue, rng, LV, OUT, CK, WS, V):
    """disabled in mid word: after enabling again the transmitter aligns and continues with the queued samples"""
    EN.set(0)
    V.set(0)
    S = c["w"] + c["slot_extra"]
    lev = None
    for t in range(rng.randint(8, 3 * S * c["half"])):
        clk.step()
        CK.set(clk.sck)
        WS.set(clk.ws)
        b.tick()
        b.settle()
        if t == 3:
            lev = LV.get()
        elif t > 3:
            ctx.eq(LV.get(), lev, "disabled", "FIFO level while disabled: nothing is sent, so nothing may be taken")
            ctx.ev("disabled_cycles")
        ctx.check(not b.get(dut.underflow_out) and not b.get(dut.mismatch_out), "strobe", "underflow or mismatch strobe while disabled")
    while clk.left or not 1 <= clk.k < S - 2:
        clk.step()
        CK.set(clk.sck)
        WS.set(clk.ws)
        b.tick()
    EN.set(1)
    # whatever is left in the FIFO is transmitted, in order, from the second word on
    left_over = list(queue)
    k, bits, vals = 0, [], []
    while len(vals) < 12:
        e = clk.step()
        CK.set(clk.sck)
        WS.set(clk.ws)
        b.settle()
        if e == "rise":
            bits.append((clk.n, OUT.get()))
            if clk.k == 0 and len(bits) > 1:
                n = clk.n - 1
                w = [x for m, x in bits if m == n][1:] + [bits[-1][1]]
                if len(w) >= S:
                    vals.append((not clk.left, int("".join(map(str, w[:c["w"]])), 2)))
                bits = [bits[-1]]
        b.tick()
    vals = vals[:]
    lefts = [i for i, (l, v) in enumerate(vals) if l]
    got = [(v, l) for l, v in vals[lefts[0] + 1:] if v]
    # the head is consumed by the aligning word; a partly sent word may have been lost on disabling
    ok = any(got == [x for x in left_over[k:] if x[0]][:len(got)] for k in range(0, 4)) or c["feed"] == "shuffle"
    ctx.check(ok or len([x for x in left_over]) > 9, "reenable", f"words after enabling again: {got}, queued {left_over}")
    ctx.ev("reenabled")
    ctx.sample = dict(case=c, reenabled=True, words=len(got))
