"""C47: peripherals - declared registers, windows and events are where the memory map says and work over the bus."""
from ..bench import Bench

RULE = ("A case is a peripheral with random register banks (widths, accesses, addresses, alignments), windows and events behind a bus of random width; a bus master reads and writes random words with random byte selects, "
        "events fire at random; every register's strobes and data, every window access, the event registers and the interrupt line are judged against a model that knows only the declarations and the memory map. "
        "A situation is (bus width, register width, access, offset in the word, read or write).")
FLOORS = {"registers": 400, "reads": 3000, "writes": 3000, "read_strobes": 1500, "write_strobes": 1500, "window_accesses": 400, "event_reads": 300, "irq_cycles": 2000, "no_interrupt": 10}
ASSUMPTIONS = ["the register multiplexer, bus bridge, decoder and memory map of amaranth_soc are functional stand-ins (first byte samples on reading, last byte commits on writing)"]


def cases(tier, rng):
    n = 1 if tier == "quick" else 15
    out = [dict(dw=rng.choice([8, 16, 32, 32, 32, 64]), align=rng.choice([0, 0, 1, 2, 2, 3]), banks=rng.choice([0, 1, 1, 1, 2, 3]), events=rng.choice([0, 0, 1, 2, 3, 9]), windows=rng.choice([0, 0, 0, 1, 2]), ops=120)
            for _ in range(240 * n)]
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(dw=32, align=0, banks=b, events=e, windows=w, ops=150) for b, e, w in ((5, 0, 0), (8, 17, 0), (1, 33, 0), (2, 3, 4), (0, 40, 1)) for _ in range(m)]
    return out


def run_case(c, ctx):
    from amaranth import Module, Elaboratable
    from amlib.soc.peripheral import Peripheral
    rng = ctx.rng
    dw, align, parts = c["dw"], c["align"], c["dw"] // 8
    if not (c["banks"] or c["events"] or c["windows"]):
        c["banks"] = 1
    regs, wins, evs = [], [], []
    inferred = rng.random() < .4           # names come from the variables

    class Thing(Peripheral, Elaboratable):
        def __init__(self):
            if inferred:
                super().__init__()
            else:
                super().__init__(name="thing")
            base = 0
            down = c["banks"] == 2 and rng.random() < .4       # the second bank at zero, below the first
            for k in range(c["banks"]):
                kw = {}
                if down:
                    kw["addr"] = base = (1024, 0)[k]
                elif rng.random() < .3:
                    base = 1024 * (k + 1)
                    kw["addr"] = base
                ba = None
                if rng.random() < .3:
                    ba = kw["alignment"] = rng.choice([0, 0, 1, 2])
                bank = self.csr_bank(**kw)
                next_addr = 0
                for j in range(rng.randint(1, 5)):
                    ek, ea = {}, None
                    if rng.random() < (.6 if ba == 0 else .2):
                        ea = ek["alignment"] = rng.choice([0, 0, 1, 2, 3])
                    if rng.random() < .15:
                        a = max(align if ba is None else ba, align if ea is None else ea)
                        next_addr = ek["addr"] = (next_addr + 8 >> a) + 1 << a
                    width, access = rng.choice([1, 3, 8, 8, 9, 16, 17, 32]), rng.choice(["r", "w", "rw"])
                    name = f"b{k}r{j}"
                    if inferred and not ("b0r0" in [r["name"][6:] for r in regs]):
                        _b0r0 = bank.csr(width, access, **ek)
                        e = _b0r0
                    else:
                        e = bank.csr(width, access, name=name, **ek)
                    # the largest of: alignment of the bank (default: that of the bridge) and that of the register (likewise)
                    regs.append(dict(name="thing_" + name, width=width, access=access, elem=e, bank=k, align=max(align if ba is None else ba, align if ea is None else ea),
                                     base=kw.get("addr"), addr=ek.get("addr")))
                    next_addr += 32
                    if "addr" in ek:
                        next_addr = ek["addr"] + 32
                    if next_addr > 200:
                        break
            for k in range(c["windows"]):
                # behind everything else, so that it never collides with an explicit address
                w = self.window(addr_width=rng.choice([0, 1, 2, 3, 5]), data_width=dw, granularity=8, addr=4096 * (k + 1) if rng.random() < .5 or c["banks"] else None)
                wins.append(w)
            for k in range(c["events"]):
                mode = rng.choice(["level", "rise", "fall"])
                if mode == "level" and rng.random() < .5:
                    _evx = self.event()
                else:
                    _evx = self.event(mode=mode, name=f"ev{k}")
                evs.append((mode, _evx))
            if dw == 8 and align == 0 and rng.random() < .7:
                self._bridge = self.bridge()
            else:
                self._bridge = self.bridge(data_width=dw, granularity=8, alignment=align)
            self.bus = self._bridge.bus
            if evs:
                self.irq = self._bridge.irq

        def elaborate(self, platform):
            m = Module()
            m.submodules.bridge = self._bridge
            return m
    thing = Thing()
    dut = thing
    ctx.eq(dut.name, "thing", "name", "name of the peripheral")
    mm = dut.bus.memory_map
    where = {}
    for r in mm.all_resources():
        nm = r.name[-1]
        ctx.check(nm not in where, "map", f"{nm} is in the memory map twice")
        where[nm] = r
    want = {r["name"] for r in regs} | ({f"thing_ev_{k}" for k in ("status", "pending", "enable")} if evs else set())
    ctx.eq(set(where), want, "map", "registers in the memory map")
    spans = sorted((r.start, r.end) for r in where.values())
    ctx.check(all(a[1] <= b[0] for a, b in zip(spans, spans[1:])), "overlap", f"registers overlap: {spans}")
    first = {}
    for i, r in enumerate(regs):
        w = where[r["name"]]
        first.setdefault(r["bank"], w.start if r["addr"] is None else None)
        ctx.eq(w.end - w.start, (r["width"] + 7) // 8, "size", f"bytes of {r['name']}")
        ctx.check(w.start % (1 << r["align"]) == 0, "align", f"{r['name']} is at {w.start:#x}, which is not aligned to 2**{r['align']}")
        if r["base"] is not None and r["addr"] is not None:
            ctx.eq(w.start, r["base"] + r["addr"], "address", f"address of {r['name']}")
        elif r["base"] is not None and (i == 0 or regs[i - 1]["bank"] != r["bank"]):
            ctx.eq(w.start, r["base"], "address", f"address of the first register of a bank at {r['base']:#x}")
        if i and regs[i - 1]["bank"] == r["bank"]:
            p = where[regs[i - 1]["name"]]
            ctx.check(p.end <= w.start, "order", f"{r['name']} lies before the register declared before it")
            if r["addr"] is None:
                up = lambda v, a: v + (1 << a) - 1 >> a << a
                ctx.eq(w.start, up(up(p.end, regs[i - 1]["align"]), r["align"]), "align", f"address of {r['name']}, aligned to 2**{r['align']}, behind {p.name[-1]} (ends at {p.end:#x}, aligned to 2**{regs[i - 1]['align']})")
        ctx.check(w.resource is r["elem"], "map", "the memory map does not name the register")
        ctx.ev("registers")
    if evs:
        s, p, e = (where[f"thing_ev_{k}"] for k in ("status", "pending", "enable"))
        ctx.check(s.end <= p.start and p.end <= e.start, "order", "order of the event registers")
        ctx.check(all(x.start % (1 << align) == 0 for x in (s, p, e)), "align", "alignment of the event registers")
    else:
        try:
            dut.irq
        except NotImplementedError:
            ctx.ev("no_interrupt")
        else:
            ctx.fail("irq", "a peripheral without events has an interrupt line")
    wranges = []
    for w in wins:
        for o, (s, e, ratio) in mm.windows():
            if o is w.memory_map:
                wranges.append((s, e))
                ctx.eq(e - s, (1 << len(w.adr)) * parts, "window", f"bytes of a window of {1 << len(w.adr)} words of {dw} bits")
    ctx.eq(len(wranges), len(wins), "window", "windows in the memory map")
    b = Bench(dut)
    bus = dut.bus
    A, DW, DR, SEL, CYC, STB, WE, ACK = (b.port(x) for x in (bus.adr, bus.dat_w, bus.dat_r, bus.sel, bus.cyc, bus.stb, bus.we, bus.ack))
    for r in regs:
        e = r["elem"]
        r["r"] = "r" in r["access"]
        r["w"] = "w" in r["access"]
        if r["r"]:
            r["RD"], r["RS"] = b.port(e.r_data), b.port(e.r_stb)
        if r["w"]:
            r["WD"], r["WS"] = b.port(e.w_data), b.port(e.w_stb)
        r["part"] = {}
    WP = [tuple(b.port(x) for x in (w.adr, w.dat_w, w.dat_r, w.sel, w.cyc, w.stb, w.we, w.ack)) for w in wins]
    EP = [b.port(ev.stb) for _, ev in evs]
    n = len(evs)
    IRQ = b.port(dut.irq) if evs else None
    # model of the events: what is pending is only ever cleared by a bus write; the strobes are still while the bus is busy with the event registers
    st = dict(pending=0, enable=0, last=[0] * n)

    def tick(fire=True):
        """one cycle; -> (read strobes, write strobes, window accesses)"""
        now = [int(rng.random() < .3) if fire else st["last"][i] for i in range(n)]
        for p, v in zip(EP, now):
            p.set(v)
        values = []
        for r in regs:
            if r["r"]:
                r["now"] = rng.getrandbits(r["width"])
                r["RD"].set(r["now"])
        b.settle()
        acc = None
        for i, (wa, wdw, wdr, ws, wc, wst, wwe, wack) in enumerate(WP):
            if wc.get() and wst.get():
                acc = (i, wa.get(), wwe.get(), ws.get(), wdw.bits())
                tick.reply = rng.getrandbits(dw)
                wdr.set(tick.reply)
                wack.set(1)
                b.settle()
            else:
                wack.set(0)
        rs = [(i, r["now"]) for i, r in enumerate(regs) if r["r"] and r["RS"].get()]
        ws = [(i, r["WD"].bits()) for i, r in enumerate(regs) if r["w"] and r["WS"].get()]
        ack, dr = ACK.get(), DR.bits()
        if evs:
            ctx.eq(IRQ.get(), int(bool(st["pending"] & st["enable"])), "irq", f"interrupt line, pending {st['pending']:b}, enabled {st['enable']:b}")
            ctx.ev("irq_cycles", IRQ.get())
        b.tick("sync")
        for i, (mode, _) in enumerate(evs):
            st["pending"] |= dict(level=now[i], rise=now[i] & ~st["last"][i], fall=st["last"][i] & ~now[i])[mode] << i
        st["last"] = now
        for *_, wack in WP:
            wack.set(0)
        return ack, dr, rs, ws, acc
    evregs = {k: where[f"thing_ev_{k}"] for k in ("status", "pending", "enable")} if evs else {}
    targets = [r for r in where.values()]
    for _ in range(c["ops"]):
        for _ in range(rng.choice([0, 0, 1, 4])):
            ack, dr, rs, ws, acc = tick()
            ctx.eq((ack, rs, ws, acc), (0, [], [], None), "idle", "activity without a bus access")
        k = rng.random()
        if wins and k < .3 or not targets:
            s, e = rng.choice(wranges)
            byte = rng.randrange(s, e)
        elif k < .93:
            r = rng.choice(targets)
            byte = rng.randrange(r.start, r.end)
        else:
            byte = rng.randrange(1 << mm.addr_width)
        word = byte // parts
        we, sel, val = rng.getrandbits(1), rng.choice([(1 << parts) - 1, rng.getrandbits(parts), 1 << byte % parts]), rng.getrandbits(dw)
        CYC.set(1); STB.set(1); A.set(word); WE.set(we); SEL.set(sel); DW.set(val)
        ev_touched = any(v.start // parts <= word <= (v.end - 1) // parts for v in evregs.values())
        in_window = [i for i, (s, e) in enumerate(wranges) if s <= word * parts < e]
        mapped = in_window or any(v.start // parts == word or (v.end - 1) // parts == word or v.start // parts < word < v.end // parts for v in where.values())
        got_rs, got_ws, got_acc = [], [], []
        if ev_touched:                     # let everything settle, so that each register has one value during the access
            CYC.set(0)
            # (level events stay pending while their strobe is high)
            tick(False)
            CYC.set(1)
        status = sum(v << i for i, v in enumerate(st["last"]))
        pend0, en0 = st["pending"], st["enable"]
        done = False
        for t in range(parts + 8):
            # a write to pending or enable takes effect some time during the access, the line is judged again after it
            if ev_touched and we:
                now_irq = None
                b.settle()
                for i, (mode, _) in enumerate(evs):
                    EP[i].set(st["last"][i])
                b.settle()
                rs, ws, acc = [(i, r.get("now")) for i, r in enumerate(regs) if r["r"] and r["RS"].get()], [(i, r["WD"].bits()) for i, r in enumerate(regs) if r["w"] and r["WS"].get()], None
                ack, dr = ACK.get(), DR.bits()
                b.tick("sync")
            else:
                ack, dr, rs, ws, acc = tick(not ev_touched)
            got_rs += rs
            got_ws += ws
            if acc:
                got_acc.append(acc)
            if ack:
                done = True
                break
        CYC.set(0); STB.set(0)
        ctx.check(done or not mapped, "ack", f"access to word {word:#x} is not acknowledged")
        if in_window:
            i = in_window[0]
            ctx.eq(got_acc, [(i, word - wranges[i][0] // parts, we, sel, val)], "window", f"accesses seen by window {i}")
            if not we:
                ctx.eq(dr, tick.reply, "window", "data read from a window")
            ctx.eq((got_rs, got_ws), ([], []), "window", "register strobes during a window access")
            ctx.ev("window_accesses")
            continue
        ctx.eq(got_acc, [], "window", "window accesses during a register access")
        want_rs, want_ws = [], []
        expect, judged = 0, 0
        for lane in range(parts):
            if not sel >> lane & 1:
                continue
            a = word * parts + lane
            for i, r in enumerate(regs):
                w = where[r["name"]]
                if not w.start <= a < w.end:
                    continue
                o = a - w.start
                if we and r["w"]:
                    r["part"][o] = val >> 8 * lane & 255
                    if a == w.end - 1:
                        if len(r["part"]) == w.end - w.start:
                            want_ws.append((i, sum(v << 8 * j for j, v in r["part"].items()) & (1 << r["width"]) - 1))
                        else:
                            want_ws.append((i, None))
                if not we and r["r"]:
                    if o == 0:
                        want_rs.append(i)
                        hit = [v for j, v in got_rs if j == i]
                        r["sample"] = hit[0] if hit else None
                    if r.get("sample") is not None:
                        expect |= (r["sample"] >> 8 * o & 255) << 8 * lane
                        judged |= 255 << 8 * lane
                ctx.seen(dw, r["width"], r["access"], a % parts, we)
            for k, w in evregs.items():
                if not w.start <= a < w.end or we:
                    continue
                v = dict(status=status, pending=pend0, enable=en0)[k] >> 8 * (a - w.start) & 255
                # registers wider than a byte are sampled by their first byte
                if a == w.start or st.get(("s", k)):
                    if a == w.start:
                        st[("s", k)] = [dict(status=status, pending=pend0, enable=en0)[k]]
                    v = st[("s", k)][0] >> 8 * (a - w.start) & 255
                    expect |= v << 8 * lane
                    judged |= 255 << 8 * lane
                    ctx.ev("event_reads")
        ctx.eq(sorted(i for i, _ in got_rs), sorted(want_rs), "read-strobe", f"read strobes (register numbers) for a {'write' if we else 'read'} of word {word:#x}, select {sel:b}")
        ctx.eq([i for i, _ in got_ws], [i for i, _ in want_ws], "write-strobe", f"write strobes (register numbers) for a {'write' if we else 'read'} of word {word:#x}, select {sel:b}")
        for (i, g), (_, w) in zip(got_ws, want_ws):
            if w is not None:
                ctx.eq(g, w, "write", f"value written to {regs[i]['name']} ({regs[i]['width']} bits)")
        if not we and mapped:
            ctx.eq(dr & judged, expect, "read", f"data read from word {word:#x} (select {sel:b})")
        if we and ev_touched:
            for k, w in evregs.items():
                for a in range(w.start, w.end):
                    lane = a - word * parts
                    if 0 <= lane < parts and sel >> lane & 1:
                        st.setdefault(("w", k), {})[a - w.start] = val >> 8 * lane & 255
                        if a == w.end - 1:
                            buf = st[("w", k)]
                            if len(buf) < w.end - w.start:
                                # upper part only: the rest of the value is unspecified, start over
                                return
                            v = sum(x << 8 * j for j, x in buf.items()) & (1 << n) - 1
                            if k == "pending":
                                st["pending"] &= ~v
                                for i, (mode, _) in enumerate(evs):
                                    st["pending"] |= (mode == "level" and st["last"][i]) << i
                            elif k == "enable":
                                st["enable"] = v
        ctx.ev("writes" if we else "reads")
        ctx.ev("read_strobes", len(got_rs))
        ctx.ev("write_strobes", len(got_ws))
    ctx.sample = dict(case=c, registers=[(r["name"], r["width"], r["access"], hex(where[r["name"]].start)) for r in regs])
