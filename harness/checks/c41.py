"""C41: integrated logic analyser - each trigger captures exactly the samples around it, in order."""
from ..bench import Bench

RULE = ("A case is an analyser (signals of several widths, depth, number of pretrigger samples, with or without sample enable, clock domain) "
        "watching signals that change randomly every cycle; it is triggered several times, also while capturing, and read back in order and in random order; the "
        "memory is compared with the recorded history of the signals, and the status outputs with the course of the capture. A situation is "
        "(depth, pretrigger, enable, capture number, trigger during capture).")
FLOORS = {"captures": 400, "samples": 8000, "ignored_triggers": 400, "disabled": 4000, "reread": 1000}
ASSUMPTIONS = ["the first trigger comes at least (pretrigger + 8) cycles after as many enabled samples as are to be captured before the trigger"]


def cases(tier, rng):
    out = []
    for i in range(170 if tier == "quick" else 2500):
        out.append(dict(depth=rng.choice([1, 2, 3, 8, 12, 16, 31, 32, 50]), pre=rng.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 7, 8, 11, 16]), en=bool(rng.getrandbits(1)),
                        domain=rng.choice(["sync", "sync", "fast"]), captures=4))
    m = 1 if tier == "quick" else 8           # long histories
    out += [dict(depth=rng.choice([1, 2, 3]), pre=rng.choice([0, 1, 2]), en=i % 2 == 0, domain="sync", captures=330) for i in range(4 * m)]
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(depth=d, pre=p, en=rng.random() < .3, domain="sync", captures=2) for d, p in ((64, 0), (100, 31), (128, 64), (256, 2), (300, 100), (1100, 1), (2500, 3), (330, 70), (600, 140)) for _ in range(m)]
    return out


def make_signals(rng):
    from amaranth import Signal, signed
    sigs = []
    for i in range(rng.randint(1, 4)):
        w = rng.choice([1, 1, 2, 7, 8, 12, 16, 30])
        sigs.append(Signal(signed(w) if w > 1 and rng.random() < .3 else w, name=f"s{i}"))
    return sigs


def pack(vals, sigs):
    v, p = 0, 0
    for x, s in zip(vals, sigs):
        v |= x << p
        p += len(s)
    return v


def run_case(c, ctx):
    from amaranth import Module, ClockDomain, Signal
    from amlib.debug.ila import IntegratedLogicAnalyzer
    rng = ctx.rng
    D, P, dom = c["depth"], c["pre"], c["domain"]
    sigs = make_signals(rng)
    kw = dict(domain=dom) if dom != "sync" else {}
    if P != 1 or rng.random() < .5:
        kw["samples_pretrigger"] = P
    dut = IntegratedLogicAnalyzer(signals=sigs, sample_depth=D, with_enable=c["en"], **kw)
    m = Module()
    m.domains += ClockDomain(dom)
    m.domains += ClockDomain("other")
    x = Signal()
    m.d.other += x.eq(~x)
    m.submodules.dut = dut
    b = Bench(m, domains=(dom, "other"))
    S = [b.port(s) for s in sigs]
    EN = b.port(dut.enable) if c["en"] else None
    T, CAP, SMP, CPL = (b.port(x) for x in (dut.trigger, dut.capturing, dut.sampling, dut.complete))
    NUM, OUT = b.port(dut.captured_sample_number), b.port(dut.captured_sample)
    hist = []                    # (value, enabled) per cycle
    pen = 1.0

    def cycle(trigger):
        vals = [rng.getrandbits(len(s)) for s in sigs]
        for p, v in zip(S, vals):
            p.set(v)
        e = int(rng.random() < pen)
        if EN is not None:
            EN.set(e)
        else:
            e = 1
        T.set(trigger)
        hist.append((pack(vals, sigs), e))
        b.settle()

    enabled = since = 0
    for k in range(c["captures"]):
        pen = rng.choice([1.0, .9, .5, .2])
        # idle: fill the pretrigger buffer
        idle, n = rng.choice([0, 1, rng.randint(0, 30)]), 0
        while since < (P + 8 if P > 2 else P) or n < idle:
            cycle(0)
            ctx.check(not CAP.get() and not SMP.get(), "status", "capturing or sampling without a trigger")
            ctx.eq(CPL.get(), int(k > 0), "complete", "complete before the trigger")
            enabled += hist[-1][1]
            since += enabled >= P
            b.tick(dom)
            n += 1
        cycle(1)
        t0 = len(hist) - 1
        ctx.check(not CAP.get(), "status", "capturing already in the cycle of the trigger")
        b.tick(dom)
        stored, busy, extra = 0, 0, False
        limit = 60 * D + 40 * P + 500
        while True:
            again = int(rng.random() < .3)
            cycle(again)
            if not CAP.get():
                break
            extra |= bool(again)
            ctx.ev("ignored_triggers", again)
            ctx.eq(CPL.get(), 0, "complete", "complete while capturing")
            stored += SMP.get()
            ctx.ev("disabled", int(not SMP.get()))
            if c["en"] is False:
                ctx.eq(SMP.get(), 1, "status", "sampling while capturing without sample enable")
            b.tick(dom)
            busy += 1
            ctx.check(busy <= limit, "stuck", "capture does not end")
        hist.pop()               # this cycle is judged, but its clock edge comes with the next one
        T.set(0)
        b.settle()
        ctx.eq(stored, D, "count", "cycles in which samples were stored")
        ctx.eq((CPL.get(), SMP.get()), (1, 0), "complete", "complete, sampling after the capture")
        want = [v for i, (v, e) in enumerate(hist) if e and i >= t0 - P][:D]
        order = list(range(D)) + [rng.randrange(D) for _ in range(8)]
        for j, a in enumerate(order):
            NUM.set(a)
            hist_cycle_tick(b, dom, cycle)
            ctx.eq(OUT.get(), want[a], "sample", f"sample {a} of capture {k} (pretrigger {P}, depth {D}, enable {c['en']}, trigger at cycle {t0})")
            ctx.ev("samples")
            ctx.ev("reread", int(j >= D))
        ctx.eq((CPL.get(), SMP.get(), CAP.get()), (1, 0, 0), "complete", "complete, sampling, capturing after reading")
        ctx.ev("captures")
        ctx.seen(D, P, c["en"], k, extra, dom)
    ctx.sample = dict(case=c, widths=[len(s) for s in sigs])


def hist_cycle_tick(b, dom, cycle):
    cycle(0)
    b.tick(dom)
    b.settle()
