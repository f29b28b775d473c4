"""C46: interrupt sources - no event is lost, none is invented, and the interrupt line follows exactly the enabled pending events."""
from ..bench import Bench

RULE = ("A case is an interrupt source with one to eight events of random trigger kinds whose strobes and register accesses are driven randomly (also clearing and enabling in the very cycle of an event); "
        "every cycle the three registers and the interrupt line are compared with a model. A situation is (trigger kind, strobe before, strobe now, clear in the same cycle, pending before, enabled).")
FLOORS = {"cycles": 20000, "events": 10000, "clear_and_event": 1500, "clears": 3000, "irq": 5000, "kinds_checked": 50}
ASSUMPTIONS = ["the register and interrupt line classes of amaranth_soc and lambdasoc are functional stand-ins"]


def cases(tier, rng):
    n = 1 if tier == "quick" else 15
    out = [dict(modes=[rng.choice(["level", "rise", "fall"]) for _ in range(rng.choice([1, 1, 2, 3, 3, 5, 8]))], p=rng.choice([.1, .5, .5, .9]), w=rng.choice([.05, .2, .6]), cycles=400) for _ in range(120 * n)]
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(modes=[rng.choice(["level", "rise", "fall"]) for _ in range(k)], p=.3, w=.3, cycles=500) for k in (16, 17, 31, 33, 40, 64) for _ in range(m)]
    return out


def run_case(c, ctx):
    from amlib.soc.event import EventSource, InterruptSource
    rng = ctx.rng
    modes = c["modes"]
    events = [EventSource(mode=k, name=f"e{i}") if k != "level" or rng.random() < .5 else EventSource(name=f"e{i}") for i, k in enumerate(modes)]
    ctx.eq([e.mode for e in events], modes, "mode", "trigger kinds")
    dut = InterruptSource(events, name="src")
    for bad in ("high", 1, None):
        try:
            EventSource(mode=bad, name="bad")
        except ValueError:
            ctx.ev("kinds_checked")
        else:
            ctx.fail("mode", f"an event with trigger kind {bad!r} was accepted")
    b = Bench(dut)
    n = len(events)
    STB = [b.port(e.stb) for e in events]
    ST, PD, PW, PS = b.port(dut.status.r_data), b.port(dut.pending.r_data), b.port(dut.pending.w_data), b.port(dut.pending.w_stb)
    EN, EW, ES, IRQ = b.port(dut.enable.r_data), b.port(dut.enable.w_data), b.port(dut.enable.w_stb), b.port(dut.irq)
    ctx.eq((ST.width, PD.width, EN.width), (n, n, n), "width", "register widths")
    status = pending = enable = 0
    last = [0] * n
    for t in range(c["cycles"]):
        now = [int(rng.random() < c["p"]) if rng.random() < .5 else last[i] for i in range(n)]
        for p, v in zip(STB, now):
            p.set(v)
        pws, ews = int(rng.random() < c["w"]), int(rng.random() < c["w"])
        pwd, ewd = rng.getrandbits(n), rng.getrandbits(n)
        PS.set(pws); PW.set(pwd); ES.set(ews); EW.set(ewd)
        b.settle()
        ctx.eq((ST.get(), PD.get(), EN.get(), IRQ.get()), (status, pending, enable, int(bool(pending & enable))), "registers",
               f"(status, pending, enabled, interrupt) in cycle {t} of events {modes}")
        trig = 0
        for i, k in enumerate(modes):
            hit = dict(level=now[i], rise=now[i] & ~last[i] & 1, fall=last[i] & ~now[i] & 1)[k]
            trig |= hit << i
            ctx.ev("events", hit)
            ctx.ev("clear_and_event", int(hit and pws and pwd >> i & 1))
            ctx.seen(k, last[i], now[i], pws and pwd >> i & 1, pending >> i & 1, enable >> i & 1)
        ctx.ev("clears", pws)
        ctx.ev("irq", IRQ.get())
        ctx.ev("cycles")
        b.tick("sync")
        status = sum(v << i for i, v in enumerate(now))
        pending = (pending & ~(pwd if pws else 0)) | trig
        if ews:
            enable = ewd
        last = now
    ctx.sample = dict(case=c)
