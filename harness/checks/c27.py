"""C27: edge detectors, edge to pulse, past value."""
from ..bench import Bench
RULE = ("A case wires the detector functions to random signals in a random clock domain and compares every cycle with the previous and "
        "current sample. A situation is (domain, previous, current, widths).")
FLOORS = {"rising": 1000, "falling": 1000, "past": 3000}


def cases(tier, rng):
    return [dict(domain="sync" if i % 3 else "fast", width=rng.choice([1, 2, 8, 17, 32]), signed=bool(rng.getrandbits(1)), cycles=400) for i in range(48 if tier == "quick" else 480)]


def run_case(c, ctx):
    from amaranth import Module, Signal, ClockDomain, signed, unsigned
    from amlib.utils import rising_edge_detected, falling_edge_detected, any_edge_detected, past_value_of, EdgeToPulse
    rng = ctx.rng
    m = Module()
    dom = c["domain"]
    m.domains += ClockDomain(dom)
    other = "slow"
    m.domains += ClockDomain(other)
    s = Signal()
    w = Signal(signed(c["width"]) if c["signed"] and c["width"] > 1 else unsigned(c["width"]))
    kw = {} if dom == "sync" else dict(domain=dom)
    o = [Signal(name=f"o{i}") for i in range(4)]
    sg = c["signed"] and c["width"] > 1
    pv = Signal(signed(c["width"] + 5))            # wider, so that the sign shows
    px = Signal(signed(c["width"] + 5))
    m.d.comb += [o[0].eq(rising_edge_detected(m, s, **kw)), o[1].eq(falling_edge_detected(m, s, **kw)),
                 o[2].eq(any_edge_detected(m, s, **kw)), pv.eq(past_value_of(m, w, domain=dom)), px.eq(past_value_of(m, w + s, domain=dom))]
    if dom == "sync":
        e = EdgeToPulse()
        m.submodules.e = e
        m.d.comb += [e.edge_in.eq(s), o[3].eq(e.pulse_out)]
    anchor = Signal()
    m.d[other] += anchor.eq(~anchor)
    b = Bench(m, domains=(dom, other))
    S, W, PV, PX = b.port(s), b.port(w), b.port(pv), b.port(px)
    O = [b.port(x) for x in o]
    last, lw, lx = 0, 0, 0

    def wide(v):                       # the value as the wider output shows it
        if sg and v >> (c["width"] - 1):
            v -= 1 << c["width"]
        return v
    full = (1 << c["width"] + 5) - 1
    p = rng.choice([.1, .5, .9])
    for t in range(c["cycles"]):
        v, x = int(rng.random() < p), rng.getrandbits(c["width"])
        S.set(v)
        W.set(x)
        b.settle()
        ctx.eq((O[0].get(), O[1].get(), O[2].get()), (int(v and not last), int(last and not v), int(v != last)), "edges",
               f"(rising, falling, any) for {last} -> {v}")
        if dom == "sync":
            ctx.eq(O[3].get(), int(v and not last), "pulse", f"pulse for {last} -> {v}")
        ctx.eq(PV.bits(), wide(lw) & full, "past", f"past value of a {c['width']} bit signal (signed {sg})")
        ctx.eq(PX.bits(), lx & full, "past", f"past value of a sum with a {c['width']} bit signal (signed {sg})")
        ctx.ev("rising", int(v and not last))
        ctx.ev("falling", int(last and not v))
        ctx.ev("past")
        ctx.seen(dom, last, v, c["width"], x & 15)
        if rng.random() < .3:
            b.tick(other)          # the other clock domain must not matter
            b.settle()
            ctx.eq(O[0].get(), int(v and not last), "domain", "rising edge output after an edge of another clock")
            ctx.eq(PV.bits(), wide(lw) & full, "domain", "past value after an edge of another clock")
        b.tick(dom)
        last, lw = v, x & ((1 << c["width"]) - 1)
        lx = wide(lw) + v
