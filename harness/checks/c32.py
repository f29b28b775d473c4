"""C32: one-hot bus multiplexer."""
from ..bench import Bench
RULE = ("A case is a multiplexer over 1..70 interfaces with random lists of multiplexed, OR-ed and passed-back signals (by name and by "
        "function); random data with one or no valid interface. A situation is (interfaces, selected).")
FLOORS = {"selected": 2000, "idle": 300}


def cases(tier, rng):
    big = [dict(n=n, how=h, vectors=120, wide=w) for n, h, w in ((9, 0, 1), (17, 1, 40), (33, 2, 1), (40, 0, 9), (70, 1, 16))]
    return big + [dict(n=rng.choice([1, 2, 2, 3, 4, 5, 6]), how=rng.randrange(3), vectors=150) for _ in range(40 if tier == "quick" else 400)]


def run_case(c, ctx):
    from amaranth import Record
    from amlib.utils import OneHotMultiplexer
    rng = ctx.rng
    vf = "valid" if c["how"] != 1 else "enable"

    WS, X = (c["wide"], 12) if "wide" in c else (5, 0)

    class Bus(Record):
        def __init__(self):
            super().__init__([(vf, 1), ("payload", 8), ("kind", 3), ("flag", 1), ("mask", 4), ("ready", 1), ("status", WS)] + [(f"{p}{k}", WS) for p in "mop" for k in range(12)])
    kw = dict(interface_type=Bus, mux_signals=("payload", "kind") if c["how"] != 2 else (lambda i: i.payload, "kind"),
              or_signals=(vf, "flag", "mask"), pass_signals=("ready", lambda i: i.status))
    for key, p in (("mux_signals", "m"), ("or_signals", "o"), ("pass_signals", "p")):
        kw[key] = kw[key] + tuple(f"{p}{k}" for k in range(X))
    as_type = rng.choice([tuple, list, iter])        # any iterable
    for k in ("mux_signals", "or_signals", "pass_signals"):
        kw[k] = as_type(kw[k])
    if vf != "valid":
        kw["valid_field"] = vf
    d = OneHotMultiplexer(**kw)
    bus = [Bus() for _ in range(c["n"])]
    if c["how"] == 0:
        d.add_interfaces(bus)
    else:
        for i, x in enumerate(bus):
            (d.add_interface if i % 2 else d.add_input)(x)
    b = Bench(d)
    o = d.output
    for t in range(c["vectors"]):
        sel = rng.randrange(c["n"]) if rng.random() < .85 else None
        vals = []
        for i, x in enumerate(bus):
            v = dict(payload=rng.getrandbits(8), kind=rng.getrandbits(3), flag=rng.getrandbits(1) if sel == i or t % 2 else 0, mask=rng.getrandbits(4), **{f"{p}{k}": rng.getrandbits(WS) if rng.random() < .3 else 0 for p in "mo" for k in range(X)})
            vals.append(v)
            b.set(x[vf], int(i == sel))
            for k, y in v.items():
                b.set(x[k], y)
        rdy, stt = rng.getrandbits(1), rng.getrandbits(WS)
        pv = [rng.getrandbits(WS) for _ in range(X)]
        for k, y in enumerate(pv):
            b.set(o[f"p{k}"], y)
        b.set(o.ready, rdy)
        b.set(o.status, stt)
        b.settle()
        if sel is not None:
            ctx.eq((b.get(o.payload), b.get(o.kind)), (vals[sel]["payload"], vals[sel]["kind"]), "mux", f"multiplexed signals with interface {sel} of {c['n']} valid")
            ctx.eq([b.get(o[f"m{k}"]) for k in range(X)], [vals[sel][f"m{k}"] for k in range(X)], "mux", f"many multiplexed signals with interface {sel} of {c['n']} valid")
            ctx.ev("selected")
        else:
            ctx.ev("idle")
        ctx.eq(b.get(o[vf]), int(sel is not None), "or", "valid of the output")
        f = m = 0
        for v in vals:
            f |= v["flag"]
            m |= v["mask"]
        ctx.eq((b.get(o.flag), b.get(o.mask)), (f, m), "or", "OR-ed signals")
        ored = [0] * X
        for v in vals:
            ored = [a | v[f"o{k}"] for k, a in enumerate(ored)]
        ctx.eq([b.get(o[f"o{k}"]) for k in range(X)], ored, "or", "many OR-ed signals")
        for x in bus:
            ctx.eq([b.get(x[f"p{k}"]) for k in range(X)], pv, "pass", "many signals passed back")
            ctx.eq((b.get(x.ready), b.get(x.status)), (rdy, stt), "pass", "signals passed back")
        ctx.seen(c["n"], sel, c["how"], rdy)
