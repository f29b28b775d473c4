"""C28: strobe stretcher and input synchroniser."""
from ..bench import Bench
RULE = ("A case builds a stretcher (length, delay option, given output and domain) or a synchroniser (signal, nested record with "
        "directions, stages, domain) and drives random waveforms. A situation is (kind, parameters, recent history).")
FLOORS = {"stretched": 2000, "synchronized": 2000}


def cases(tier, rng):
    k = 1 if tier == "quick" else 8
    out = [dict(kind="stretch", n=0, to=rng.choice([1, 2, 2, 3, 4, 5, 8, 16, 33]), delay=bool(rng.getrandbits(1)), out=bool(rng.getrandbits(1)), dom=rng.choice(["sync", "fast"])) for _ in range(50 * k)]
    out += [dict(kind="sync", rec=bool(i % 2), stages=rng.choice([2, 2, 3, 4]), given=bool(rng.getrandbits(1)), dom=rng.choice(["sync", "fast"]), width=rng.choice([1, 4, 9])) for i in range(40 * k)]
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(kind="stretch", n=0, to=t, delay=dl, out=False, dom="sync") for t in (63, 64, 65, 66, 100, 129, 200, 300) for dl in (False, True) for _ in range(m)]
    out += [dict(kind="sync", rec=True, many=k, stages=st, given=False, dom="sync", width=40) for k, st in ((3, 2), (7, 5), (12, 2), (40, 3))]
    out += [dict(kind="sync", rec=True, own=True, stages=st, given=bool(rng.getrandbits(1)), dom=rng.choice(["sync", "fast"]), width=w) for st in (2, 3, 4) for w in (1, 5, 33)]
    return out


def run_case(c, ctx):
    from amaranth import Module, Signal, ClockDomain, Record
    from amaranth.hdl.rec import DIR_FANIN, DIR_FANOUT, DIR_NONE
    from amlib.utils import stretch_strobe_signal, synchronize
    rng = ctx.rng
    m = Module()
    dom = c["dom"]
    m.domains += ClockDomain(dom)
    keep = Signal()
    m.d[dom] += keep.eq(~keep)
    if c["kind"] == "stretch":
        s, o = Signal(), Signal()
        kw = {}
        if c["out"]:
            kw["output"] = o
        if dom != "sync":
            kw["domain"] = m.d[dom]
        if c["delay"]:
            kw["allow_delay"] = True
        r = stretch_strobe_signal(m, s, to_cycles=c["to"], **kw)
        if c["out"]:
            ctx.check(r is o, "output", "the given output was not returned")
        q = Signal()
        m.d.comb += q.eq(r)
        b = Bench(m, domains=(dom,))
        S, Q = b.port(s), b.port(q)
        h = []
        p = rng.choice([.02, .1, .4]) if c["to"] < 40 else .4 / c["to"]
        n = c["to"]
        for t in range(300 if c["to"] < 40 else 8 * c["to"]):
            v = int(rng.random() < p)
            S.set(v)
            b.settle()
            h.append(v)
            want = any(h[-n:]) if not c["delay"] or n == 1 else any(h[-n - 1:-1])
            ctx.eq(Q.get(), int(want), "stretch", f"strobe stretched to {n} cycles (delay {c['delay']}), recent strobes {h[-n - 1:]}")
            ctx.ev("stretched", want)
            ctx.seen("stretch", n, c["delay"], dom, tuple(h[-3:]))
            b.tick(dom)
        return
    st = c["stages"]
    kw = {} if dom == "sync" else dict(o_domain=dom)
    if st != 2:
        kw["stages"] = st
    if not c["rec"]:
        s = Signal(c["width"])
        ins = [s]
        if c["given"]:
            o = Signal(c["width"])
            ctx.check(synchronize(m, s, output=o, **kw) is o, "output", "the given output was not returned")
        else:
            o = synchronize(m, s, **kw)
        pairs = [(s, o)]
        back = []
    else:
        lay = [("a", c["width"], DIR_FANIN), ("b", 3, DIR_FANOUT), ("n", [("c", 2, DIR_FANIN), ("d", 1, DIR_FANOUT)])]
        for k in range(c.get("many", 0)):           # records with many and wide fields
            lay.append((f"f{k}", rng.randint(1, 70), DIR_FANIN) if k % 3 else (f"f{k}", rng.randint(1, 70), DIR_FANOUT))
            if k % 4 == 3:
                lay.append((f"m{k}", [("p", [("q", 9, DIR_FANIN), ("r", 40, DIR_FANOUT)])]))
        if c.get("own"):                            # an object that synchronises itself, inverting its first field
            from amaranth.lib.cdc import FFSynchronizer

            class Own(Record):
                def _synchronize_(self, m, output, o_domain="sync", stages=2):
                    m.submodules += FFSynchronizer(~self.a, output.a, o_domain=o_domain, stages=stages, reset=-1)
                    m.submodules += FFSynchronizer(self.n.c, output.n.c, o_domain=o_domain, stages=stages)
                    m.d.comb += [self.b.eq(output.b), self.n.d.eq(output.n.d)]
            s = Own(lay)
        else:
            s = Record(lay)
        if c["given"]:
            o = Record(lay)
            synchronize(m, s, output=o, **kw)
        else:
            o = synchronize(m, s, **kw)
        pairs = [(s.a, o.a), (s.n.c, o.n.c)]
        back = [(o.b, s.b), (o.n.d, s.n.d)]
        for k in range(c.get("many", 0)):
            (pairs.append((s[f"f{k}"], o[f"f{k}"])) if k % 3 else back.append((o[f"f{k}"], s[f"f{k}"])))
            if k % 4 == 3:
                pairs.append((s[f"m{k}"].p.q, o[f"m{k}"].p.q))
                back.append((o[f"m{k}"].p.r, s[f"m{k}"].p.r))
    outs = []
    for i, (x, y) in enumerate(pairs + back):
        q = Signal(len(y), name=f"q{i}")
        m.d.comb += q.eq(y)
        outs.append(q)
    b = Bench(m, domains=(dom,))
    X = [b.port(x) for x, _ in pairs]
    B = [b.port(x) for x, _ in back]
    Q = [b.port(q) for q in outs]
    hist = [[0] * (st + 1) for _ in pairs]
    for t in range(150):
        for i, x in enumerate(X):
            v = rng.getrandbits(x.width)
            x.set(v)
            hist[i].append(v)
        bv = []
        for x in B:
            v = rng.getrandbits(x.width)
            x.set(v)
            bv.append(v)
        b.settle()
        for i in range(len(X)):
            want = hist[i][-1 - st] ^ ((1 << c["width"]) - 1 if c.get("own") and i == 0 else 0)
            ctx.eq(Q[i].get(), want, "sync", f"synchronised value ({st} stages)")
        for i in range(len(B)):
            ctx.eq(Q[len(X) + i].get(), bv[i], "passback", "output-direction field passed back")
        ctx.ev("synchronized")
        ctx.seen("sync", st, dom, c["rec"], c["width"], hist[0][-1])
        b.tick(dom)
