"""C19: stream and FIFO connections carry every field to the right place and lose, duplicate or reorder nothing."""
from ..bench import Bench

RULE = ("A case is a connection: stream to stream (plain, with extra fields, with omitted fields, through a tap) checked on random field "
        "values, or stream - FIFO - stream with random flag positions checked as a queue with flags under random backpressure. A situation is "
        "(kind, configuration, valid/ready/flag pattern).")
FLOORS = {"direct": 8000, "queued": 3000, "full": 200, "empty": 200, "flags": 1000}


def cases(tier, rng):
    out = []
    k = 1 if tier == "quick" else 12
    for i in range(40 * k):
        out.append(dict(kind="direct", width=rng.choice([1, 8, 16, 24]), extra=rng.choice([0, 0, 1, 2]), how=rng.choice(["attach", "connect", "stream_eq", "tap", "tap_ready"]),
                        omit=rng.choice([[], [], ["ready"], ["first", "last"], ["payload"], ["valid"], ["x0"]])))
    for i in range(40 * k):
        w = rng.choice([1, 4, 8, 16])
        flags = rng.choice(["none", "both", "both", "first", "last", "payload"])
        fb = lb = None
        fw = w
        if flags == "payload" and w >= 3:
            fb, lb = rng.sample(range(w), 2)
            if rng.random() < .5:
                fb = 0
                lb = rng.randint(1, w - 1)
        elif flags in ("both", "first", "last", "payload"):
            fw = w + 2 + rng.choice([0, 0, 3])
            fb, lb = rng.sample(range(w, fw), 2)
            if flags == "first":
                lb = None
            if flags == "last":
                fb = None
        out.append(dict(kind="fifo", width=w, fifo_width=fw, firstBit=fb, lastBit=lb, depth=rng.choice([1, 2, 3, 8]), buffered=bool(i % 2), cycles=600))
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(kind="fifo", width=w, fifo_width=w + 2, firstBit=w, lastBit=w + 1, depth=d, buffered=rng.random() < .5, cycles=2500) for w, d in ((32, 64), (64, 16), (8, 100), (8, 300)) for _ in range(m)]
    out += [dict(kind="fifo", width=w, fifo_width=fw, firstBit=fb, lastBit=lb, depth=3, buffered=rng.random() < .5, cycles=400)   # fixed flag positions
            for w, fw, fb, lb in ((8, 8, 0, None), (8, 8, None, 0), (8, 8, 0, 7), (8, 8, 7, 0), (1, 3, 0, 1), (1, 3, 2, 0), (4, 9, 8, None), (4, 9, None, 4), (4, 9, 3, 8), (16, 18, 17, 0)) for _ in range(m)]
    out += [dict(kind="direct", width=8 * v, extra=x, strobes=v, how=how, omit=omit) for v, x in ((4, 0), (2, 2)) for how, omit in
            (("attach", []), ("connect", ["last"]), ("tap", []), ("tap_ready", []), ("stream_eq", ["valid"]), ("stream_eq", []))]
    out += [dict(kind="direct", width=w, extra=x, wide=True, how=how, omit=omit) for w, x in ((300, 5), (64, 12), (33, 40)) for how, omit in (("attach", []), ("connect", ["x3", "ready"]), ("tap", []), ("tap_ready", []), ("stream_eq", ["x0"]))]
    return out


def run_case(c, ctx):
    (direct if c["kind"] == "direct" else fifo)(c, ctx)


def direct(c, ctx):
    from amlib.stream import StreamInterface
    from amaranth import Module
    rng = ctx.rng
    W = c["width"]
    extra = [(f"x{i}", 7 * i + 1 if c.get('wide') else i + 1) for i in range(c["extra"])] or None
    nv = dict(valid_width=c["strobes"]) if "strobes" in c else {}
    src = StreamInterface(payload_width=W, extra_fields=extra, name="src", **nv)
    dst = StreamInterface(payload_width=W, extra_fields=extra, name="dst", **nv)
    m = Module()
    kw = {}
    omit = set(c["omit"])
    if c["how"] in ("attach", "connect", "stream_eq"):
        if omit:
            kw["omit"] = rng.choice([set, list])(omit)
        m.d.comb += {"attach": lambda: src.attach(dst, **kw), "connect": lambda: src.connect(dst, **kw), "stream_eq": lambda: dst.stream_eq(src, **kw)}[c["how"]]()
    else:
        m.d.comb += dst.tap(src, tap_ready=c["how"] == "tap_ready")
        omit = {"ready"}
    b = Bench(m)
    fw = ["valid", "first", "last", "payload"] + [f"x{i}" for i in range(c["extra"])]
    S = {f: b.port(src[f]) for f in fw + ["ready"]}
    D = {f: b.port(dst[f]) for f in fw + ["ready"]}
    ctx.check(src.data is src.payload, "alias", "data is not the payload")
    tapped = c["how"] == "tap_ready"
    for _ in range(60):
        want = {}
        for f in fw:
            v = rng.getrandbits(S[f].width)
            S[f].set(v)
            want[f] = 0 if f in omit else v
        r = rng.getrandbits(1)
        (S if tapped else D)["ready"].set(r)
        b.settle()
        for f in fw:
            ctx.eq(D[f].get(), want[f], "field", f"{f} of the destination ({c['how']}, omitting {sorted(omit)})")
            ctx.ev("direct")
        if tapped:
            ctx.eq(D["ready"].get(), r, "ready", "tapped ready")
        else:
            ctx.eq(S["ready"].get(), 0 if "ready" in omit else r, "ready", f"ready of the source ({c['how']}, omitting {sorted(omit)})")
        ctx.seen("direct", c["how"], W, c["extra"], sorted(omit), want["valid"], r)
    ctx.sample = dict(case=c)


def fifo(c, ctx):
    from amlib.stream import StreamInterface, connect_fifo_to_stream, connect_stream_to_fifo
    from amaranth import Module
    from amaranth.lib.fifo import SyncFIFO, SyncFIFOBuffered
    rng = ctx.rng
    W = c["width"]
    si, so = StreamInterface(payload_width=W, name="si"), StreamInterface(payload_width=W, name="so")
    f = (SyncFIFOBuffered if c["buffered"] else SyncFIFO)(width=c["fifo_width"], depth=c["depth"])
    m = Module()
    m.submodules.fifo = f
    kw = {k: c[k] for k in ("firstBit", "lastBit") if c[k] is not None}
    m.d.comb += [connect_stream_to_fifo(si, f, **kw), connect_fifo_to_stream(f, so, **kw)]
    b = Bench(m)
    I = {k: b.port(si[k]) for k in ("valid", "ready", "first", "last", "payload")}
    O = {k: b.port(so[k]) for k in ("valid", "ready", "first", "last", "payload")}
    q = []
    cur = None
    quiet = 0
    for t in range(c["cycles"]):
        if t % 40 == 0:
            pi, po = rng.choice([(.9, .2), (.2, .9), (1, 1), (.5, .5), (1, 0), (0, 1)])
        if cur is None and rng.random() < pi:
            cur = (rng.getrandbits(W), rng.getrandbits(1), rng.getrandbits(1))
        p, fi, la = cur or (rng.getrandbits(W), rng.getrandbits(1), rng.getrandbits(1))
        I["valid"].set(cur is not None)
        I["payload"].set(p)
        I["first"].set(fi)
        I["last"].set(la)
        r = int(rng.random() < po)
        O["ready"].set(r)
        b.settle()
        ov = O["valid"].get()
        ctx.check(not ov or q, "phantom", "output word out of an empty FIFO")
        if ov:
            pay, f1, l1 = q[0]
            want = pay
            if c["firstBit"] is not None:
                if c["firstBit"] < W:
                    want = want & ~(1 << c["firstBit"]) | f1 << c["firstBit"]
            if c["lastBit"] is not None:
                if c["lastBit"] < W:
                    want = want & ~(1 << c["lastBit"]) | l1 << c["lastBit"]
            ctx.eq(O["payload"].get(), want, "data", f"word {t} out of the FIFO")
            ctx.eq(O["first"].get(), f1 if c["firstBit"] is not None else 0, "flags", f"first of the word (bit {c['firstBit']})")
            ctx.eq(O["last"].get(), l1 if c["lastBit"] is not None else 0, "flags", f"last of the word (bit {c['lastBit']})")
            if kw:
                ctx.ev("flags")
            quiet = 0
        elif q:
            quiet += 1
            ctx.check(quiet < 4, "lost", f"{len(q)} words stay in the FIFO")
        else:
            ctx.ev("empty")
        ctx.seen("fifo", c["buffered"], c["depth"], len(q), ov, r, I["ready"].get(), tuple(kw))
        took = I["valid"].get() and I["ready"].get()
        if not I["ready"].get():
            ctx.ev("full")
            ctx.check(len(q) >= c["depth"] - c["buffered"], "stuck", f"stream not accepted although only {len(q)} of {c['depth']} entries are used")
        if ov and r:
            q.pop(0)
            ctx.ev("queued")
        if took:
            q.append(cur)
            cur = None
        b.tick()
    ctx.sample = dict(case=c)
