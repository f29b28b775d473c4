"""C18: merging streams - one source at a time, unmodified, bursts never interrupted, earlier sources first."""
from ..bench import Bench

RULE = ("A case is an arbiter or multiplexer (number of streams, payload width, clock domain) fed by random sources (obeying or ignoring "
        "ready) with random backpressure; every cycle the merged output, the ready of every source and the idle flag are compared with the "
        "scheduling rule, and the words accepted at the output with the words each source handed over. A situation is (kind, streams, "
        "owner, set of valid sources, ready).")
FLOORS = {"words": 8000, "switches": 1000, "contended": 1500, "idle_cycles": 500, "held_off": 500}


def cases(tier, rng):
    out = []
    for i in range(180 if tier == "quick" else 3000):
        out.append(dict(kind=["arbiter", "arbiter", "mux"][i % 3], n_streams=rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9]), width=rng.choice([8, 8, 16, 1, 24]),
                        domain=rng.choice(["sync", "sync", "usb"]), extra=rng.random() < .4, cycles=700))
    for i in range(6 if tier == "quick" else 60):       # marathons
        out.append(dict(kind=["arbiter", "arbiter", "mux"][i % 3], n_streams=2, width=8, domain="sync", extra=False, cycles=12000, short=True))
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(kind=k, n_streams=n, width=w, domain="sync", extra=False, cycles=700) for k in ("arbiter", "mux") for n, w in ((16, 64), (17, 8), (33, 8), (70, 8), (3, 100)) for _ in range(m)]
    out += [dict(kind=k, n_streams=n, width=8 * v, domain=rng.choice(["sync", "usb"]), extra=False, cycles=700, strobes=v)      # a valid bit for every byte
            for k in ("arbiter", "arbiter", "mux") for n, v in ((2, 4), (3, 2), (1, 4), (5, 8), (9, 3)) for _ in range(m)]
    return out


def run_case(c, ctx):
    from amlib.stream import StreamInterface
    from amlib.stream.arbiter import StreamArbiter, StreamMultiplexer
    from amaranth import Module, ClockDomain
    rng = ctx.rng
    N, W, dom = c["n_streams"], c["width"], c["domain"]
    NV = c.get("strobes", 1)
    extra = [("tag", 3), ("flag", 1)] if c["extra"] else None

    def Mk():
        return StreamInterface(payload_width=W, extra_fields=extra, **(dict(valid_width=NV) if NV > 1 else {}))

    def anyvalid():                # all bytes, the first ones (a last word), or any
        return rng.choice([(1 << NV) - 1, (1 << rng.randint(1, NV)) - 1, rng.randint(1, (1 << NV) - 1)])
    if c["kind"] == "arbiter":
        dut = StreamArbiter(stream_type=Mk) if dom == "sync" else StreamArbiter(stream_type=Mk, domain=dom)
        out = dut.source
    else:
        dut = StreamMultiplexer(stream_type=Mk)
        out = dut.output
        dom = "sync"
    ins = [Mk() for _ in range(N)]
    for s in ins:
        (dut.add_stream if c["kind"] == "arbiter" else dut.add_input)(s)
    m = Module()
    m.domains += ClockDomain(dom)
    m.submodules.dut = dut
    b = Bench(m, domains=(dom,))
    fields = ["valid", "first", "last", "payload"] + (["tag", "flag"] if extra else [])
    I = [{f: b.port(s[f]) for f in fields + ["ready"]} for s in ins]
    O = {f: b.port(out[f]) for f in fields + ["ready"]}
    IDLE = b.port(dut.idle) if c["kind"] == "arbiter" else None
    owner = 0
    left = [0] * N                  # words left in the current burst of each source
    cur = [None] * N
    pready = pstart = .5
    obey = rng.random() < .7
    for t in range(c["cycles"]):
        if t % 60 == 0:
            pready, pstart = rng.choice([.1, .5, .9, 1]), rng.choice([.02, .1, .5, 1])
            if N > 8 and rng.random() < .7:          # so sparse that the last sources get their turn
                pstart = rng.choice([.2, 1]) / N
            live = rng.choice([rng.randrange(N), N - 1, N - 2]) if rng.random() < .4 else 0
            if rng.random() < .2:
                pready = 0
        for i in range(N):
            if left[i] == 0 and i >= live and rng.random() < pstart:
                left[i] = 1 if c.get("short") else rng.choice([1, 1, 2, 3, rng.randint(1, 12)])
                cur[i] = None
            if left[i] and cur[i] is None:
                cur[i] = dict(valid=anyvalid(), first=rng.getrandbits(1), last=rng.getrandbits(1), payload=rng.getrandbits(W), tag=rng.getrandbits(3), flag=rng.getrandbits(1))
            drive = cur[i] if left[i] else dict(valid=0, first=rng.getrandbits(1), last=rng.getrandbits(1), payload=rng.getrandbits(W), tag=rng.getrandbits(3), flag=rng.getrandbits(1))
            for f in fields:
                I[i][f].set(drive[f])
        rdy = int(rng.random() < pready)
        O["ready"].set(rdy)
        b.settle()
        vs = [p["valid"].get() for p in I]
        if c["kind"] == "mux":
            owner = next((i for i in range(N) if vs[i]), None)
        sel = owner is not None and vs[owner]
        ctx.eq(O["valid"].get(), int(sel or 0), "valid", f"output valid with valid sources {vs}, current source {owner}")
        if sel:
            for f in fields:
                ctx.eq(O[f].get(), I[owner][f].get(), "data", f"{f} of the merged stream (source {owner} of {N})")
        for i in range(N):
            want = rdy if i == owner else 0
            if i != owner or vs[i]:
                ctx.eq(I[i]["ready"].get(), want, "ready", f"ready of source {i} while source {owner} owns the output (output ready {rdy}, valid {vs})")
            if vs[i] and i != owner:
                ctx.ev("held_off")
        ctx.seen(c["kind"], N, owner, "".join(map(str, vs)), rdy)
        if IDLE is not None:
            ctx.eq(IDLE.get(), int(not any(vs)), "idle", f"idle with valid sources {vs}")
            if not any(vs):
                ctx.ev("idle_cycles")
        if sum(map(bool, vs)) > 1:
            ctx.ev("contended")
        # advance
        taken = owner if sel and rdy else None
        if taken is not None:
            ctx.ev("words")
        if c["kind"] == "arbiter" and not sel:
            nxt = next((i for i in range(N) if vs[i]), owner)
            if nxt != owner:
                ctx.ev("switches")
            owner = nxt
        for i in range(N):
            if left[i] and (i == taken or (not obey and rng.random() < .1)):
                left[i] -= 1
                cur[i] = None
        b.tick(dom)
    ctx.sample = dict(case=c)
