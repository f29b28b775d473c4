"""C17: transactionalized FIFO - an exact queue whose uncommitted reads and writes can be undone."""
from ..bench import Bench

RULE = ("A case is a FIFO (width, depth, clock domain) driven by a random history of writes, reads, commits and discards (also in the "
        "same cycle as reads and writes, and while full or empty) compared with a list model every cycle. A situation is (depth, fill, "
        "uncommitted writes, uncommitted reads, operation).")
FLOORS = {"writes": 3000, "reads": 2500, "write_discards": 300, "read_discards": 300, "full": 300, "empty": 300, "rejected": 200}
ASSUMPTIONS = ["commit and discard of the same side are not strobed in the same cycle"]


def cases(tier, rng):
    out = []
    for i in range(80 if tier == "quick" else 800):
        out.append(dict(width=rng.choice([1, 8, 8, 16]), depth=rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 31]), domain="sync" if i % 4 else "usb",
                        mode=rng.choice(["mix", "mix", "fill", "drain", "tied"]), cycles=1200))
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(width=w, depth=d, domain="sync", mode=mode, cycles=12 * d + 500) for w, d in ((32, 64), (64, 100), (8, 256), (8, 300), (10, 1000), (16, 2600)) for mode in ("mix", "fill") for _ in range(m)]
    return out


def run_case(c, ctx):
    from amlib.utils import TransactionalizedFIFO
    rng = ctx.rng
    w, depth, dom = c["width"], c["depth"], c["domain"]
    dut = TransactionalizedFIFO(width=w, depth=depth) if dom == "sync" else TransactionalizedFIFO(width=w, depth=depth, domain=dom)
    from amaranth import Module, ClockDomain
    m = Module()
    if dom != "sync":
        m.domains += ClockDomain(dom)
    m.submodules.dut = dut
    b = Bench(m, domains=(dom,))
    P = {k: b.port(getattr(dut, k)) for k in ("read_data", "read_en", "read_commit", "read_discard", "empty", "write_data", "write_en",
                                              "write_commit", "write_discard", "full", "space_available")}
    # content: rd = read but not committed, q = readable, wr = written but not committed
    rd, q, wr = [], [], []
    phase = c["mode"]
    for t in range(c["cycles"]):
        if t % 150 == 0:
            pw, pr = {"mix": rng.choice([(.5, .5), (.9, .3), (.3, .9)]), "fill": (.95, .2), "drain": (.3, .95), "tied": (.6, .6)}[phase]
            pc, pd = rng.choice([(.1, .03), (.3, .02), (.05, .05), (.5, .1)])
        we, re = rng.random() < pw, rng.random() < pr
        if phase == "tied":
            wc = rc = 1
            wd = rdd = 0
        else:
            wc, rc = rng.random() < pc, rng.random() < pc
            wd, rdd = (not wc and rng.random() < pd), (not rc and rng.random() < pd)
        data = rng.getrandbits(w)
        for k, v in (("write_en", we), ("read_en", re), ("write_commit", wc), ("read_commit", rc), ("write_discard", wd), ("read_discard", rdd), ("write_data", data)):
            P[k].set(int(v))
        b.settle()
        used = len(rd) + len(q) + len(wr)
        ctx.eq(P["empty"].get(), int(not q), "empty", f"empty with {len(q)} readable entries")
        ctx.eq(P["full"].get(), int(used == depth), "full", f"full with {used} of {depth} entries in use")
        ctx.eq(P["space_available"].get(), depth - used, "space", f"space available with {used} of {depth} entries in use")
        if q:
            ctx.eq(P["read_data"].get(), q[0], "data", f"data at the head of the queue (cycle {t})", queue=q)
        else:
            ctx.ev("empty")
        if used == depth:
            ctx.ev("full")
        ctx.seen(depth, len(q), len(wr), len(rd), we, re, wc, rc, wd, rdd)
        # model: commits and discards refer to the accesses before this cycle
        full = used == depth
        new_q, new_rd, new_wr = list(q), list(rd), list(wr)
        did_r = re and q
        did_w = we and not full
        if (re and not q) or (we and full):
            ctx.ev("rejected")
        if did_r:
            new_rd = rd + [q[0]]
            new_q = q[1:]
            ctx.ev("reads")
        if did_w:
            new_wr = wr + [data]
            ctx.ev("writes")
        if rdd:
            new_q = rd + q
            new_rd = []
            ctx.ev("read_discards")
        if rc:
            new_rd = new_rd[len(rd):]
        if wd:
            new_wr = []
            ctx.ev("write_discards")
        if wc:
            new_q = new_q + wr
            new_wr = new_wr[len(wr):]
        q, rd, wr = new_q, new_rd, new_wr
        b.tick(dom)
    ctx.sample = dict(case=c, end=dict(readable=len(q), unread=len(rd), unwritten=len(wr)))
