"""C24: timer - done exactly the programmed number of cycles after start, periodic when reloading."""
from ..bench import Bench

RULE = ("A case is a timer (width, constant or variable load/reload, restart allowed or not) driven with random load/reload values "
        "(biased to 0, 1, 2 and the maximum) and random start strobes, compared with a countdown model every cycle. A situation is "
        "(load, reload, restart, ignored starts).")
FLOORS = {"dones": 1500, "starts": 600, "periodic": 600, "ignored_starts": 300, "load_one": 50}


def cases(tier, rng):
    out = []
    for i in range(160 if tier == "quick" else 1500):
        out.append(dict(width=rng.choice([4, 8, 8, 16, 32]), load=rng.choice([None, None, 1, 2, 5, 10]), reload=rng.choice([None, None, 0, 1, 2, 3, 7]),
                        restart=rng.random() < .8, cycles=700, pstart=rng.choice([.15, .15, .02, .6]), hold=rng.choice(["long", "long", "one"])))
    for i in range(6 if tier == "quick" else 40):       # marathons
        out.append(dict(width=rng.choice([4, 8]), load=None if i % 3 == 2 else rng.choice([None, 2, 5]), reload=None if i % 3 == 2 else rng.choice([None, 0, 2]), restart=True, cycles=6000, pstart=[.5, .5, .001][i % 3], hold=rng.choice(["long", "one"]), small=True))
    m = 1 if tier == "quick" else 6           # large configurations: long times
    for ld, rl in ((300, 0), (None, 300), (600, 5), (None, None), (2500, 2500), (40000, 3)):
        out += [dict(width=rng.choice([16, 32]), load=ld, reload=rl, restart=rng.random() < .5, cycles=90000 if ld and ld > 9999 else 20000, pstart=.02, hold="long", big=True) for _ in range(m)]
    return out


def run_case(c, ctx):
    from amlib.utils import Timer
    rng = ctx.rng
    kw = {}
    if c["load"] is not None:
        kw["load"] = c["load"]
    if c["reload"] is not None:
        kw["reload"] = c["reload"]
    if not c["restart"]:
        kw["allow_restart"] = False
    if c["width"] != 32:
        kw["width"] = c["width"]
    dut = Timer(**kw)
    b = Bench(dut)
    LD = b.port(dut.load_in) if c["load"] is None else None
    RL = b.port(dut.reload_in) if c["reload"] is None else None
    ST, DN, CT = b.port(dut.start), b.port(dut.done), b.port(dut.counter_out)
    top = (1 << c["width"]) - 1
    def pick():
        if c.get("big"):
            return rng.choice([0, 0, 0, 1, 260, 512, 700, 1024, 1030, 2100, 4097, rng.randint(1, 5000)])
        if c.get("small"):
            return rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 12])
        return min(top, rng.choice([0, 1, 1, 2, 3, rng.randint(1, 30), rng.randint(0, min(top, 60)), top if c["width"] <= 8 else 40]))
    ld = c["load"] if LD is None else pick()
    rl = c["reload"] if RL is None else pick()
    state, cnt = "idle", 0
    hold = rng.randint(2, 40) if c["hold"] == "long" else 1
    stretch = 40 if c.get("big") else 1
    started = since = None
    for t in range(c["cycles"]):
        hold -= 1
        if hold <= 0:
            if LD is not None and (c["hold"] == "long" or rng.random() < .2):
                ld = pick()
            if RL is not None:
                rl = pick()
            hold = rng.choice([1, 3, rng.randint(1, 80) * stretch]) if c["hold"] == "long" else 1
        if LD is not None:
            LD.set(ld)
        if RL is not None:
            RL.set(rl)
        st = int(rng.random() < c["pstart"])
        ST.set(st)
        b.settle()
        ctx.eq(DN.get(), int(state == "done"), "done", f"done, {t - started if started is not None else '-'} cycles after start (state {state}, {cnt} to go)")
        ctx.eq(CT.get(), cnt, "counter", f"counter while {state}")
        nxt = ld if ld > 0 else rl
        if state == "idle":
            if st and cnt > 0:
                ctx.ev("starts")
                if cnt == 1:
                    ctx.ev("load_one")
                started = t
                ctx.seen(cnt, rl, c["restart"], c["width"])
                cnt -= 1
                state = "run" if cnt else "done"
            else:
                cnt = nxt
        elif state == "run":
            if st:
                ctx.ev("ignored_starts")
            cnt -= 1
            if cnt == 0:
                state = "done"
        else:
            ctx.ev("dones")
            if rl > 0:
                cnt = rl - 1
                state = "run" if cnt else "done"
                ctx.ev("periodic")
            elif c["restart"]:
                state = "idle"
        # in the cycle after done without reload the counter still shows zero
        b.tick()
    ctx.sample = dict(case=c)
