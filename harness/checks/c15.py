"""C15: debouncer - one clean transition per real press or release, none for bounces."""
from ..bench import Bench

RULE = ("A case is a button waveform: bounces of random length below the debounce interval, real presses and releases, and bursts just "
        "below and above the interval, the lengths around it one by one. A situation is (state, burst length class, kind).")
FLOORS = {"presses": 20, "releases": 15, "bounces": 300, "near_misses": 8, "edges": 20}
ASSUMPTIONS = ["the debounce interval is 2^15 clock cycles, checked with a tolerance of 8 cycles"]
N = 1 << 15


def cases(tier, rng):
    # all lengths around the interval, from either state, and a glitch afterwards
    edge = [dict(events=1, limit=200, edge=state, lengths=list(range(N - 10 + k, N + 3, 6))) for state in (0, 1) for k in range(6)]
    return edge + [dict(events=7, limit=200) for _ in range(56 if tier == "quick" else 400)]


def run_case(c, ctx):
    from amlib.io.debouncer import Debouncer
    rng = ctx.rng
    dut = Debouncer()
    b = Bench(dut)
    I, S, D, U = (b.port(x) for x in (dut.btn_in, dut.btn_state_out, dut.btn_down_out, dut.btn_up_out))
    level = 1                 # released: the input is active low
    I.set(1)
    state = 0
    W = dict(run=0, last=0, ago=0)           # cycles the input has differed from the reported state

    def run(v, n):
        """hold the input at v for n cycles"""
        nonlocal state
        I.set(v)
        for _ in range(n):
            differs = (1 - v) != state
            if not differs and W["run"]:
                W.update(last=W["run"], ago=0)
            W["run"] = W["run"] + 1 if differs else 0
            W["ago"] += 1
            b.settle()
            d, u, s = D.get(), U.get(), S.get()
            if d or u:
                ctx.check(not (d and u), "strobes", "press and release strobed together")
                ctx.check(N - 8 <= W["run"] <= N + 8 or (W["ago"] <= 8 and N - 8 <= W["last"] + W["ago"] <= N + 8), "interval", f"{'press' if d else 'release'} reported after the input was stable for {W['run']} cycles")
                ctx.eq((d, u), (1 - state, state), "strobes", "strobe kind (press, release)")
                b.tick()
                ctx.eq(S.get(), 1 - state, "state", "state after the strobe")
                state = 1 - state
                W["run"] = 0
                ctx.ev("presses" if d else "releases")
                b.settle()
                ctx.check(not D.get() and not U.get(), "strobes", "strobe longer than one cycle")
                continue
            ctx.eq(s, state, "state", "state without a strobe")
            ctx.check(W["run"] <= N + 8, "interval", f"no reaction to an input stable for {W['run']} cycles")
            b.tick()
    run(1, rng.randint(3, 200))
    if "edge" in c:
        # an input that goes back just before or while it is accepted must leave nothing behind for later bounces
        for n in c["lengths"]:
            if state != c["edge"]:
                run(0 if c["edge"] else 1, N + 20)
            old = state
            run(1 - old, rng.randint(5, 30))          # the new level starts here, not in an earlier bounce
            run(old, n)
            for gap in (rng.randint(1, 60), rng.randint(5, 60), 200):
                run(1 - old if state == old else old, gap)
                if state != old:
                    break
                run(old, rng.randint(1, 3))
            ctx.ev("edges")
            ctx.seen("edge", old, n, state)
    for e in range(c["events"]):
        k = rng.choice(["bounce", "bounce", "flip", "flip", "near"])
        target = 1 - state
        if k == "bounce":
            for _ in range(rng.randint(5, 40)):
                run(1 - target, rng.choice([1, 2, 5, rng.randint(1, 400)]))
                run(target, rng.choice([3, 4, rng.randint(3, 100)]))
                ctx.ev("bounces")
                ctx.seen("bounce", state, e)
            # back to the reported state
            run(1 - state, 5)
        elif k == "near":
            run(1 - target, N - rng.randint(9, 2000))
            run(target, rng.randint(3, 20))
            ctx.ev("near_misses")
            ctx.seen("near", state, e)
        if k == "flip":
            old = state
            for _ in range(rng.randint(0, 30)):       # bouncing contact
                run(old, rng.randint(1, 200))
                run(1 - old, rng.randint(3, 50))
            # input level for "pressed" is low
            run(0 if old == 0 else 1, N + 20)
            ctx.eq(state, 1 - old, "interval", "state after a long press/release")
            ctx.seen("flip", old, e)
    ctx.sample = dict(case=c)
