"""C22: packet list streamer - every start emits all packets once, in order, correctly delimited."""
from ..bench import Bench
from .gens import ports

RULE = ("A case is a list of packets (lengths, word width, stream type), sent several times under random backpressure and gaps (also back to "
        "back). A situation is (packet lengths, width, repetition).")
FLOORS = {"words": 4000, "held": 2500, "packets": 1000, "done": 300, "power_of_two": 20, "wide": 40}


def cases(tier, rng):
    out = []
    for i in range(300 if tier == "quick" else 5000):
        n = rng.choice([1, 1, 2, 3, 4, 5, 7, 8])
        lens = [rng.choice([1, 1, 2, 3, 4, 5, 8, 16]) for _ in range(n)]
        if i % 3 == 0:
            tot = sum(lens)
            p = 1 << (tot - 1).bit_length()
            if p > tot:
                lens.append(p - tot)
        out.append(dict(lens=lens, width=rng.choice([None, None, 8, 8, 16, 32, 12]), typed=rng.random() < .3, runs=5, first_cycle=i % 5 == 0))
    for i in range(5 if tier == "quick" else 50):       # marathons
        out.append(dict(lens=rng.sample([1, 2, 3, 4], 1 + i % 3), width=8, typed=False, runs=350, first_cycle=False))
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(lens=lens, width=8, typed=False, runs=3, first_cycle=False) for lens in ([256], [300, 1, 257], [1] * 40, [3] * 100, [2, 128, 64], [255, 1, 256], [rng.randint(1, 4) for _ in range(70)], [rng.randint(1, 3) for _ in range(150)], [900, 1, 1300], [1] * 64, [1] * 128, [4] * 64, [2] * 41) for _ in range(m)]
    return out


def run_case(c, ctx):
    from amlib.stream.generator import PacketListStreamer
    from amlib.stream import StreamInterface
    rng = ctx.rng
    W = c["width"] or 8
    pk = [[rng.getrandbits(W) for _ in range(n)] for n in c["lens"]]
    if W == 8 and rng.random() < .5:
        pk = [bytes(p) for p in pk]
    kw = {}
    if c["width"]:
        kw["data_width"] = W
    if c["typed"]:
        class Typed(StreamInterface):
            def __init__(self, payload_width=W, **k):
                super().__init__(payload_width=payload_width, **k)
        kw["stream_type"] = Typed
    dut = PacketListStreamer(pk, **kw)
    b = Bench(dut)
    S = ports(b, dut.stream, 1, W)
    ST, DN = b.port(dut.start), b.port(dut.done)
    exp = [(w, int(i == 0), int(i == len(p) - 1)) for p in pk for i, w in enumerate(p)]
    if W > 8:
        ctx.ev("wide")
    tot = len(exp)
    if tot & (tot - 1) == 0:
        ctx.ev("power_of_two")
    for run in range(c["runs"]):
        for _ in range(rng.choice([0, 0, 1, 4]) if run else (0 if c.get("first_cycle") else rng.randint(1, 4))):
            S["ready"].set(rng.getrandbits(1))
            b.settle()
            ctx.eq(S["valid"].get(), 0, "idle", "valid without a start")
            ctx.eq(DN.get(), 0, "idle", "done without a transmission")
            b.tick()
        ST.set(1)
        pr = rng.choice([.2, .5, .9, 1])
        got = wait = t = 0
        hold = rng.choice([0, 0, .3, 1])       # starts while sending are ignored
        finished = False
        while not finished:
            rdy = int(rng.random() < pr)
            S["ready"].set(rdy)
            b.settle()
            v, d = S["valid"].get(), DN.get()
            if v:
                ctx.check(got < tot, "extra", f"word after all {tot} words of the packets")
                w, f, l = exp[got]
                ctx.eq(S["payload"].get(), w, "payload", f"word {got} of packets of lengths {c['lens']}")
                ctx.eq(S["first"].get(), f, "first", f"first of word {got} of packets of lengths {c['lens']}")
                ctx.eq(S["last"].get(), l, "last", f"last of word {got} of packets of lengths {c['lens']}")
                wait = 0
                if rdy:
                    got += 1
                    ctx.ev("words")
                    ctx.ev("packets", l)
                else:
                    ctx.ev("held")
            else:
                wait += 1
                ctx.check(wait <= 12, "stuck", f"{got} of {tot} words of packets of lengths {c['lens']}, then nothing (run {run})")
            if d:
                ctx.eq(got, tot, "done", f"words sent when done is signalled (packet lengths {c['lens']})")
                ctx.check(not v, "done", "done together with a word")
                ctx.ev("done")
                finished = True
            b.tick()
            ST.set(0 if finished else int(rng.random() < hold))
            ctx.ev("ignored_starts", ST.get())
        ctx.seen(tuple(c["lens"]), W, run)
    for _ in range(8):
        b.settle()
        ctx.eq((S["valid"].get(), DN.get()), (0, 0), "idle", "(valid, done) after the transmission")
        b.tick()
    ctx.sample = dict(case=c)
