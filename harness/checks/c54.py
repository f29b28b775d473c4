"""C54: streams - words offered stay until taken, and timing never changes the words."""
import contextlib
import io
from ..bench import Bench

RULE = ("A case is a module with a stream output; two instances are given the same work, one with a consumer and a source that are always ready and one with hostile ones: consumers that only become ready after seeing a word, "
        "become ready only while nothing is offered, stay away for long, or come and go at random, and sources that pause at random. In every cycle an offered, untaken word must still be offered, unchanged; "
        "both must put out the same words with the same marks. A situation is (module, consumer, source, stalled for how long).")
FLOORS = {"words": 10000, "stalled": 25000, "modules": 250, "late_ready": 3000}
ASSUMPTIONS = ["sources keep an offered word until it is taken, as streams must", "the parallel data and the length given to a stream serializer stay the same while it sends"]


def cases(tier, rng):
    n = 1 if tier == "quick" else 12
    return [dict(mod=m, consumer=rng.choice(["after", "random", "rare", "bursts", "after", "away", "contrary"]), source=rng.choice(["eager", "random", "rare", "bursts"]), i=i)
            for m in MODULES for i in range(28 * n)]


class Side:
    """One instance: the source, the consumer and the monitor of its output."""
    def __init__(self, ctx, rng, c, spec, fast):
        self.ctx, self.rng, self.c, self.fast = ctx, rng, c, fast
        self.spec = spec
        self.ticks = spec.get("ticks", ["sync"])
        b = self.b = Bench(spec["dut"], domains=self.ticks)
        o = spec["out"]
        P = b.port
        self.V, self.R = P(o.valid), P(o.ready)
        self.F = {n: P(getattr(o, n)) for n in spec.get("fields", ["payload", "first", "last"])}
        i = spec.get("in")
        self.I = i is not None and {n: P(getattr(i, n)) for n in ["valid", "ready"] + spec["in_fields"]}
        self.words, self.got, self.t = list(spec.get("words", [])), [], 0
        self.extra = {k: P(s) for k, s in spec.get("drive", {}).items()}
        self.stim = spec.get("stim")
        self.stim = self.stim and self.stim(self)
        self.held, self.waited, self.gone, self.burst = None, 0, 0, [0, 0]
        self.src_on = False
        self.r_next = 0

    def ready(self, valid):
        k, r = ("always" if self.fast else self.c["consumer"]), self.rng
        if k == "always":
            return 1
        if k == "after":           # only after a word has been seen waiting
            return int(self.waited >= self.patience) if valid else 0
        if k == "random":
            return int(r.random() < .5)
        if k == "rare":
            return int(r.random() < .1)
        if k == "contrary":        # was ready while nothing was offered, gives in only now and then
            return int(not valid) if r.random() < .85 else 1
        if k == "away":
            if self.gone:
                self.gone -= 1
                return 0
            if r.random() < .02:
                self.gone = r.choice([20, 60, 150])
            return 1
        if self.burst[0] == 0:
            self.burst = [r.randint(1, 12), 1 - self.burst[1]]
        self.burst[0] -= 1
        return self.burst[1]

    def offer(self):
        k, r = ("eager" if self.fast else self.c["source"]), self.rng
        return {"eager": 1, "random": r.random() < .5, "rare": r.random() < .08, "bursts": (self.t // 37) % 2}[k]

    def step(self):
        ctx, b = self.ctx, self.b
        if self.waited == 0:
            self.patience = self.rng.choice([1, 1, 2, 5])
        if self.stim:
            next(self.stim)
        if self.I:
            if not self.src_on and self.words and self.offer():
                self.src_on = True
                for n, x in zip(self.spec["in_fields"], self.words[0]):
                    self.I[n].set(x)
            self.I["valid"].set(int(self.src_on))
        # the consumer decides on what it saw in the last cycle, or (a combinational one) on what it sees
        b.settle()
        self.R.set(self.ready(self.V.get()))
        b.settle()
        v, rdy = self.V.get(), self.R.get()
        word = tuple(p.get() for p in self.F.values())
        if self.held is not None:
            ctx.check(v == self.held[0], "withdrawn", f"{self.c['mod']}: the word {self.held[1]} was offered but not taken and is not offered any more")
            ctx.eq(word, self.held[1], "changed", f"{self.c['mod']}: the offered but not yet taken word ({', '.join(self.F)})")
            ctx.ev("stalled")
        if v and rdy:
            self.got.append((v,) + word)
            ctx.ev("words")
            if self.waited:
                ctx.ev("late_ready")
                ctx.seen(self.c["mod"], self.c["consumer"], self.c["source"], min(self.waited, 20))
            self.waited, self.held = 0, None
        elif v:
            self.waited += 1
            self.held = (v, word)
        else:
            self.held = None
        if self.I and self.src_on and self.I["ready"].get():
            self.words.pop(0)
            self.src_on = False
        b.tick(*self.ticks)
        self.t += 1


def run_case(c, ctx):
    import random
    seed = ctx.rng.getrandbits(32)
    sides = []
    for fast in (True, False):
        with contextlib.redirect_stdout(io.StringIO()):
            spec = MODULES[c["mod"]](random.Random(seed))
        sides.append(Side(ctx, random.Random(seed + 1 if fast else seed + 2), c, spec, fast))
    ctx.ev("modules")
    ref, sut = sides
    limit = spec.get("cycles", 1500)
    idle = 0
    while ref.t < limit:
        ref.step()
    # the other one takes longer: until it has delivered as much, or nothing has come for long
    patience = spec.get("patience", 400)
    target = len(ref.got)
    last = 0
    while (len(sut.got) < target and sut.t - last < patience) or sut.t < spec.get("min", 0):
        n = len(sut.got)
        sut.step()
        if len(sut.got) > n or (sut.held is not None and not spec.get("strict")) or sut.words or sut.spec.get("busy", lambda s: False)(sut):
            last = sut.t
        if sut.t > 60 * limit:
            break
    for _ in range(30):
        sut.step()
    names = "marks of validity, " + ", ".join(sut.F)
    n = min(len(ref.got), len(sut.got))
    for k in range(n):
        ctx.eq(sut.got[k], ref.got[k], "words", f"{c['mod']}: word {k} ({names}) with a {c['consumer']} consumer and a {c['source']} source, against one that is always ready")
    ctx.check(len(sut.got) >= target, "lost", f"{c['mod']}: only {len(sut.got)} of {target} words are delivered with a {c['consumer']} consumer and a {c['source']} source")
    ctx.check(spec.get("open") or len(sut.got) == target, "surplus", f"{c['mod']}: {len(sut.got)} words instead of {target} are delivered with a {c['consumer']} consumer")
    ctx.check(target >= spec.get("expect", 1), "none", f"{c['mod']}: only {target} words are delivered at all")
    ctx.sample = dict(case=c, words=target, first=ref.got[:3])


# -- modules ------------------------------------------------------------------
def runs(starts, prepare=None):
    """Starts the module a number of times, each when the run before is over."""
    def stim(side):
        for k in range(starts):
            if prepare:
                prepare(side, k)
            for _ in range(side.rng.choice([0, 1, 3]) if not side.fast else 1):
                yield
            side.extra["start"].set(1)
            yield
            side.extra["start"].set(0)
            side.active = True
            side.saw = len(side.got)
            while True:
                yield
                if side.extra["done"].get() and len(side.got) > side.saw:
                    break
            yield
        side.active = False
        while True:
            yield
    return stim


def busy(side):
    return getattr(side, "active", True)


def generator(r):
    from amlib.stream.generator import ConstantStreamGenerator
    from amlib.stream import StreamInterface
    wide = r.random() < .4

    class Words(StreamInterface):
        def __init__(self, **kw):
            super().__init__(payload_width=32, valid_width=4, **kw)
    data = bytes(r.getrandbits(8) for _ in range(r.choice([5, 9, 16])))
    kw = dict(stream_type=Words, data_endianness=r.choice(["big", "little"])) if wide else {}
    d = ConstantStreamGenerator(data, max_length_width=8, **kw)
    plan = [(0, r.choice([0xff, len(data), 4, 7])) for _ in range(6)] if wide else [(r.randrange(len(data)), r.randint(1, 20)) for _ in range(6)]

    def prepare(side, k):
        side.extra["pos"].set(plan[k][0])
        side.extra["max"].set(plan[k][1])
    return dict(dut=d, out=d.stream, drive=dict(start=d.start, done=d.done, pos=d.start_position, max=d.max_length), stim=runs(6, prepare), busy=busy, cycles=400, expect=6)


def serializer(r):
    from amlib.stream.generator import StreamSerializer
    n = r.choice([1, 3, 6])
    d = StreamSerializer(n, max_length_width=4)
    plan = [([r.getrandbits(8) for _ in range(n)], r.randint(1, n + 2)) for _ in range(6)]

    def prepare(side, k):
        for i, x in enumerate(plan[k][0]):
            side.extra[i].set(x)
        side.extra["max"].set(plan[k][1])
    return dict(dut=d, out=d.stream, drive={"start": d.start, "done": d.done, "max": d.max_length, **{i: d.data[i] for i in range(n)}}, stim=runs(6, prepare), busy=busy, cycles=300, expect=6)


def packets(r):
    from amlib.stream.generator import PacketListStreamer
    d = PacketListStreamer([bytes(r.getrandbits(8) for _ in range(r.choice([1, 2, 5]))) for _ in range(r.choice([1, 2, 4]))])
    n = r.choice([1, 3])
    return dict(dut=d, out=d.stream, drive=dict(start=d.start, done=d.done), stim=runs(n), busy=busy, cycles=250, expect=n)


def resampler(r):
    from amlib.dsp.resampler import FractionalResampler
    d = FractionalResampler(input_samplerate=48000, upsample_factor=r.choice([2, 3, 9]), downsample_factor=r.choice([2, 5, 7]), filter_order=r.choice([3, 5]), filter_structure=r.choice(["fir", "fir", "iir"]), verbose=False)
    return {"dut": d, "in": d.signal_in, "in_fields": ["payload"], "words": [(r.getrandbits(16),) for _ in range(60)], "out": d.signal_out, "fields": ["payload"], "cycles": 800, "expect": 15}


def convolver(r):
    import numpy as np
    from amlib.dsp.convolution.mac import StereoConvolutionMAC, ConvolutionMode
    taps = np.array([[r.randint(-99999, 99999) for _ in range(2)] for _ in range(4)], dtype=np.int32)
    d = StereoConvolutionMAC(taps=taps, samplerate=48000, clockfrequency=48000 * r.choice([2, 4]), convolutionMode=r.choice(list(ConvolutionMode)))
    words = [(r.getrandbits(24), int(k % 2 == 0), int(k % 2 == 1)) for k in range(40)]
    return {"dut": d, "in": d.signal_in, "in_fields": ["payload", "first", "last"], "words": words, "out": d.signal_out, "cycles": 900, "expect": 30}


def ila(r):
    from amaranth import Signal
    from amlib.debug.ila import StreamILA
    s = [Signal(r.choice([3, 8, 12]), name="probe_a"), Signal(1, name="probe_b")]
    depth = r.choice([4, 8, 16])
    across = r.random() < .4
    d = StreamILA(signals=s, sample_depth=depth, samples_pretrigger=r.choice([1, 3]), **(dict(o_domain="usb") if across else {}))
    probes = [[r.getrandbits(20) for _ in range(3 * depth)] for _ in range(3)]

    def stim(side):
        side.active = True
        for rec in probes:
            for x in rec[:4]:
                side.extra["a"].set(x)
                side.extra["b"].set(x >> 15)
                yield
            side.extra["trigger"].set(1)
            n = len(side.got)
            for x in rec[4:]:
                side.extra["a"].set(x)
                side.extra["b"].set(x >> 15)
                yield
                side.extra["trigger"].set(0)
            while len(side.got) < n + depth:
                yield
            for _ in range(5):
                yield
        side.active = False
        while True:
            yield
    return dict(dut=d, out=d.stream, drive=dict(a=s[0], b=s[1], trigger=d.trigger), stim=stim, busy=busy, cycles=100 + 30 * depth, expect=3 * depth, ticks=["sync", "usb"] if across else ["sync"])


def through_fifo(r):
    from amaranth import Elaboratable, Module
    from amaranth.lib.fifo import SyncFIFO, SyncFIFOBuffered
    from amlib.stream import StreamInterface, connect_fifo_to_stream, connect_stream_to_fifo
    w, depth, cls = r.choice([8, 13]), r.choice([1, 2, 4]), r.choice([SyncFIFO, SyncFIFOBuffered])

    class Through(Elaboratable):
        def __init__(self):
            self.i, self.o = StreamInterface(name="i", payload_width=w), StreamInterface(name="o", payload_width=w)

        def elaborate(self, platform):
            m = Module()
            m.submodules.fifo = f = cls(width=w + 2, depth=depth)
            m.d.comb += connect_stream_to_fifo(self.i, f, w, w + 1) + connect_fifo_to_stream(f, self.o, w, w + 1)
            return m
    d = Through()
    return {"dut": d, "in": d.i, "in_fields": ["payload", "first", "last"], "words": [(r.getrandbits(w), r.getrandbits(1), r.getrandbits(1)) for _ in range(80)], "out": d.o, "cycles": 300, "expect": 80}


def arbiter(r):
    """Only one of the sources is used: the schedule of several depends on time."""
    from amlib.stream import StreamInterface
    from amlib.stream.arbiter import StreamArbiter, StreamMultiplexer
    n = r.randint(1, 3)
    if r.random() < .5:
        d = StreamArbiter()
        s = [StreamInterface(name=f"s{k}") for k in range(n)]
        for x in s:
            d.add_stream(x)
        out = d.source
    else:
        d = StreamMultiplexer()
        s = [StreamInterface(name=f"s{k}") for k in range(n)]
        for x in s:
            d.add_input(x)
        out = d.output
    i = r.choice(s)
    return {"dut": d, "in": i, "in_fields": ["payload", "first", "last"], "words": [(r.getrandbits(8), r.getrandbits(1), r.getrandbits(1)) for _ in range(80)], "out": out, "cycles": 300, "expect": 80}


def i2s(r):
    from amlib.io.i2s import I2SReceiver
    width = r.choice([8, 16])
    d = I2SReceiver(sample_width=width, fifo_depth=64)
    n = 44
    slots = [[r.getrandbits(1) for _ in range(width + r.choice([2, 2, 4]))] for _ in range(n)]

    def stim(side):
        x = side.extra
        side.active = True
        x["en"].set(1)
        for k, bits in enumerate(slots):
            x["ws"].set(k % 2)
            for bit in bits:
                x["d"].set(bit)
                for clk in (0, 1):
                    x["clk"].set(clk)
                    for _ in range(3):
                        yield
        side.active = False
        while True:
            yield
    return dict(dut=d, out=d.stream_out, drive=dict(en=d.enable_in, ws=d.word_select_in, clk=d.serial_clock_in, d=d.serial_data_in), stim=stim, busy=busy, cycles=6 * sum(map(len, slots)) + 30, expect=30)


MODULES = dict(generator=generator, serializer=serializer, packets=packets, resampler=resampler, convolver=convolver, ila=ila, through_fifo=through_fifo, arbiter=arbiter, i2s=i2s)
