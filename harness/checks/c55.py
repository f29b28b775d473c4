"""C55: modules keep up - with partners that are always ready nothing takes longer than it should."""
import contextlib
import io
import random
from ..bench import Bench
from . import c54

RULE = ("A case is a module in a random configuration with sources that always offer and consumers that always take; the cycle of every word is recorded and compared with the rate or time the module has to keep, "
        "over runs, packets and histories long enough to show a single lost cycle. A situation is (module, configuration, number of words).")
FLOORS = {"intervals": 20000, "modules": 200, "starts": 300, "transfers": 60, "frames": 800, "bins": 250}
ASSUMPTIONS = ["partners are always ready", "the SPI divisor is at least 12 with input synchronisers, 8 without"]


def cases(tier, rng):
    n = 1 if tier == "quick" else 10
    return [dict(mod=m, i=i) for m, k in [("generator", 25), ("serializer", 25), ("packets", 25), ("resampler", 15), ("convolver", 20), ("ila", 15), ("through_fifo", 20), ("merge", 20), ("serial", 15), ("spi", 30), ("fft", 12)]
            for i in range(k * n)]


def run_case(c, ctx):
    ctx.ev("modules")
    with contextlib.redirect_stdout(io.StringIO()):
        globals()["do_" + c["mod"]](c, ctx, ctx.rng)
    ctx.sample = dict(case=c)


def gaps(ctx, times, want, key, what, exact=True):
    for k, (a, b) in enumerate(zip(times, times[1:])):
        ctx.ev("intervals")
        ctx.check(b - a <= want, key, f"{what}: {b - a} instead of {'' if exact else 'at most '}{want} cycles between word {k} and the next")


class Nul:
    """The monitor of C54 is not wanted here."""
    def __init__(self, rng): self.rng = rng
    def check(self, *a, **k): pass
    def eq(self, *a, **k): pass
    def ev(self, *a, **k): pass
    def seen(self, *a, **k): pass


def record(ctx, spec, cycles, enough=None):
    """Runs a module of C54 with ready partners; returns the cycle of each word, the words and the cycles in which inputs were taken."""
    s = c54.Side(Nul(ctx.rng), random.Random(ctx.rng.getrandbits(30)), dict(consumer="always", source="eager", mod=""), spec, True)
    times, taken = [], []
    while s.t < cycles and (enough is None or len(times) < enough):
        n, left = len(s.got), len(s.words)
        s.step()
        if len(s.got) > n:
            times.append(s.t)
        if len(s.words) < left:
            taken.append(s.t)
    return times, s.got, taken


def started(ctx, d, out, plan, prepare, what, again):
    """A module that sends something after a start strobe, started a number of times."""
    b = Bench(d)
    V, R, ST, DN = b.port(out.valid), b.port(out.ready), b.port(d.start), b.port(d.done)
    FI = b.port(out.first)
    R.set(1)
    for k, item in enumerate(plan):
        n, packets = prepare(b, item)
        for _ in range(ctx.rng.choice([2, 2, 3, 9])):
            b.tick("sync")
        ST.set(1)
        b.settle()
        b.tick("sync")
        ST.set(0)
        ctx.ev("starts")
        t, times, firsts = 1, [], []
        while True:
            b.settle()
            if V.get():
                times.append(t)
                firsts.append(FI.get())
            if DN.get():
                break
            b.tick("sync")
            t += 1
            ctx.check(t <= 30 + n + 6 * packets, "slow", f"{what}: a run of {n} words in {packets} packets is not done after {t} cycles")
        ctx.check(times and times[0] <= 2, "slow", f"{what}: the first word comes {times[:1]} cycles after the start strobe")
        for a, z, f in zip(times, times[1:], firsts[1:]):
            ctx.ev("intervals")
            lim = 4 if f else 1
            ctx.check(z - a <= lim, "slow", f"{what}: {z - a} cycles between two words, {'of different packets' if f else 'of one packet'}")
        ctx.check(t - times[-1] <= 2, "slow", f"{what}: done comes {t - times[-1]} cycles after the last word")
        ctx.seen(what, n, packets)
        b.tick("sync")


def do_generator(c, ctx, r):
    from amlib.stream.generator import ConstantStreamGenerator
    n = r.choice([1, 2, 5, 16, 60, 300])
    limit = r.random() < .5
    d = ConstantStreamGenerator(bytes(r.getrandbits(8) for _ in range(n)), **(dict(max_length_width=10) if limit else {}))

    def prepare(b, item):
        pos = r.randrange(n)
        b.port(d.start_position).set(pos)
        m = n - pos
        if limit:
            lim = r.choice([1, n, 500, r.randint(1, n)])
            b.port(d.max_length).set(lim)
            m = min(m, lim)
        return m, 1
    started(ctx, d, d.stream, range(12), prepare, "constant generator", 4)


def do_serializer(c, ctx, r):
    from amlib.stream.generator import StreamSerializer
    n = r.choice([1, 2, 5, 16, 40])
    d = StreamSerializer(n)
    started(ctx, d, d.stream, range(12), lambda b, item: (n, 1), "serializer", 4)


def do_packets(c, ctx, r):
    from amlib.stream.generator import PacketListStreamer
    lens = [r.choice([1, 2, 3, 8, 40]) for _ in range(r.choice([1, 2, 5, 9]))]
    d = PacketListStreamer([bytes(r.getrandbits(8) for _ in range(x)) for x in lens])
    started(ctx, d, d.stream, range(6), lambda b, item: (sum(lens), len(lens)), "packet list", 4)


def do_resampler(c, ctx, r):
    from amlib.dsp.resampler import FractionalResampler
    up, down = r.choice([1, 2, 3, 6, 9]), r.choice([1, 2, 5, 7])
    if up == 1:
        up = 2
    d = FractionalResampler(input_samplerate=48000, upsample_factor=up, downsample_factor=down, filter_order=r.choice([3, 7]), filter_structure=r.choice(["fir", "iir"]), verbose=False)
    spec = {"dut": d, "in": d.signal_in, "in_fields": ["payload"], "words": [(r.getrandbits(16),) for _ in range(400)], "out": d.signal_out, "fields": ["payload"]}
    n = 150
    times, got, taken = record(ctx, spec, n * up + 40)
    ctx.check(len(taken) >= n, "slow", f"resampler {up}/{down}: only {len(taken)} samples are taken in {n * up + 40} cycles")
    gaps(ctx, taken, up, "slow", f"samples taken by a resampler {up}/{down}")
    gaps(ctx, times[3:], down + up, "slow", f"samples put out by a resampler {up}/{down}", False)
    ctx.check(len(times) >= n * up // down - 4, "slow", f"resampler {up}/{down}: only {len(times)} samples are put out for {len(taken)}")
    ctx.seen("resampler", up, down)


def do_convolver(c, ctx, r):
    import numpy as np
    from amlib.dsp.convolution.mac import StereoConvolutionMAC, ConvolutionMode
    slices = r.choice([1, 1, 2, 3, 4])
    per = r.choice([2, 3, 5, 16, 40])
    taps = np.array([[r.randint(-99999, 99999) for _ in range(2)] for _ in range(slices * per)], dtype=np.int32)
    # cycles per sample such that this many multipliers are needed
    avail = per
    d = StereoConvolutionMAC(taps=taps, samplerate=48000, clockfrequency=48000 * avail, convolutionMode=r.choice(list(ConvolutionMode)))
    words = [(r.getrandbits(24), int(k % 2 == 0), int(k % 2 == 1)) for k in range(120)]
    spec = {"dut": d, "in": d.signal_in, "in_fields": ["payload", "first", "last"], "words": words, "out": d.signal_out}
    times, got, taken = record(ctx, spec, 40 * (per + 10) + 60, 60)
    what = f"output pairs of a convolver with {slices * per} taps and {avail} clock cycles per sample"
    ctx.check(len(times) == 60, "slow", f"{what}: only {len(times)} words")
    gaps(ctx, times[::2], per + 10, "slow", what, False)
    ctx.seen("convolver", slices, per)


def do_ila(c, ctx, r):
    from amaranth import Signal
    from amlib.debug.ila import StreamILA
    depth = r.choice([4, 16, 32, 128])
    s = [Signal(r.choice([3, 8, 12]), name="probe")]
    d = StreamILA(signals=s, sample_depth=depth)
    b = Bench(d)
    T, V, R = b.port(d.trigger), b.port(d.stream.valid), b.port(d.stream.ready)
    R.set(1)
    for k in range(3):
        T.set(1)
        b.settle()
        b.tick("sync")
        T.set(0)
        times, t = [], 1
        ctx.ev("starts")
        while len(times) < depth:
            b.settle()
            if V.get():
                times.append(t)
            b.tick("sync")
            t += 1
            ctx.check(t < 4 * depth + 30, "slow", f"logic analyser: only {len(times)} of {depth} samples are sent after {t} cycles")
        ctx.check(times[0] <= depth + 8, "slow", f"logic analyser with {depth} samples: the first is sent {times[0]} cycles after the trigger")
        gaps(ctx, times, 2, "slow", "samples of the logic analyser stream", False)
        for _ in range(r.choice([4, 9])):
            b.tick("sync")
    ctx.seen("ila", depth)


def do_through_fifo(c, ctx, r):
    from amaranth import Elaboratable, Module
    from amaranth.lib.fifo import SyncFIFO, SyncFIFOBuffered
    from amlib.stream import StreamInterface, connect_fifo_to_stream, connect_stream_to_fifo
    w, depth, cls = r.choice([8, 13]), r.choice([2, 4, 7]), r.choice([SyncFIFO, SyncFIFOBuffered])
    if cls is SyncFIFOBuffered and depth < 4:
        depth = 4

    class Through(Elaboratable):
        def __init__(self):
            self.i, self.o = StreamInterface(name="i", payload_width=w), StreamInterface(name="o", payload_width=w)

        def elaborate(self, platform):
            m = Module()
            m.submodules.fifo = f = cls(width=w + 2, depth=depth)
            m.d.comb += connect_stream_to_fifo(self.i, f, w, w + 1) + connect_fifo_to_stream(f, self.o, w, w + 1)
            return m
    d = Through()
    spec = {"dut": d, "in": d.i, "in_fields": ["payload", "first", "last"], "words": [(r.getrandbits(w), r.getrandbits(1), r.getrandbits(1)) for _ in range(500)], "out": d.o}
    times, got, taken = record(ctx, spec, 400)
    ctx.check(len(times) >= 395, "slow", f"FIFO connection: only {len(times)} words in 400 cycles")
    gaps(ctx, times, 1, "slow", f"FIFO connection with depth {depth}")
    ctx.seen("fifo", cls.__name__, depth)


def do_merge(c, ctx, r):
    """Bursts are passed word by word; the next source is connected in the cycle after the pause."""
    from amlib.stream import StreamInterface
    from amlib.stream.arbiter import StreamArbiter, StreamMultiplexer
    n, arb = r.choice([1, 2, 3, 5]), r.random() < .6
    d = StreamArbiter() if arb else StreamMultiplexer()
    s = [StreamInterface(name=f"s{k}") for k in range(n)]
    for x in s:
        (d.add_stream if arb else d.add_input)(x)
    out = d.source if arb else d.output
    b = Bench(d)
    V = [b.port(x.valid) for x in s]
    RD = [b.port(x.ready) for x in s]
    OV, OR = b.port(out.valid), b.port(out.ready)
    OR.set(1)
    left = 0
    waited = 0
    for t in range(900):
        if left == 0:
            for v in V:
                v.set(0)
            src, left = r.randrange(n), r.choice([1, 3, 10, 40])
            b.settle()
            b.tick("sync")
            V[src].set(1)
            waited = 0
        b.settle()
        ctx.ev("intervals")
        if OV.get() and RD[src].get():
            left -= 1
            waited = 0
        else:
            waited += 1
            ctx.check(waited <= (1 if arb else 0), "slow", f"{'arbiter' if arb else 'multiplexer'}: source {src} of {n}, the only one with words, is not served for {waited} cycles")
        b.tick("sync")
    ctx.seen("merge", arb, n)


def do_serial(c, ctx, r):
    from amlib.io.serial import AsyncSerialTX
    div, bits, par = r.choice([1, 2, 5, 9, 16]), r.choice([5, 7, 8, 12]), r.choice(["none", "even", "odd", "mark"])
    d = AsyncSerialTX(divisor=div, data_bits=bits, parity=par)
    b = Bench(d)
    D, A, R = b.port(d.data), b.port(d.ack), b.port(d.rdy)
    A.set(1)
    frame = (1 + bits + (par != "none") + 1) * div
    times, t = [], 0
    while len(times) < 80:
        D.set(r.getrandbits(bits))
        b.settle()
        if R.get():
            times.append(t)
            ctx.ev("frames")
        b.tick("sync")
        t += 1
        ctx.check(t < 100 * (frame + 4), "slow", f"serial transmitter: only {len(times)} words are accepted in {t} cycles")
    ctx.check(times[0] <= 2, "slow", "serial transmitter: the first word is accepted late")
    gaps(ctx, times, frame + 2, "slow", f"words accepted by a serial transmitter with frames of {frame} cycles", False)
    ctx.seen("serial", div, bits, par)


def do_spi(c, ctx, r):
    from amlib.io.spi import SPIControllerInterface
    w, skip = r.choice([8, 8, 16, 24]), r.random() < .5
    div = r.choice([8, 12, 20] if skip else [12, 16, 20])
    pol, ph = r.randint(0, 1), r.randint(0, 1)
    d = SPIControllerInterface(word_size=w, divisor=div, clock_polarity=pol, clock_phase=ph, msb_first=r.random() < .5, skip_input_cdc=skip)
    b = Bench(d)
    ST, WC = b.port(d.start_transfer), b.port(d.word_complete)
    for k in range(4):
        for _ in range(r.choice([1, 4, 2 * div])):
            b.tick("sync")
        ST.set(1)
        b.settle()
        b.tick("sync")
        ST.set(0)
        ctx.ev("transfers")
        lim = (w + 3) * div + 16
        for t in range(lim + 1):
            b.settle()
            if WC.get():
                break
            b.tick("sync")
        ctx.check(t <= lim, "slow", f"SPI controller: a transfer of {w} bits with divisor {div} is not complete after {lim} cycles")
        for _ in range(4):
            b.tick("sync")
    ctx.seen("spi", w, div, pol, ph, skip)


def do_fft(c, ctx, r):
    from amlib.dsp.fixedpointfft import FixedPointFFT
    pts = r.choice([4, 8, 16, 32])
    st = pts.bit_length() - 1
    d = FixedPointFFT(bitwidth=r.choice([12, 16]), pts=pts, verbose=False)
    b = Bench(d)
    S, SI, SO, DN, I = b.port(d.start), b.port(d.strobe_in), b.port(d.strobe_out), b.port(d.done), b.port(d.in_i)
    for k in range(3):
        S.set(1)
        b.settle()
        b.tick("sync")
        S.set(0)
        for n in range(pts):
            for _ in range(3):
                b.tick("sync")
            I.set(r.randint(-1000, 1000))
            SI.set(1)
            b.settle()
            b.tick("sync")
            SI.set(0)
        times, t = [], 0
        ctx.ev("starts")
        lim = 12 * pts * st + 40
        while len(times) < pts:
            b.settle()
            if SO.get():
                times.append(t)
                ctx.ev("bins")
            b.tick("sync")
            t += 1
            ctx.check(t <= lim + 5 * pts, "slow", f"transform of {pts} points: only {len(times)} bins {t} cycles after the last sample")
        ctx.check(times[0] <= lim, "slow", f"transform of {pts} points: the first bin comes {times[0]} cycles after the last sample")
        gaps(ctx, times, 4, "slow", f"bins of a transform of {pts} points", False)
        for _ in range(20):
            b.settle()
            if DN.get():
                break
            b.tick("sync")
        ctx.check(DN.get(), "slow", f"transform of {pts} points: not done 20 cycles after the last bin")
        b.tick("sync")
    ctx.seen("fft", pts)
