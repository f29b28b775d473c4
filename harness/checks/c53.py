"""C53: modules refuse the parameters they cannot implement, and accept all others."""
import io
import contextlib

RULE = ("Every module and model with documented limits is made with random parameters on both sides of each limit, biased to the limits themselves; everything made is also built into a design. "
        "Beyond a limit one of the two must raise an error, within the limits neither may. A situation is (kind of parameter, value, refused or accepted).")
FLOORS = {"refused": 2500, "accepted": 2000, "kinds": 300}


def build(x):
    from amaranth.hdl.ir import Fragment
    Fragment.get(x, None)
    return x


def kinds():
    """name -> function(rng) returning (label, make, legal)"""
    K = {}

    def kind(f):
        K[f.__name__] = f
        return f
    PAR = ["none", "mark", "space", "even", "odd"]
    BADPAR = ["", "Even", "both", "None", None, 0, 1, "od", "oddly", "parity"]

    @kind
    def serial_divisor(r):
        from amlib.io import serial
        which = r.choice(["RX", "TX", ""])
        bound = 1 if which == "TX" else 5
        d = r.choice([bound - 1, bound, bound - 1, bound, 0, 1, 2, 3, 4, 5, 6, 7, r.randint(1, 100), r.randint(100, 10**6), -1, -r.randint(1, 100)])
        kw = dict(data_bits=r.randint(1, 12), parity=r.choice(PAR))
        if r.random() < .4:
            kw["divisor_bits"] = r.choice([8, 16, 24])
            if d > 0 and d.bit_length() > kw["divisor_bits"]:
                d = bound
        return f"{which} {d}", lambda: build(getattr(serial, "AsyncSerial" + which)(divisor=d, **kw)), d >= bound

    @kind
    def serial_parity(r):
        from amlib.io import serial
        which, ok = r.choice(["RX", "TX", ""]), r.random() < .5
        p = r.choice(PAR if ok else BADPAR)
        d = r.randint(5, 40)
        return f"{which} {p!r}", lambda: build(getattr(serial, "AsyncSerial" + which)(divisor=d, parity=p)), ok

    @kind
    def clock_divider(r):
        from amlib.utils.clockdivider import SimpleClockDivider
        d = r.choice([2, 3, 4, 5, r.randint(2, 40), r.randint(2, 1000)])
        pol = r.randint(0, 1)
        return f"{d}", lambda: build(SimpleClockDivider(d, clock_polarity=pol)), d % 2 == 0

    @kind
    def led_matrix(r):
        from amlib.io.max7219 import SerialLEDArray
        d, n = r.choice([2, 3, 4, 5, 9, 10, 11, r.randint(2, 300)]), r.randint(1, 4)
        return f"{d}", lambda: build(SerialLEDArray(divisor=d, no_modules=n, init_delay=r.choice([10, 1000]))), d % 2 == 0

    @kind
    def hex_display(r):
        from amlib.io.led import NumberToSevenSegmentHex
        w = r.choice([4, 8, 12, 3, 5, 6, 7, 9, 10, r.randint(1, 64)])
        reg = r.random() < .5
        return f"{w}", lambda: build(NumberToSevenSegmentHex(w, register=reg)), w % 4 == 0

    @kind
    def lfsr_seed(r):
        from amlib.utils.lfsr import LinearFeedbackShiftRegister
        n = r.randint(2, 20)
        s = 0 if r.random() < .5 else r.randint(1, 2**n - 1)
        taps = sorted({n, r.randint(1, n)})
        return f"{n} {s}", lambda: build(LinearFeedbackShiftRegister(n, taps, reset=s)), s != 0

    @kind
    def fft_points(r):
        from amlib.dsp.fixedpointfft import FixedPointFFT
        n = r.choice([2, 4, 8, 16, 32, 64, 3, 15, 17, 24, 31, 33, 63, r.randint(2, 100)])
        bw = r.choice([8, 12, 16])
        return f"{n}", lambda: build(FixedPointFFT(bw, pts=n, verbose=False)), n & (n - 1) == 0

    @kind
    def halfband_order(r):
        from amlib.dsp.fixedpointhbfilter import FixedPointHBFilter
        o = r.choice([7, 11, 15, 19, 23, 27, 9, 13, 17, 21, 10, 12, 14, r.randint(7, 40)])
        return f"{o}", lambda: build(FixedPointHBFilter(filter_order=o, bitwidth=8, fraction_width=18, verbose=False)), o % 4 == 3

    @kind
    def fraction_width(r):
        from amlib.dsp import fixedpointfirfilter as a, fixedpointiirfilter as b, fixedpointhbfilter as c
        which = r.choice("fih")
        ok = r.random() < .4
        fw = r.choice([4, 8, 12, 16, 18, 24])
        bw = fw + r.choice([1, 1, 2, 8]) if not ok else r.randint(2, max(2, fw // 2))
        if which == "f":
            # a long filter with small taps, whose conversion errors are small whatever the widths
            kw = dict(samplerate=96000, cutoff_freq=r.choice([5000, 20000]), filter_order=r.choice([7, 15]))
            make = lambda: build(a.FixedPointFIRFilter(bitwidth=bw, fraction_width=fw, verbose=False, **kw))
        elif which == "i":
            make = lambda: build(b.FixedPointIIRFilter(96000, bitwidth=bw, fraction_width=fw, filter_order=2, verbose=False))
        else:
            make = lambda: build(c.FixedPointHBFilter(bitwidth=bw, fraction_width=fw, filter_order=r.choice([7, 11]), verbose=False))
        return f"{which} {bw} {fw}", make, None if ok else False   # within the limit rounding of the coefficients may still rule a filter out

    @kind
    def fir_band(r):
        from amlib.dsp.fixedpointfirfilter import FixedPointFIRFilter
        ok = r.random() < .5
        f = r.choice([r.randint(1000, 40000), [r.randint(5000, 10000), r.randint(15000, 40000)]]) if ok else \
            r.choice(["20000", [20000], [5000, 10000, 20000], [], None, {}])
        return f"{f!r}", lambda: build(FixedPointFIRFilter(96000, bitwidth=8, fraction_width=24, cutoff_freq=f, filter_order=r.choice([7, 11]), verbose=False)), None if ok else False

    @kind
    def bank_structure(r):
        from amlib.dsp.filterbank import Filterbank
        ok = r.random() < .5
        s = r.choice(["fir", "iir"] if ok else ["", "FIR", "cic", "Iir", "fft", None, "fi", "firs"])
        return f"{s!r}", lambda: build(Filterbank(r.randint(1, 3), 96000, filter_structure=s, filter_order=3, verbose=False)), ok

    @kind
    def convolver_taps(r):
        import numpy as np
        from amlib.dsp.convolution.mac import StereoConvolutionMAC, ConvolutionMode
        slices = r.choice([2, 3, 4, 5])
        per = r.choice([8, 10, 16])
        n = slices * per - r.choice([0, 0, 1, r.randint(0, per - 1)])
        sl = -(-n // per)
        t = np.array([[r.randint(-1000, 1000)] * 2 for _ in range(n)])
        mode = r.choice(list(ConvolutionMode))
        # per cycles fit into a sample period, so that many slices are needed
        return f"{n}/{sl}", lambda: build(StereoConvolutionMAC(taps=t, samplerate=1000, clockfrequency=1000 * per, bitwidth=16, convolutionMode=mode)), n % sl == 0

    @kind
    def spi_register(r):
        from amaranth import Signal
        from amlib.io.spi import SPIRegisterInterface
        n = r.choice([1, 2, 3, 4, 7, 15])
        auto = r.random() < .4
        how = r.choice(["sfr", "ro", "reg"])

        def add(d, a, how):
            if how == "sfr": d.add_sfr(a, read=r.choice([5, Signal(8)]))
            elif how == "ro": d.add_read_only_register(a, read=r.choice([5, Signal(8)]))
            else: d.add_register(a, value_signal=Signal(8) if r.random() < .5 else None)
        used = {0} if auto else set()
        seq, legal = [], True
        for _ in range(r.randint(1, 4)):
            free = [a for a in range(min(2**n, 64)) if a not in used]
            if not free:
                break
            a = r.choice(free + [2**n - 1] * (2**n - 1 not in used))
            used.add(a)
            seq.append((a, r.choice(["sfr", "ro", "reg"])))
        bad = r.choice(["no", "no", "dup", "dup0", "range", "range2"])
        if bad == "dup" and used:
            seq.append((r.choice(sorted(used)), how)); legal = False
        if bad == "dup0" and auto:
            seq.insert(0, (0, how)); legal = False
        if bad == "range":
            seq.append((2**n, how)); legal = False
        if bad == "range2":
            seq.append((2**n + r.randint(1, 2**n), how)); legal = False

        def make():
            d = SPIRegisterInterface(address_size=n, register_size=r.choice([8, 16, 31]), support_size_autonegotiation=auto)
            for a, h in seq:
                add(d, a, h)
            build(d)
        return f"{n} {auto} {seq}", make, legal

    @kind
    def event_mode(r):
        from amlib.soc.event import EventSource
        from amlib.soc.peripheral import Peripheral
        ok = r.random() < .5
        m = r.choice(["level", "rise", "fall"] if ok else ["", "Level", "edge", "rising", "falling", "both", None, 1, "any"])
        if r.random() < .5:
            return f"{m!r}", lambda: EventSource(mode=m, name="e"), ok
        return f"p {m!r}", lambda: Peripheral(name="p").event(mode=m, name="e"), ok

    NOTNAME = [5, 0, b"x", ["a"], object(), 1.5, ("a",)]

    @kind
    def names(r):
        from amlib.soc.event import EventSource, InterruptSource
        from amlib.soc.peripheral import Peripheral
        ok = r.random() < .5
        n = r.choice(["a", "irq_1", "x9"]) if ok else r.choice(NOTNAME)
        w = r.choice(["event", "irq", "peripheral", "register", "pevent"])
        make = {"event": lambda: EventSource(name=n), "irq": lambda: build(InterruptSource([EventSource(name="e")], name=n)), "peripheral": lambda: Peripheral(name=n),
                "register": lambda: Peripheral(name="p").csr_bank().csr(8, "rw", name=n), "pevent": lambda: Peripheral(name="p").event(name=n)}[w]
        return f"{w} {n if ok else type(n).__name__!r}", make, ok

    @kind
    def events(r):
        from amaranth import Signal
        from amlib.soc.event import EventSource, InterruptSource
        ok = r.random() < .5
        es = [EventSource(name=f"e{k}") for k in range(r.randint(1, 5))]
        if not ok:
            es.insert(r.randint(0, len(es)), r.choice([Signal(), "e", None, 3, object(), EventSource]))
        return f"{len(es)} {ok}", lambda: build(InterruptSource(es, name="i")), ok

    @kind
    def peripheral_parts(r):
        from amaranth import Signal
        from amlib.soc.peripheral import Peripheral, PeripheralBridge
        from amaranth_soc import wishbone
        from amlib.soc.event import IRQLine
        ok, w = r.random() < .5, r.choice(["bus", "irq", "bridge"])
        if w == "bridge":
            p = Peripheral(name="p")
            p.csr_bank().csr(8, "rw", name="r")
            x = p if ok else r.choice([None, Signal(), "p", Peripheral, object()])
            return f"bridge {ok}", lambda: build(PeripheralBridge(x, data_width=32, granularity=8, features=frozenset(), alignment=2)), ok
        good = wishbone.Interface(addr_width=4, data_width=32, granularity=8) if w == "bus" else IRQLine(name="q")
        x = good if ok else r.choice([None, Signal(), Signal(32), "bus", 0, object(), IRQLine(name="q") if w == "bus" else wishbone.Interface(addr_width=4, data_width=32, granularity=8)])

        def make():
            p = Peripheral(name="p")
            setattr(p, w, x)
            if getattr(p, w) is not x:
                raise RuntimeError("something else was kept")
        return f"{w} {type(x).__name__}", make, ok

    @kind
    def peripheral_missing(r):
        from amlib.soc.peripheral import Peripheral
        from amaranth_soc import wishbone
        from amlib.soc.event import IRQLine
        w = r.choice(["bus", "irq"])
        other = r.random() < .5

        def make():
            p = Peripheral(name="p")
            if other and w == "bus": p.irq = IRQLine(name="q")
            if other and w == "irq": p.bus = wishbone.Interface(addr_width=4, data_width=32, granularity=8)
            getattr(p, w)
        return f"{w} {other}", make, False

    @kind
    def constant_bytes(r):
        from amlib.stream.generator import ConstantStreamGenerator
        w = r.choice([8, 16, 24, 32, 64, 7, 9, 12, 15, 17, 20, 31, 33])
        data = bytes(r.randint(0, 127) for _ in range(r.randint(1, 20)))
        by = r.choice([bytes, bytearray, list])
        legal = by is list or w % 8 == 0
        return f"{w} {by.__name__}", lambda: build(ConstantStreamGenerator(by(data), data_width=w)), legal

    @kind
    def bit_values(r):
        from amlib.utils.bits import bits
        v = r.choice([-1, -r.randint(1, 10**6), 0, r.randint(0, 10**6)])
        n = r.choice(["-1", "-0", "12", "01201", "abc", "0x1", "1.0", "", "+", "1", "0110", "+01", "1_0 1", "- 1"])
        w = r.choice(["int", "intlen", "str", "str", "strlen", "bytes", "byteslen", "iter", "iterlen", "kind", "step", "index"])
        bitstring = n.replace("_", "").replace(" ", "")
        make, legal = {
            "int": (lambda: bits(v), v >= 0), "intlen": (lambda: bits(v, 8), True),
            "str": (lambda: bits(n), bitstring == "" or (bitstring.lstrip("+") != "" and bitstring.count("+") <= 1 and set(bitstring.lstrip("+")) <= {"0", "1"})),
            "strlen": (lambda: bits("0101", 4), False), "bytes": (lambda: bits(b"ab"), False), "byteslen": (lambda: bits(b"ab", 16), True),
            "iter": (lambda: bits([1, 0, 1]), True), "iterlen": (lambda: bits([1, 0, 1], 3), False), "kind": (lambda: bits(r.choice([1.5, None, object()])), False),
            "step": (lambda: bits("01011")[::r.choice([2, 3, -1])], False), "index": (lambda: bits("01011")[r.choice(["1", 1.5, None])], False)}[w]
        return f"{w} {v if w == 'int' else n if w == 'str' else ''}", make, legal

    def crc(r, how):
        from amlib.test.crc import CrcAlgorithm
        w = r.choice([1, 5, 8, 16, 24, 32, r.randint(2, 40)])
        p = [k for k in range(w) if r.random() < .4]
        if how == "ok": p.append(w)
        if how == "low" and not p: how, p = "none", []
        if how == "high": p += [w, w + r.choice([1, 1, 8])]
        if how == "none": p = []
        r.shuffle(p)
        poly = r.choice([tuple, list, set])(p) if how != "mask" else r.getrandbits(w)
        return f"{how} {w}", lambda: CrcAlgorithm(w, poly), how in ("ok", "mask")

    @kind
    def crc_polynomial(r):
        return crc(r, r.choice(["ok", "mask"]))

    @kind
    def crc_degree(r):
        return crc(r, r.choice(["low", "high", "none"]))
    return K


def cases(tier, rng):
    n = 16 if tier == "quick" else 200
    return [dict(kind=k, n=20 if k not in ("fraction_width", "fir_band", "bank_structure", "fft_points", "halfband_order", "led_matrix") else 8, i=i) for k in kinds() for i in range(n)]


def run_case(c, ctx):
    rng = ctx.rng
    gen = kinds()[c["kind"]]
    ctx.ev("kinds")
    for _ in range(c["n"]):
        label, make, legal = gen(rng)
        err = None
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                make()
            except Exception as e:
                err = e
        ctx.seen(c["kind"], label[:40], err is None)
        if legal is False:
            ctx.check(err is not None, "not_refused", f"{c['kind']}: {label} must be refused but was accepted")
            ctx.ev("refused")
        elif legal:
            ctx.check(err is None, "refused", f"{c['kind']}: {label} is within the limits but was refused: {type(err).__name__}: {err}")
            ctx.ev("accepted")
        else:
            ctx.ev("either")
