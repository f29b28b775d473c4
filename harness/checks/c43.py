"""C43: host side of the logic analyser - the bytes it sends become the values, times and waveforms that were captured."""
import contextlib
import io
import re
import os
import sys
import tempfile
import types

RULE = ("A case is an analyser with random signals, depth and sample rate whose serial output (decoded from the simulated line, or made up from random samples) is handed to the host side reader "
        "through a stand-in serial port that also holds stale bytes; parsed samples, times, repeated fetches, saved and loaded parameters, the waveform (in a file, on standard output, or handed to a stand-in of the viewer; read back with an independent parser), the view file and the printed samples are "
        "compared with what was captured. A situation is (sample width, signal widths, depth, rate, clock shown).")
FLOORS = {"samples": 4000, "wide_samples": 1500, "line_samples": 60, "vcd_values": 5000, "clock_edges": 1500, "pickled": 30, "displays": 30, "stdout": 30, "printed": 1500}
ASSUMPTIONS = ["amaranth_soc and pyserial are replaced by stand-ins (the latter delivers bytes as a port with a read timeout does)"]


def cases(tier, rng):
    n = 1 if tier == "quick" else 15
    out = [dict(kind="host", nsig=rng.choice([1, 2, 3, 5, 8]), depth=rng.choice([1, 2, 7, 32, 100]), pickle=rng.random() < .4, clock=rng.random() < .6, gtkw=rng.random() < .7) for _ in range(120 * n)]
    out += [dict(kind="line", nsig=rng.choice([1, 2, 3]), depth=rng.choice([2, 5, 8]), pickle=rng.random() < .4, clock=rng.random() < .6, gtkw=rng.random() < .5, div=rng.choice([2, 3])) for _ in range(16 * n)]
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(kind="host", nsig=k, depth=d, pickle=rng.random() < .4, clock=True, gtkw=True) for k, d in ((3, 1000), (30, 50), (2, 3000)) for _ in range(m)]
    return out


class Port:
    """A serial port with a read timeout: read() delivers what has arrived, at most the number of bytes asked for."""
    made, stale = [], b""

    def __init__(self, *args, **kw):
        self.args, self.kw, self.buffer = args, kw, bytearray(Port.stale)
        self.timeout, self.is_open = kw.get("timeout"), True
        Port.made.append(self)

    in_waiting = property(lambda self: len(self.buffer))

    def reset_input_buffer(self):
        self.buffer.clear()

    flushInput = reset_input_buffer
    inWaiting = lambda self: len(self.buffer)

    def reset_output_buffer(self):
        pass

    flush = flushOutput = reset_output_buffer

    def close(self):
        self.is_open = False

    def open(self):
        self.is_open = True

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    def read_all(self):
        return self.read(len(self.buffer))

    def readinto(self, b):
        got = self.read(len(b))
        b[:len(got)] = got
        return len(got)

    def read_until(self, expected=b"\n", size=None):
        i = self.buffer.find(expected)
        n = len(self.buffer) if i < 0 else i + len(expected)
        return self.read(n if size is None else min(n, size))

    def read(self, size=1):
        got = bytes(self.buffer[:size])
        del self.buffer[:size]
        return got


def read_vcd(path):
    """-> ({name: width}, [(time, name, value)]) of a value change dump"""
    names, changes, t = {}, [], 0
    tok = open(path).read().split()
    i = 0
    widths, scale = {}, None
    while i < len(tok):
        w = tok[i]
        if w == "$var":
            names[tok[i + 3]] = tok[i + 4]
            widths[tok[i + 4]] = int(tok[i + 2])
            while tok[i] != "$end":
                i += 1
        elif w == "$timescale":
            scale = ""
            while tok[i + 1] != "$end":
                i += 1
                scale += tok[i]
        elif w in ("$date", "$comment", "$version", "$scope", "$upscope"):
            while tok[i] != "$end":
                i += 1
        elif w[0] == "#":
            t = int(w[1:])
        elif w[0] in "bB":
            i += 1
            changes.append((t, names[tok[i]], w[1:]))
        elif w[0] in "01xzXZ":
            changes.append((t, names[w[1:]], w[0]))
        i += 1
    return widths, scale, changes


def run_case(c, ctx):
    from amaranth import Signal
    from amaranth.hdl.ast import Shape
    rng = ctx.rng
    fake = types.ModuleType("serial")
    fake.Serial = Port
    sys.modules["serial"] = fake
    from amlib.debug.ila import AsyncSerialILA, AsyncSerialILAFrontend, ILACoreParameters
    widths = [rng.choice([1, 1, 2, 4, 7, 8, 9, 12, 16, 24, 33]) for _ in range(c["nsig"])]
    sigs = [Signal(Shape(w, rng.random() < .2), name=f"s{i}_{rng.choice('abc')}") for i, w in enumerate(widths)]
    # odd rates: times in the waveform file are whole nanoseconds
    rate = rng.choice([1e3, 44100, 44117.64, 48e6 / 7, 1234.5, 1e6, 25e6, 27e6, 48e6, 50e6, 60e6, 60e6, 100e6])
    kw = dict(sample_rate=rate) if rate != 60e6 else {}
    pre = rng.choice([0, 1])
    ila = AsyncSerialILA(signals=sigs, sample_depth=c["depth"], divisor=c.get("div", 4), samples_pretrigger=pre, **kw)
    scratch = tempfile.mkdtemp(prefix="c43")
    path = lambda n: os.path.join(scratch, n)
    try:
        params = ila
        if c["pickle"]:
            ILACoreParameters(ila).pickle(path("ila.P"))
            params = ILACoreParameters.unpickle(path("ila.P"))
            ctx.ev("pickled")
            ctx.eq([(s.name, len(s), s.shape().signed) for s in params.signals], [(s.name, len(s), s.shape().signed) for s in sigs], "params", "signals of the loaded parameters")
            ctx.eq((params.sample_depth, params.sample_rate, params.sample_period), (c["depth"], rate, 1 / rate), "params", "depth, rate and period of the loaded parameters")
        nbytes = ila.bytes_per_sample
        Port.stale = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 2, 3, nbytes, 5, 16, 41, nbytes * c["depth"], nbytes * c["depth"] + 1])))
        front = AsyncSerialILAFrontend("/dev/null0", baudrate=115200, timeout=1, ila=params)
        port = Port.made[-1]
        ctx.eq((port.args, port.kw), (("/dev/null0",), dict(baudrate=115200, timeout=1)), "port", "how the serial port was opened")
        line = run_line(c, ctx, ila, sigs, pre) if c["kind"] == "line" else None

        def capture():
            if line:
                return line.pop(0)
            vals = [[rng.getrandbits(w) for w in widths] for _ in range(c["depth"])]
            data = b""
            for v in vals:
                n = sum(x << sum(widths[:i]) for i, x in enumerate(v))
                data += n.to_bytes(nbytes, "little")
            return vals, data
        vals, data = capture()
        port.buffer += data

        def compare(got, vals, what):
            ctx.eq(len(got), len(vals), "count", f"number of {what}")
            for k, ((t, sample), v) in enumerate(zip(got, vals)):
                ctx.check(abs(t - k / rate) <= 1e-6 * max(k, 1) / rate, "time", f"sample {k} has time {t}, expected {k / rate}")
                ctx.eq(list(sample), [s.name for s in sigs], "names", "names of the signals of a sample")
                ctx.eq([len(x) for x in sample.values()], widths, "widths", "number of bits of the values of a sample")
                ctx.eq([int(x) for x in sample.values()], v, "values", f"{what}: sample {k} (widths {widths}, {nbytes} bytes)")
            ctx.ev("samples", len(vals))
            if nbytes > 1:
                ctx.ev("wide_samples", len(vals))
            if c["kind"] == "line":
                ctx.ev("line_samples", len(vals))
        compare(list(front.enumerate_samples()), vals, "samples")
        compare(list(front.enumerate_samples()), vals, "samples read again")
        vals, data = capture()
        port.buffer += data
        with contextlib.redirect_stdout(io.StringIO()):
            front.refresh()
        compare(list(front.enumerate_samples()), vals, "samples of the next capture")
        with contextlib.redirect_stdout(io.StringIO()):
            kw = {} if c["clock"] and rng.random() < .5 else dict(add_clock=c["clock"])
            if c["gtkw"]:
                kw["gtkw_filename"] = path("x.gtkw")
            front.emit_vcd(path("x.vcd"), **kw)
        check_vcd(c, ctx, path("x.vcd"), sigs, widths, vals, rate)
        if c["kind"] != "line":
            other_outputs(c, ctx, front, scratch, sigs, widths, vals, rate)
        if c["gtkw"]:
            ctx.check(os.path.exists(path("x.gtkw")), "view", "the view was not written")
            text = open(path("x.gtkw")).read().split("\n")
            ctx.check(any(x.startswith("[dumpfile]") and "x.vcd" in x for x in text), "view", "the view does not name the waveform file")
            want = (["ila.ila_clock"] if c["clock"] else []) + ["ila." + s.name for s in sigs]
            ctx.eq([x.split("[")[0] for x in text if x.startswith("ila.")], want, "view", "signals shown by the view file")
        ctx.seen(sum(widths), tuple(widths), c["depth"], rate, c["clock"])
    finally:
        for n in os.listdir(scratch):
            os.remove(path(n))
        os.rmdir(scratch)
    ctx.sample = dict(case=c, widths=widths, rate=rate)


def other_outputs(c, ctx, front, scratch, sigs, widths, vals, rate):
    """Standard output, printed samples and the waveform viewer."""
    import amlib.debug.ila as mod
    rng = ctx.rng
    path = os.path.join(scratch, "o.vcd")
    kw = {} if c["clock"] and rng.random() < .5 else dict(add_clock=c["clock"])
    if rng.random() < .5:
        with contextlib.redirect_stdout(io.StringIO()) as out:
            front.emit_vcd("-", **kw)
        text = out.getvalue()
        ctx.check(text.startswith("$"), "stdout", f"standard output does not start with a waveform: {text[:60]!r}")
        with open(path, "w") as f:
            f.write(text)
        check_vcd(c, ctx, path, sigs, widths, vals, rate)
        ctx.ev("stdout")
    if rng.random() < .5:
        runs = []

        def viewer(args, *a, **k):
            # stands in for the waveform viewer: keeps what it would have shown
            runs.append((list(args), {x: open(x).read() for x in args[1:] if os.path.isabs(x) and os.path.exists(x)}))
        old, tmp = mod.subprocess.run, tempfile.tempdir
        mod.subprocess.run, tempfile.tempdir = viewer, scratch
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                front.interactive_display(**kw)
        finally:
            mod.subprocess.run, tempfile.tempdir = old, tmp
        ctx.eq(len(runs), 1, "viewer", "times the viewer was started")
        files = runs[0][1]
        vcds = [x for x in files.values() if x.startswith("$")]
        views = [x for x in files.values() if "[dumpfile]" in x]
        ctx.eq((runs[0][0][0], len(vcds), len(views)), ("gtkwave", 1, 1), "viewer", "viewer, waveforms and views it is given")
        with open(path, "w") as f:
            f.write(vcds[0])
        check_vcd(c, ctx, path, sigs, widths, vals, rate)
        want = (["ila.ila_clock"] if c["clock"] else []) + ["ila." + s.name for s in sigs]
        ctx.eq([x.split("[")[0] for x in views[0].split("\n") if x.startswith("ila.")], want, "viewer", "signals shown by the viewer")
        ctx.eq([x for x in os.listdir(scratch) if x not in ("x.vcd", "x.gtkw", "o.vcd", "ila.P")], [], "viewer", "files left behind by the display")
        ctx.ev("displays")
    with contextlib.redirect_stdout(io.StringIO()) as out:
        front.print_samples()
    lines = out.getvalue().strip().split("\n")
    ctx.eq(len(lines), len(vals), "print", "number of printed samples")
    for k, (ln, v) in enumerate(zip(lines, vals)):
        t = re.match(r"\s*([0-9.]+)us: ", ln)
        ctx.check(t is not None and abs(float(t.group(1)) - 1e6 * k / rate) <= 1e-6 * max(1, 1e6 * k / rate), "print", f"line {k} of the printed samples does not name its time, {1e6 * k / rate} us: {ln[:80]}")
        got = re.findall(r"'(\w+)': bits\('([01]*)'\)", ln)
        ctx.eq(got, [(s.name, f"{x:0{w}b}") for s, x, w in zip(sigs, v, widths)], "print", f"values printed for sample {k}")
    ctx.ev("printed", len(vals))


def check_vcd(c, ctx, path, sigs, widths, vals, rate):
    ctx.check(os.path.exists(path), "vcd-file", "the waveform file was not written")
    try:
        got_widths, scale, changes = read_vcd(path)
    except (KeyError, ValueError, IndexError) as e:
        ctx.fail("vcd-file", f"the waveform file cannot be read: {type(e).__name__}: {e}")
    unit = {"1ns": 1e-9, "1ps": 1e-12, "1us": 1e-6, "10ns": 1e-8, "100ps": 1e-10, "10ps": 1e-11, "100ns": 1e-7, "1fs": 1e-15}[scale]
    want = {s.name: w for s, w in zip(sigs, widths)}
    if c["clock"]:
        clock = [n for n in got_widths if n not in want]
        ctx.check(len(clock) == 1, "vcd-clock", f"waveform has these additional signals: {clock}")
        clock = clock[0]
        got_widths.pop(clock)
    ctx.eq(got_widths, want, "vcd-signals", "signals of the waveform file")
    ctx.check(all(a[0] <= b[0] for a, b in zip(changes, changes[1:])), "vcd-order", "times go backwards in the waveform file")
    # value of every signal in the middle of every sample
    period = 1 / rate / unit
    state, k = {}, 0
    by_name = {s.name: i for i, s in enumerate(sigs)}

    def judge(k):
        for n, i in by_name.items():
            ctx.eq(state.get(n), vals[k][i], "vcd-value", f"{n} in the waveform file during sample {k}")
            ctx.ev("vcd_values")
    edges = []
    for t, n, v in changes:
        while k < len(vals) and t > k * period + period / 2:
            judge(k)
            k += 1
        if n in by_name:
            state[n] = int(v, 2) if set(v) <= {"0", "1"} else v
            # a change is at the start of a sample, to within the resolution of the file
            if t:
                ctx.check(abs(t / period - round(t / period)) * period <= 1.01 + 1e-6 * t, "vcd-time", f"{n} changes at {t}, which is not the time of a sample (period {period})")
        else:
            edges.append((t, v))
    while k < len(vals):
        judge(k)
        k += 1
    if c["clock"]:
        lev = [e for i, e in enumerate(edges) if i == 0 or e[1] != edges[i - 1][1]]
        for j, (t, v) in enumerate(lev):
            q = t / (period / 2)
            ctx.check(abs(q - round(q)) * period / 2 <= 1.01 + 1e-6 * t, "vcd-clock", f"clock edge at {t} (period {period})")
            ctx.ev("clock_edges")
        rising = {round(t / period) for t, v in lev if v in ("1", "b1")}
        ctx.check(rising >= set(range(0, len(vals) - 1)), "vcd-clock", f"the clock does not rise at every sample: {len(rising)} rising edges for {len(vals)} samples")


def run_line(c, ctx, ila, sigs, pre):
    """Two captures of the simulated analyser -> [(values per sample, bytes decoded from the line)]"""
    from amaranth import Module, Signal
    from ..bench import Bench
    rng = ctx.rng
    m = Module()
    m.submodules.dut = ila
    b = Bench(m)
    S = [b.port(s) for s in sigs]
    T, TX = b.port(ila.trigger), b.port(ila.tx)
    hist, line = [], []
    d = c["div"]

    def step():
        v = [rng.getrandbits(len(s)) for s in sigs]
        for p, x in zip(S, v):
            p.set(x)
        b.settle()
        line.append(TX.get())
        b.tick("sync")
        hist.append(v)
    out = []
    for _ in range(2):
        for _ in range(20):
            step()
        T.set(1)
        step()
        T.set(0)
        t0 = len(hist) - 1
        del line[:]
        for _ in range(c["depth"] * (ila.bytes_per_sample * 10 * d + 12) + 60):
            step()
        data, i = [], 0
        while i < len(line):
            if line[i]:
                i += 1
                continue
            data.append(sum(line[i + d // 2 + (1 + j) * d] << j for j in range(8)))
            i += 10 * d
        out.append((hist[t0 - pre:t0 - pre + c["depth"]], bytes(data)))
    return out
