"""C50: the gateware test case - tests run to their end, are judged truthfully, and their helpers take the time they should."""
import contextlib
import io
import math
import os
import re
import shutil
import tempfile
import unittest

RULE = ("A case is one generated test class: a random process of helper calls on a small circuit that counts cycles and records its input, with failing and passing assertions at random places, run by unittest as a user would, with or without waveform files; "
        "or a test of the SPI test case against an SPI device model in one of the four modes. A situation is (helper, argument, outcome).")
FLOORS = {"tests": 300, "calls": 3000, "failing": 60, "passing": 100, "timeouts": 20, "waveforms": 20, "octets": 60}
ASSUMPTIONS = ["the clock domain is `sync`, the only one the test case provides a clock for"]


def cases(tier, rng):
    n = 1 if tier == "quick" else 14
    l = [dict(kind="process", vcd=v, fail=f, seed2=rng.getrandbits(32)) for _ in range(30 * n) for v in (False, False, True) for f in ("no", "assert", "error", "helper", "timeout")]
    l += [dict(kind="spi", pol=p, pha=h, msb=m, seed2=rng.getrandbits(32)) for _ in range(6 * n) for p in (0, 1) for h in (0, 1) for m in (True, False)]
    l += [dict(kind="clock", seed2=rng.getrandbits(32)) for _ in range(4 * n)]
    l += [dict(kind="long", freq=f, cycles=k, good=g) for _ in range(n) for f, k in ((100e6, 20000), (1e3, 300), (10.0, 50), (1e6, rng.randrange(2000, 9000)), (48e6, rng.randrange(5000, 60000))) for g in (True, False)]
    l.append(dict(kind="signed"))
    return l


LEN = 4000


def make_dut(strobes, width):
    from amaranth import Elaboratable, Module, Signal

    class Dut(Elaboratable):
        """Counts cycles, records `inp` of each, and gives a strobe in the cycles of a list."""
        def __init__(self, tag=0, other=None):
            self.tag, self.other = tag, other
            self.cycle, self.inp, self.history, self.strobe, self.value = Signal(16, name="cycle"), Signal(width, name="inp"), Signal(LEN, name="history"), Signal(name="strobe"), Signal(40, name="value")
            self.init = Signal(4)

        def elaborate(self, platform):
            m = Module()
            m.d.sync += [self.cycle.eq(self.cycle + 1), self.history.bit_select(self.cycle[:12], 1).eq(self.inp != 0)]
            for s in strobes:
                with m.If(self.cycle == s):
                    m.d.comb += self.strobe.eq(1)
            return m
    return Dut


def run_tests(cls):
    res = unittest.TestResult()
    with contextlib.redirect_stdout(io.StringIO()):
        unittest.defaultTestLoader.loadTestsFromTestCase(cls).run(res)
    return res


def outcome(res):
    return {**{t._testMethodName: "fail" for t, _ in res.failures}, **{t._testMethodName: "error" for t, _ in res.errors}}


class Boom(Exception):
    pass


def run_case(c, ctx):
    if c["kind"] == "spi":
        return spi_case(c, ctx)
    if c["kind"] == "signed":
        return signed_case(c, ctx)
    if c["kind"] == "long":
        return long_case(c, ctx)
    if c["kind"] == "clock":
        return clock_case(c, ctx)
    from amlib.test.utils import GatewareTestCase, sync_test_case
    rng = ctx.rng
    freq = rng.choice([100e6, 60e6, 48e6, 1e6, 12.288e6, 33e6])
    strobes = sorted(set(rng.randrange(3, 600) for _ in range(rng.choice([1, 5, 30]))))
    notes = []
    Dut = make_dut(strobes, rng.choice([1, 1, 4]))
    args = dict(tag=rng.getrandbits(8), other=rng.choice([None, "x"]))
    init_value = rng.randrange(16)
    two = rng.random() < .5

    def note(key, *a):
        notes.append((key,) + a)

    def plan(fail):
        ops = [rng.choice(["pulse", "pulse", "pulse_no_step", "advance", "wait", "until", "until", "until_timeout", "low", "high", "zero", "nonzero", "yield"]) for _ in range(rng.choice([3, 10, 25]))]
        if fail != "no":
            ops.insert(rng.randrange(len(ops) + 1), "FAIL_" + fail)
            if rng.random() < .3:
                ops = ops[:ops.index("FAIL_" + fail) + 1]
        return ops

    def make(ops, fail):
        done = []
        log = []                                  # expected history of the recorded input: (cycle, value)

        def process(self):
            dut = self.dut
            seen = lambda: (yield dut.cycle)
            ctx.ev("calls", len(ops))
            done.append("started")
            if (yield dut.init) != init_value:
                note("init", (yield dut.init), init_value)
            for op in ops:
                t0 = yield dut.cycle
                took = None
                if op == "yield":
                    yield
                    took = 1
                elif op in ("pulse", "pulse_no_step"):
                    if op == "pulse":
                        yield from rng.choice([lambda: self.pulse(dut.inp), lambda: self.pulse(dut.inp, step_after=True)])()
                        took = 2
                    else:
                        yield from self.pulse(dut.inp, step_after=False)
                        took = 1
                    log.append(t0 + 1)            # a process sees the values before the clock edge at which it runs
                elif op == "advance":
                    took = rng.choice([0, 1, 2, 5, 17])
                    yield from self.advance_cycles(took)
                elif op == "wait":
                    k = rng.choice([0, 1, 3, 10]) + rng.choice([0, 0, .25, .5, .9, .0003, .9997])
                    yield from self.wait(k / freq)
                    t = yield dut.cycle
                    if t - t0 not in (math.ceil(k), math.ceil(k - 1e-6), math.ceil(k + 1e-6)):
                        note("wait", f"wait({k} cycles) took {t - t0} cycles")
                    ctx.seen(op, k, fail)
                    continue
                elif op in ("until", "until_timeout", "FAIL_timeout"):
                    nxt = [s for s in strobes if s >= t0]
                    distance = nxt[0] - t0 if nxt else None
                    if op == "until":
                        if distance is None:
                            continue
                        yield from self.wait_until(dut.strobe, **rng.choice([{}, {"timeout": None}, {"timeout": distance + rng.choice([1, 5])}]))
                        took = distance
                    else:
                        timeout = rng.choice([1, 2, 5, 40, max(1, distance or 1), max(1, (distance or 1) - 1), (distance or 1) + 1])
                        late = distance is None or distance > timeout
                        if op == "FAIL_timeout" and not late:
                            if distance < 2:
                                yield from self.advance_cycles(distance + 1)
                                t0 = yield dut.cycle
                                timeout, late = 1, True
                                distance = min((s - t0 for s in strobes if s >= t0), default=None)
                                if distance is not None and distance <= 1:
                                    raise RuntimeError("no room")
                            else:
                                timeout, late = distance - 1, True
                        ctx.ev("timeouts", int(late))
                        ctx.seen(op, distance, timeout)
                        try:
                            yield from self.wait_until(dut.strobe, timeout=timeout)
                            if late:
                                note("timeout", f"wait_until with a timeout of {timeout} returned though the strobe was {distance} cycles away")
                            took = distance
                        except RuntimeError:
                            if not late:
                                note("timeout", f"wait_until with a timeout of {timeout} raised though the strobe was {distance} cycles away")
                            if op == "FAIL_timeout":
                                raise
                            took = None
                elif op == "FAIL_assert":
                    done.append("failing")
                    self.assertEqual(1, 2)
                elif op == "FAIL_error":
                    done.append("failing")
                    raise Boom
                else:
                    value = rng.choice([0, 0, 1, 1, 1, 2, 255, 256, 1 << 31, 1 << 32, (1 << 40) - 1])
                    yield dut.value.eq(value)
                    yield
                    t0 += 1
                    took = 0
                    if op == "FAIL_helper":
                        ok, op = False, rng.choice(["low", "high", "zero", "nonzero"])
                        value = {"low": rng.choice([1, 2, 255, 1 << 36]), "zero": rng.choice([1, 2, 255, 1 << 36]), "high": rng.choice([0, 2, 255, 1 << 36]), "nonzero": 0}[op]
                        yield dut.value.eq(value)
                        yield
                        done.append("failing")
                        yield from {"low": self.shouldBeLow, "zero": self.shouldBeZero, "high": self.shouldBeHigh, "nonzero": self.shouldBeNonZero}[op](dut.value)
                        note("helper", f"{op} accepted {value}")
                    ok = {"low": value == 0, "zero": value == 0, "high": value == 1, "nonzero": value > 0}[op]
                    ctx.seen(op, value)
                    try:
                        yield from {"low": self.shouldBeLow, "zero": self.shouldBeZero, "high": self.shouldBeHigh, "nonzero": self.shouldBeNonZero}[op](dut.value)
                        if not ok:
                            note("helper", f"{op} accepted {value}")
                    except AssertionError:
                        if ok:
                            note("helper", f"{op} rejected {value}")
                t = yield dut.cycle
                if took is not None and t - t0 != took:
                    note("time", f"{op} took {t - t0} cycles instead of {took}")
                ctx.seen(op, took, fail)
            yield
            yield
            h = yield dut.history
            want = sum(1 << t for t in set(log))
            if h != want:
                note("pulse", f"the input was high in cycles {[i for i in range(LEN) if h >> i & 1]} instead of {sorted(log)}")
            if (dut.tag, dut.other) != (args["tag"], args["other"]):
                note("arguments", (dut.tag, dut.other), args)
            done.append("completed")
        return process, done

    vcd_name = rng.choice([None, "waves"])
    fail = c["fail"]
    plans = {"test_one": plan(fail), **({"test_two": plan("no")} if two else {})}
    dones = {}
    ns = dict(FRAGMENT_UNDER_TEST=Dut, FRAGMENT_ARGUMENTS=args, SYNC_CLOCK_FREQUENCY=freq)

    def initialize_signals(self):
        yield self.dut.init.eq(init_value)
        yield self.dut.inp.eq(0)
        yield
    ns["initialize_signals"] = initialize_signals
    if vcd_name:
        ns["get_vcd_name"] = lambda self: vcd_name
    ns["traces_of_interest"] = lambda self: (self.dut.inp, self.dut.strobe)
    for name, ops in plans.items():
        p, dones[name] = make(ops, fail if name == "test_one" else "no")
        p.__name__ = name
        ns[name] = rng.choice([sync_test_case, lambda f: sync_test_case(f, domain="sync")])(p)
    cls = type("Generated", (GatewareTestCase,), ns)

    tmp = tempfile.mkdtemp(prefix="c50_")
    cwd = os.getcwd()
    old = os.environ.pop("GENERATE_VCDS", None)
    try:
        os.chdir(tmp)
        if c["vcd"]:
            os.environ["GENERATE_VCDS"] = "1"
        res = run_tests(cls)
        files = sorted(os.listdir(tmp))
        base = vcd_name or "test_Generated"
        want_files = sorted(f"{base}_{n}.{x}" for n in plans for x in ("vcd", "gtkw")) if c["vcd"] else []
        ctx.eq(files, want_files, "files", "waveform files")
        for f in files:
            text = open(f).read()
            if f.endswith("gtkw"):
                ctx.check("inp" in text and "strobe" in text, "traces", f"{f} does not list the traces of interest: {text[-300:]}")
            else:
                check_vcd(ctx, f, text, freq, fail != "no" and "test_one" in f)
    finally:
        os.environ.pop("GENERATE_VCDS", None)
        if old is not None:
            os.environ["GENERATE_VCDS"] = old
        os.chdir(cwd)
        shutil.rmtree(tmp)
    ctx.check(not notes, notes[0][0] if notes else "", f"{notes[:3]}")
    out = outcome(res)
    ctx.ev("tests", res.testsRun)
    ctx.eq(res.testsRun, len(plans), "run", "tests run")
    for name in plans:
        f = fail if name == "test_one" else "no"
        want = {"no": None, "assert": "fail", "helper": "fail", "error": "error", "timeout": "error"}[f]
        why = [t for _, t in res.failures + res.errors]
        ctx.eq(out.get(name), want, "verdict", f"{name} ({f}, {plans[name]}): outcome; {why[:1]}")
        ctx.ev("failing" if want else "passing")
        ctx.check("started" in dones[name], "started", f"{name} did not start")
        if f == "no":
            ctx.check("completed" in dones[name], "completed", f"{name} passed without running to its end")
        else:
            ctx.check("completed" not in dones[name], "completed", f"{name} ran on after its failure")
    ctx.sample = dict(case=c, plans=plans)


def check_vcd(ctx, name, text, freq, short):
    ids = {}
    for m in re.finditer(r"\$var \w+ (\d+) (\S+) (\S+)", text):
        ids.setdefault(m[3], m[2])
    ctx.check("clk" in ids and "inp" in ids, "waveform", f"{name} lacks signals: {sorted(ids)}")
    unit = {"fs": 1e-15, "ps": 1e-12, "ns": 1e-9}
    m = re.search(r"\$timescale (\d+) (\w+)", text)
    scale = int(m[1]) * unit[m[2]]
    now, rises = 0, []
    for line in text.splitlines():
        if line.startswith("#"):
            now = int(line[1:])
        elif line == "1" + ids["clk"]:
            rises.append(now * scale)
    ctx.check(short or len(rises) > 2, "waveform", f"{name} has no clock edges")
    periods = {round((b - a) * freq, 3) for a, b in zip(rises, rises[1:])}
    ctx.check(all(abs(p - 1) < .002 for p in periods), "clock", f"{name}: clock periods are {periods} of 1/{freq}")
    ctx.ev("waveforms")


def long_case(c, ctx):
    """A test may take any number of cycles and any simulated time."""
    from amlib.test.utils import GatewareTestCase, sync_test_case
    done = []

    def p(self):
        half = c["cycles"] // 2
        yield from self.advance_cycles(half)
        yield from self.wait((c["cycles"] - half) / c["freq"])
        done.append((yield self.dut.cycle))
        self.assertTrue(c["good"])
        done.append("end")
    cls = type("Long", (GatewareTestCase,), dict(FRAGMENT_UNDER_TEST=make_dut([5], 1), SYNC_CLOCK_FREQUENCY=c["freq"], test_one=sync_test_case(p)))
    res = run_tests(cls)
    ctx.ev("tests")
    ctx.ev("passing" if c["good"] else "failing")
    ctx.seen("long", c["freq"], c["cycles"], c["good"])
    ctx.check(len(done) >= 1, "cut", f"a test of {c['cycles']} cycles at {c['freq']} Hz did not run to its end")
    ctx.check(c["cycles"] - 1 <= done[0] <= c["cycles"] + 3, "cut", f"a test of {c['cycles']} cycles took {done[0]}")
    ctx.eq(res.wasSuccessful(), c["good"], "verdict", f"a test of {c['cycles']} cycles at {c['freq']} Hz passed")
    ctx.sample = dict(case=c)


def clock_case(c, ctx):
    """Without a clock frequency a test cannot run, and must not pass."""
    from amlib.test.utils import GatewareTestCase, sync_test_case
    ran = []

    def p(self):
        ran.append(1)
        yield
    cls = type("NoClock", (GatewareTestCase,), dict(FRAGMENT_UNDER_TEST=make_dut([5], 1), SYNC_CLOCK_FREQUENCY=None, test_one=sync_test_case(p)))
    res = run_tests(cls)
    ctx.ev("tests")
    ctx.ev("failing")
    ctx.check(not res.wasSuccessful(), "noclock", "a test without a clock passed")
    ctx.check(not ran, "noclock", "a test without a clock was run")
    ctx.sample = dict(case=c)


def spi_case(c, ctx):
    from amaranth import Elaboratable, Module, Record, Signal
    from amlib.io.spi import SPIGatewareTestCase
    from amlib.test.utils import sync_test_case
    rng = ctx.rng
    pol, pha, msb = c["pol"], c["pha"], c["msb"]
    octets = [rng.getrandbits(8) for _ in range(rng.choice([1, 2, 5]))]
    answer = [rng.getrandbits(8) for _ in octets]
    order = (lambda l: [int(f"{x:08b}"[::-1], 2) for x in l]) if not msb else list
    total = 8 * len(octets)
    out_bits = int("".join(f"{x:08b}" for x in order(answer)), 2)

    class Device(Elaboratable):
        def __init__(self):
            self.spi = Record([("sck", 1), ("sdi", 1), ("sdo", 1), ("cs", 1)])
            self.got, self.count, self.edges = Signal(total), Signal(8), Signal(8)

        def elaborate(self, platform):
            m = Module()
            spi, last, out = self.spi, Signal(reset=pol), Signal(total + 1)
            lead, trail = Signal(), Signal()
            was = Signal()
            m.d.sync += [last.eq(spi.sck), was.eq(spi.cs)]
            m.d.comb += [lead.eq(spi.cs & (last == pol) & (spi.sck != pol)), trail.eq(spi.cs & (last != pol) & (spi.sck == pol))]
            sample, shift = (trail, lead) if pha else (lead, trail)
            with m.If(sample):
                m.d.sync += [self.got.eq(self.got << 1 | spi.sdi), self.count.eq(self.count + 1)]
            with m.If(spi.cs & ~was):
                m.d.sync += out.eq(out_bits if pha else out_bits << 1)
            with m.Elif(shift):
                m.d.sync += out.eq(out << 1)
            m.d.comb += spi.sdo.eq(out[total])
            return m

    result = {}

    def process(self):
        dut = self.dut
        for _ in range(rng.choice([2, 9])):
            yield
        how = rng.choice(["data", "data", "default"]) if msb else "data"
        data = rng.choice([bytes, list, bytearray])(octets)
        result["answer"] = list((yield from (self.spi_exchange_data(data) if how == "default" else self.spi_exchange_data(data, msb_first=msb))))
        for _ in range(5):
            yield
        result["got"] = yield dut.got
        result["count"] = yield dut.count
        result["cs"] = yield dut.spi.cs

    def initialize_signals(self):
        yield self.dut.spi.cs.eq(0)
        yield self.dut.spi.sck.eq(pol)
    cls = type("GeneratedSPI", (SPIGatewareTestCase,), dict(FRAGMENT_UNDER_TEST=Device, FRAGMENT_ARGUMENTS={}, clock_polarity=pol, clock_phase=pha, initialize_signals=initialize_signals, test_one=sync_test_case(process),
                                                           **({"cycles_per_bit": rng.choice([3, 4, 7])} if rng.random() < .5 else {})))
    res = run_tests(cls)
    ctx.ev("tests")
    ctx.ev("passing")
    ctx.ev("octets", len(octets))
    ctx.seen("spi", pol, pha, msb, len(octets))
    ctx.check(res.wasSuccessful(), "spi", f"{[t[-300:] for _, t in res.errors + res.failures]}")
    ctx.eq(result["cs"], 0, "spi", "chip select after an exchange")
    ctx.eq(result["count"], total, "spi", "bits the device received")
    ctx.eq(result["got"], int("".join(f"{x:08b}" for x in order(octets)), 2), "spi", "bits the device received")
    ctx.eq(result["answer"], answer, "spi", "octets read from the device")
    ctx.sample = dict(case=c, octets=octets)


def signed_case(c, ctx):
    """The level checks on signals that can be negative."""
    from amaranth import Module, Elaboratable, Signal, signed
    from amlib.test.utils import GatewareTestCase, sync_test_case

    class Dut(Elaboratable):
        def __init__(self):
            self.value = Signal(signed(8))
            self.other = Signal()

        def elaborate(self, platform):
            m = Module()
            m.d.sync += self.other.eq(self.value != 0)
            return m
    out = {}

    def p(self):
        for v in (-128, -2, -1, 0, 1, 127):
            yield self.dut.value.eq(v)
            yield
            yield
            for name, helper in (("zero", self.shouldBeZero), ("nonzero", self.shouldBeNonZero)):
                try:
                    yield from helper(self.dut.value)
                    out[name, v] = True
                except AssertionError:
                    out[name, v] = False
    run_tests(type("Signed", (GatewareTestCase,), dict(FRAGMENT_UNDER_TEST=Dut, test_one=sync_test_case(p))))
    ctx.eq({v: a for (n, v), a in out.items() if n == "zero"}, {v: v == 0 for v in (-128, -2, -1, 0, 1, 127)}, "helper", "signed values accepted as zero")
    ctx.eq({v: a for (n, v), a in out.items() if n == "nonzero" and v >= 0}, {v: v != 0 for v in (0, 1, 127)}, "helper", "signed values accepted as not zero")
    ctx.eq([a for (n, v), a in sorted(out.items()) if n == "nonzero" and v < 0], [True] * 3, "nonzero_signed", "acceptance of negative values as not zero")
