"""C51: building a module is repeatable, and instances are independent of each other and of the name of their clock domain."""
import contextlib
import hashlib
import io
import json
import os
import random
import subprocess
import sys

from ..bench import Bench
from . import zoo

RULE = ("A case is one module of the library in a random configuration and one circumstance: elaborated before (simulated, converted or both), beside a second instance of another configuration (and a third module), "
        "moved to another clock domain while the default one runs at its own pace, or several of these at once. Its outputs must be those of a single new instance in the default domain driven with the same inputs, cycle by cycle; "
        "netlists of the same configuration made twice from one instance, from two instances, and by two Python processes with different hash seeds must be the same text; the arguments it was made from must be unchanged.")
FLOORS = {"compared": 100000, "modules": 300, "active": 2000, "neighbours": 60, "netlists": 100, "arguments": 20}
ASSUMPTIONS = ["data outputs are compared while the module marks them valid, and otherwise too where no validity signal belongs to them"]
KINDS = ["again", "beside", "domain", "all"]


def cases(tier, rng):
    n = 2 if tier == "quick" else 16
    l = [dict(module=m, kind=k, seed2=rng.getrandbits(32)) for _ in range(n) for m in zoo.NAMES for k in KINDS]
    l += [dict(kind="netlist", modules=zoo.NAMES[i::8], seed2=rng.getrandbits(32), hashseeds=[0, rng.randrange(1, 4000000000)]) for _ in range(1 if tier == "quick" else 6) for i in range(8)]
    return l


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def snapshot(args):
    def s(x):
        if isinstance(x, (list, tuple)):
            return (type(x).__name__, [s(y) for y in x])
        if hasattr(x, "tobytes"):
            return (str(x.shape), str(x.dtype), x.tobytes().hex())
        if isinstance(x, (bytes, bytearray, int, str, dict)):
            return repr(x)
        return id(x)
    return [s(a) for a in args]


def netlist(mod):
    from amaranth.back import rtlil
    ports, seen = [], set()
    for s in [s for s, _, _ in mod.ins.values()] + [s for s, *_ in mod.outs.values()]:
        if id(s) not in seen:
            seen.add(id(s))
            ports.append(s)
    with quiet():
        return rtlil.convert(mod.dut, ports=ports, name="top", emit_src=False)


class Driven:
    def __init__(self, bench, mod, seed):
        self.mod = mod
        self.stim = zoo.Stimulus(mod, random.Random(seed))
        self.ins = {n: bench.port(s) for n, (s, _, _) in mod.ins.items()}
        self.outs = [(n, bench.port(s), None if v is None else bench.port(v), low) for n, (s, v, low) in mod.outs.items()]
        self.vals = self.stim.idle()

    def drive(self):
        for n, v in self.vals.items():
            self.ins[n].set(v)

    def next(self):
        self.vals = self.stim.next()

    def look(self):
        return [None if v is not None and bool(v.get()) == low else p.get() for _, p, v, low in self.outs]


def run_case(c, ctx):
    if c["kind"] == "netlist":
        return netlists(c, ctx)
    from amaranth import ClockDomain, DomainRenamer, Fragment, Module, Signal
    rng = ctx.rng
    name, kind = c["module"], c["kind"]
    stim_seed = rng.getrandbits(32)
    many = kind == "all"

    others = []                 # (module, built before?)
    if kind == "beside" or many:
        others.append((name, rng.random() < .5))
        if rng.random() < .5:
            others.append((rng.choice(zoo.NAMES), rng.random() < .5))
    before = [zoo.build(n, random.Random(rng.getrandbits(32))) for n, b in others if b]
    mod = zoo.build(name, random.Random(c["seed2"]))
    args = snapshot(mod.args)
    after = [zoo.build(n, random.Random(rng.getrandbits(32))) for n, b in others if not b]
    neighbours = before + after
    if kind == "again" or many:
        how = rng.choice(["fragment", "netlist", "simulation", "netlist+fragment"])
        with quiet():
            if "netlist" in how:
                netlist(mod)
            if "fragment" in how:
                Fragment.get(mod.dut, None)
            if how == "simulation":
                b = Bench(mod.dut)
                d = Driven(b, mod, 5)
                for _ in range(30):
                    d.drive()
                    b.tick()
                    d.next()
    domain = "other" if kind == "domain" or many else "sync"
    top = Module()
    subs = [(m, rng.choice(["sync", "other"]) if many else "sync") for m in neighbours] + [(mod, domain)]
    if rng.random() < .5:
        subs.reverse()
    idle = Signal(4)
    for m, d in subs:
        top.submodules += m.dut if d == "sync" else DomainRenamer({"sync": d})(m.dut)
    top.d.sync += idle.eq(idle + 1)
    if many or domain == "other":
        idle2 = Signal(4)
        top.d.other += idle2.eq(idle2 + 1)
        top.domains += ClockDomain("other")
    with quiet():
        b = Bench(top, ("sync", "other"))
        driven = [(Driven(b, m, stim_seed if m is mod else rng.getrandbits(32)), d) for m, d in subs]
        ref = zoo.build(name, random.Random(c["seed2"]))
        f = Bench(ref.dut)
    r = Driven(f, ref, stim_seed)
    me = next(x for x, _ in driven if x.mod is mod)
    ctx.ev("modules")
    ctx.ev("neighbours", len(neighbours))
    last = None
    for t in range(rng.choice([300, 700])):
        for x, _ in driven:
            x.drive()
        r.drive()
        b.settle()
        f.settle()
        got, want = me.look(), r.look()
        ctx.ev("compared", len(got))
        if got != last:
            ctx.ev("active")
        last = got
        if got != want:
            bad = [(n, p, q) for (n, *_), p, q in zip(me.outs, got, want) if p != q]
            ctx.fail(kind, f"{name} ({kind}; neighbours: {[n for n, _ in others]}), cycle {t}: (output, value, value of a new instance alone): {bad}")
        if "other" in b.clk:
            spread = [["other"], ["sync"], ["sync", "other"]]
            # the other domain may tick any number of times between two ticks of the module's own
            for _ in range(rng.choice([0, 0, 1, 3])):
                dom = "sync" if domain == "other" else "other"
                b.tick(dom)
                for x, d in driven:
                    if d == dom:
                        x.next()
                        x.drive()
            doms = rng.choice([s for s in spread if domain in s])
        else:
            doms = ["sync"]
        b.tick(*doms)
        f.tick()
        for x, d in driven:
            if d in doms:
                x.next()
        r.next()
    if args:
        ctx.ev("arguments")
        ctx.eq(snapshot(mod.args), args, "arguments", f"{name}: its arguments were changed")
    ctx.seen(name, kind)
    ctx.sample = dict(case=c)


CHILD = """
import sys, json, random, hashlib, warnings
warnings.simplefilter("ignore")
sys.path[:0] = json.loads(sys.argv[1])
from harness.checks import zoo, c51
for n in json.loads(sys.argv[2]):
    print("NETLIST", n, hashlib.sha1(c51.netlist(zoo.build(n, random.Random(int(sys.argv[3])))).encode()).hexdigest())
"""


def netlists(c, ctx):
    import warnings
    mine = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for n in c["modules"]:
            mod = zoo.build(n, random.Random(c["seed2"]))
            args = snapshot(mod.args)
            a = netlist(mod)
            ctx.ev("netlists", 3)
            ctx.check(netlist(zoo.build(n, random.Random(c["seed2"]))) == a, "netlist", f"{n}: two instances of the same configuration give different netlists")
            ctx.check(netlist(mod) == a, "netlist", f"{n}: the same instance gives a different netlist the second time")
            ctx.eq(snapshot(mod.args), args, "arguments", f"{n}: its arguments were changed")
            mine[n] = hashlib.sha1(a.encode()).hexdigest()
            ctx.seen("netlist", mine[n])
    for h in c["hashseeds"]:
        out = subprocess.run([sys.executable, "-B", "-c", CHILD, json.dumps(sys.path), json.dumps(c["modules"]), str(c["seed2"])], capture_output=True, text=True,
                             env={**os.environ, "PYTHONHASHSEED": str(h)}, timeout=600)
        got = dict(l.split()[1:] for l in out.stdout.splitlines() if l.startswith("NETLIST"))
        if out.returncode:
            raise RuntimeError(out.stderr[-500:])
        ctx.ev("netlists", len(got))
        for n, v in mine.items():
            ctx.eq(got.get(n), v, "netlist", f"{n}: the netlist made by another Python process (hash seed {h}) is different")
    ctx.sample = dict(case=c)
