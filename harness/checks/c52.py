"""C52: reset - after a reset, nothing that happened before can be observed."""
import random

from ..bench import Bench
from . import zoo

RULE = ("A case is one module of the library in a random configuration. It is driven with random inputs for a random time (or until an output changes), reset for four to eight cycles with its inputs idle, and then driven "
        "with a second random sequence; its outputs must be those of a new instance, reset in the same way at the start, driven with that sequence alone, cycle by cycle (data only while it is marked valid). A situation is (module, outputs at the moment of the reset).")
FLOORS = {"compared": 100000, "modules": 200, "active": 3000, "resets": 400}
ASSUMPTIONS = ["contents of memories survive a reset (colours of the LED strip, samples of the convolver, RAM words, FFT windows): outputs that show them are left out",
               "the reset lasts at least four cycles with the inputs at rest, so that input synchronisers and delay lines (which have no reset) have settled"]
SKIP = ("bus_mux", "nibble", "stream_mux")          # purely combinational
SLOW = {"debouncer": 500}          # modules with long time constants: everything takes that much longer
FIXED = {"fft": ("wf_start", "wf_strobe")}
STICKY = {"ila_spi": ("spi.sdo",), "ws2812": ("data_out",), "convolver": ("signal_out.payload",)}


def cases(tier, rng):
    n = 5 if tier == "quick" else 60
    return [dict(module=m, seed2=rng.getrandbits(32), k=k) for k in range(n) for m in zoo.NAMES if m not in SKIP]


def bench(name, seed):
    mod = zoo.build(name, random.Random(seed))
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        b = Bench(mod.dut)
    for n in FIXED.get(name, ()):
        mod.ins[n] = (mod.ins[n][0], 0, [0])
    ins = {n: b.port(s) for n, (s, _, _) in mod.ins.items()}
    outs = [(n, b.port(s), None if v is None else b.port(v), low) for n, (s, v, low) in mod.outs.items() if n not in STICKY.get(name, ())]
    return mod, b, ins, outs


def apply(ins, vals):
    for n, v in vals.items():
        ins[n].set(v)


def look(outs):
    return [None if v is not None and bool(v.get()) == low else p.get() for _, p, v, low in outs]


def reference(name, seed, stim_seed, length, cycles, scale):
    """What a new instance, reset at the start, shows when driven with the stimulus."""
    mod, f, ins, outs = bench(name, seed)
    stim = zoo.Stimulus(mod, random.Random(stim_seed), scale)
    apply(ins, stim.idle())
    f.settle()
    f.rst["sync"].set(1)
    for _ in range(length):
        f.tick()
    f.rst["sync"].set(0)
    trace = []
    for _ in range(cycles):
        apply(ins, stim.next())
        f.settle()
        trace.append(look(outs))
        f.tick()
    return trace


def run_case(c, ctx):
    rng = ctx.rng
    name = c["module"]
    mod, b, ins, outs = bench(name, c["seed2"])
    scale = SLOW[name] if name in SLOW and c["k"] < 12 else 1
    stim = zoo.Stimulus(mod, rng, scale)
    apply(ins, stim.idle())
    rst = b.rst["sync"]
    ctx.ev("modules")
    refs = []
    for _ in range(3 if scale == 1 else 1):
        args = (rng.getrandbits(32), rng.choice([4, 4, 5, 8]), rng.choice([60, 100, 250]) if scale == 1 else 130 * scale)
        refs.append(args + (reference(name, c["seed2"], *args, scale),))
    for episode in range(12 if scale == 1 else 1):
        for _ in range(rng.choice([3, 20, 50, 100, 300]) if scale == 1 else scale * rng.choice([40, 70, 130])):
            apply(ins, stim.next())
            b.tick()
        if scale == 1 and rng.random() < .7:
            # the reset comes when something has just happened
            b.settle()
            before = look(outs)
            for _ in range(200):
                apply(ins, stim.next())
                b.tick()
                b.settle()
                if look(outs) != before:
                    break
            for _ in range(rng.choice([0, 0, 1, 2])):
                apply(ins, stim.next())
                b.tick()
        b.settle()
        ctx.seen(name, tuple(look(outs)))
        stim_seed, length, cycles, trace = rng.choice(refs)
        apply(ins, stim.idle())
        for _ in range(rng.choice([0, 0, 1, 8])):
            b.tick()
        rst.set(1)
        for _ in range(length):
            b.tick()
        rst.set(0)
        ctx.ev("resets")
        second = zoo.Stimulus(mod, random.Random(stim_seed), scale)
        last = None
        for t in range(cycles):
            apply(ins, second.next())
            b.settle()
            x, y = look(outs), trace[t]
            ctx.ev("compared", len(x))
            if x != last:
                ctx.ev("active")
            last = x
            if x != y:
                bad = [(n, p, q) for (n, *_), p, q in zip(outs, x, y) if p != q]
                ctx.fail("reset", f"{name}, cycle {t} after the reset: (output, value, value of a new instance): {bad}")
            b.tick()
    ctx.sample = dict(case=c)
