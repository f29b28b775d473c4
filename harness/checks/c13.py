"""C13: WS2812 driver - the waveform on the data line is exactly the colours of all LEDs between two reset gaps."""
from ..bench import Bench

RULE = ("A case is a driver (clock frequency, number of LEDs) whose colour memory is written randomly before and between frames (and "
        "during frames for LEDs not at the boundary); the line waveform is decoded by pulse width and compared. A situation is "
        "(LEDs, clock, LED position, colour class, frame number).")
FLOORS = {"ignored_starts": 1000, "frames": 150, "bits": 8000, "resets": 300, "writes_in_frame": 50, "writes_at_start": 50}


def cases(tier, rng):
    out = []
    for i in range(90 if tier == "quick" else 900):
        out.append(dict(leds=rng.choice([1, 2, 3, 3, 4, 5, 7, 8, 9, 16]), clk=rng.choice([8e6, 8e6, 10e6, 12e6, 16e6, 13.3e6, 25e6]), frames=3, limit=120))
    out.append(dict(leds=2, clk=100e6, frames=2, limit=200))
    out.append(dict(leds=33, clk=8e6, frames=2, limit=200))
    m = 1 if tier == "quick" else 8           # long histories
    out += [dict(leds=1, clk=8e6, frames=310, limit=300) for _ in range(m)]
    out += [dict(leds=rng.choice([2, 3]), clk=8e6, frames=60, limit=300) for _ in range(m)]
    m = 1 if tier == "quick" else 6           # large configurations
    out += [dict(leds=n, clk=8e6, frames=1, limit=600) for n in (100, 260) for _ in range(m)]
    return out


def run_case(c, ctx):
    from amlib.io.ws2812 import WS2812
    import contextlib, io
    rng = ctx.rng
    N = c["leds"]
    with contextlib.redirect_stdout(io.StringIO()):
        dut = WS2812(sys_clock_freq=c["clk"] if c["n"] % 2 else int(c["clk"]), no_leds=N)
        b = Bench(dut)
    R, G, B, A, W, OUT, ST, DN = (b.port(x) for x in (dut.red_in, dut.green_in, dut.blue_in, dut.led_address_in, dut.write_enable_in,
                                                      dut.data_out, dut.start_in, dut.done_out))
    bit = c["clk"] / 800e3
    reset = 50e-6 * c["clk"]
    mem = [(0, 0, 0)] * N
    alt = [None] * N

    def write(i, col):
        R.set(col[0]); G.set(col[1]); B.set(col[2]); A.set(i); W.set(1)

    def nowrite():
        W.set(0)
        R.set(rng.getrandbits(8)); G.set(rng.getrandbits(8)); B.set(rng.getrandbits(8)); A.set(rng.randrange(N))

    def colour():
        return tuple(rng.choice([0, 255, 1, 128, rng.getrandbits(8)]) for _ in range(3))

    for f in range(c["frames"]):
        # --- program
        for i in range(N):
            if f == 0 or rng.random() < .5:
                mem[i] = colour()
                write(i, mem[i])
                b.tick()
        nowrite()
        # write enable low must not change anything
        for _ in range(rng.choice([0, 1, 2, 30])):
            nowrite()
            b.tick()
            b.settle()
            ctx.check(not DN.get(), "done", "done without a frame")
        ST.set(1)
        if rng.random() < .3:                        # a colour written in the very cycle of the start
            i = rng.randrange(N)
            mem[i] = colour()
            write(i, mem[i])
            ctx.ev("writes_at_start")
        b.tick()
        again = rng.choice([0, 0, 1, .02, .3])       # starts during the frame have no effect
        ST.set(int(again == 1))
        done = 0
        runs = []              # (level, length)
        last = None
        t = 0
        limit = int((N * 24 + 4) * (bit + 2) + 2 * reset + 1000)
        live = [[(-99, m)] for m in mem]
        while True:
            # writes while the frame is on its way
            if rng.random() < .002:
                i, col = rng.randrange(N), colour()
                write(i, col)
                live[i].append((t, col))
                mem[i] = col
                ctx.ev("writes_in_frame")
            else:
                nowrite()
            if 0 < again < 1:
                ST.set(int(rng.random() < again))
                ctx.ev("ignored_starts", ST.get())
            b.settle()
            d = DN.get()
            o = OUT.get()
            if last is not None and last[0] == o:
                last[1] += 1
            else:
                last = [o, 1]
                runs.append(last)
            done += d
            if d:
                ST.set(0)
                nowrite()
                b.tick()
                break
            b.tick()
            t += 1
            ctx.check(t < limit, "stuck", "frame never completes")
        # --- decode
        if runs[0][0] == 1:
            ctx.check(runs[0][1] <= 2, "shape", "line high before the reset gap")
            runs.pop(0)
        ctx.check(runs[0][0] == 0 and runs[0][1] >= reset - 2, "reset", f"line low for {runs[0][1]} cycles before the frame, {reset:.0f} needed")
        ctx.check(runs[-1][0] == 0 and runs[-1][1] >= reset - 2, "reset", f"line low for {runs[-1][1]} cycles after the frame, {reset:.0f} needed")
        ctx.ev("resets", 2)
        pulses = runs[1:]
        ctx.eq(len(pulses), N * 24 * 2, "bits", "number of line phases in a frame")
        bits = []
        for k in range(N * 24):
            h, l = pulses[2 * k][1], pulses[2 * k + 1][1]
            if k < N * 24 - 1:
                p = h + l
                ctx.check(bit - 2 <= p <= bit + 2, "period", f"bit {k} lasts {p} cycles, nominal {bit:.1f}")
            v = h >= 0.48 * bit
            if v:
                ctx.check(0.5 * bit - 1 <= h <= 0.75 * bit + 1, "duty", f"a 1 is high for {h} of {bit:.1f} cycles")
            else:
                ctx.check(0.2 * bit - 1 <= h <= 0.4 * bit + 1, "duty", f"a 0 is high for {h} of {bit:.1f} cycles")
            bits.append(int(v))
            ctx.ev("bits")
        t_bit, acc = [], 0
        for lv, ln in runs:
            if lv:
                t_bit.append(acc)
            acc += ln
        for i in range(N):
            at = t_bit[24 * i]
            before = [x for x in live[i] if x[0] <= at - 5][-1:]
            live[i] = [x[1] for x in before] + [x[1] for x in live[i] if at - 5 < x[0] <= at + 3]
            w = bits[24 * i:24 * i + 24]
            val = int("".join(map(str, w)), 2)
            got = (val >> 8 & 255, val >> 16, val & 255)
            ctx.check(got in live[i], "colour", f"LED {i} of {N} shows (r,g,b)={got}, written {live[i]}", frame=f)
            ctx.seen(N, c["clk"], i, f, sum(x in (0, 255) for x in got))
        ctx.ev("frames")
        # done is a single strobe; nothing restarts by itself
        for _ in range(rng.randint(2, 40)):
            nowrite()
            b.settle()
            ctx.check(not DN.get(), "done", "done lasts longer than one cycle")
            b.tick()
    ctx.sample = dict(case=c, last=mem[:3])
