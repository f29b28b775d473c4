"""C49: system on chip - everything is where the memory map, the C header and the linker script say, and interrupts have the numbers they state."""
import io
import logging
import os
import re
import shutil
import subprocess
import tempfile

from ..bench import Bench

RULE = ("A case is a system assembled from random ROMs, RAMs, UARTs and custom peripherals at random or automatic addresses; both processor busses access memories, registers and unmapped addresses at random while interrupt lines "
        "toggle, judged against a model that knows only what was added and the reported ranges; the generated C header is compiled and its functions executed against simulated registers, and the linker script is read. "
        "A situation is (kind of target, bus, access, offset) or (register width, access, function).")
FLOORS = {"systems": 40, "memory_reads": 500, "memory_writes": 500, "register_writes": 150, "register_reads": 150, "unmapped": 200, "irq_checks": 2000, "c_reads": 150, "c_writes": 120, "c_irqs": 40, "regions": 8, "macros": 300,
          "bios": 12, "logged": 200, "jtag": 400}
ASSUMPTIONS = ["the processor, interrupt controller, bus and register classes of minerva, lambdasoc and amaranth_soc are functional stand-ins: the test bench takes the place of the processor",
               "the header is compiled for the build machine, with stand-ins for the processor's control registers and memory mapped at the addresses of the registers"]


def cases(tier, rng):
    n = 1 if tier == "quick" else 10
    out = []
    for i in range(80 * n):
        items = [rng.choice(["ram", "rom", "ram2", "rom2", "gadget", "gadget", "gadget", "uart", "silent"]) for _ in range(rng.randint(1, 6) if i % 10 else rng.choice([9, 12, 16, 17, 20]))]
        if i % 27 == 5:
            items = ["gadget"] * rng.choice([18, 24, 29, 30])      # up to 32 interrupts
        elif i % 8 in (3, 6):
            items += [rng.choice(["ram", "rom"]) for _ in range(5)]
            rng.shuffle(items)
        bios = rng.choice([None, None, "fixed", "auto"])
        if bios:
            # its serial port has the name of a UART peripheral
            items = [i for i in items if i != "uart"]
            items.insert(rng.randint(0, len(items)), "bios")
        out.append(dict(items=items, ops=90, dup=i % 8 in (3, 6), macro=rng.choice([None, "BOARD_X"]), low=bios != "fixed" and rng.random() < .3, bios=bios, debug=rng.choice([None, None, "cpu", "port"])))
    return out


def run_case(c, ctx):
    from amaranth import Fragment, Module, Elaboratable
    from amlib.soc.simplesoc import SimpleSoC
    from amlib.soc.memory import WishboneRAM, WishboneROM
    from amlib.soc.peripheral import Peripheral
    from amlib.soc.uart import UARTPeripheral
    rng = ctx.rng
    soc_kw = dict(rng.choice([{}, dict(clock_frequency=48000000)]))
    if rng.random() < .1:
        soc_kw["build_bios"] = True
    if c["debug"]:
        soc_kw["with_debug"] = True
    soc = SimpleSoC(**soc_kw)
    if c["debug"] == "port":
        soc.add_debug_port()

    class Gadget(Peripheral, Elaboratable):
        def __init__(self, name, events):
            super().__init__(name=name)
            bank = self.csr_bank(**rng.choice([{}, {}, {}, dict(alignment=0), dict(alignment=1)]))
            self.regs = []
            for j in range(rng.randint(1, 5)):
                width, access, al = rng.choice([1, 8, 8, 12, 16, 24, 32, 32, 40]), rng.choice(["r", "w", "rw"]), rng.choice([None, None, 0, 1])
                self.regs.append((f"{name}_q{j}", width, access, bank.csr(width, access, name=f"q{j}", **({} if al is None else dict(alignment=al)))))
            self.evs = [self.event(mode="level", name=f"{name}_e{k}") for k in range(events)]
            self._bridge = self.bridge(data_width=32, granularity=8, alignment=2)
            self.bus = self._bridge.bus
            if events:
                self.irq = self._bridge.irq

        def elaborate(self, platform):
            m = Module()
            m.submodules.bridge = self._bridge
            return m
    # assemble: addresses are automatic or multiples of 64 KiB well apart
    outside = []                   # peripherals instantiated next to the system, not in it

    def elsewhere(o):
        if rng.random() < .15:
            outside.append(o)
            return dict(as_submodule=False)
        return rng.choice([{}, dict(as_submodule=True)])
    things, irqs = [], []          # (kind, object, requested address, shadow memory)
    slot = 0 if c["low"] else 0x1000
    main = dict(rom=None, ram=None)
    for k, kind in enumerate(c["items"]):
        slot += rng.randint(1, 40) if k or not c["low"] else 0
        addr = slot << 16 if rng.random() < .6 or k == 0 else None
        kw = {} if addr is None else dict(addr=addr)
        size = rng.choice([8, 9, 16, 17, 64, 65, 100, 256, 257, 1000, 4096])
        full = 1 << (size - 1).bit_length()
        if kind == "bios":
            add_bios(c, ctx, soc, soc_kw, things, irqs)
            continue
        if kind == "ram":
            main_kw = rng.choice([{}, {}, dict(is_main_mem=False)])
            if any(t[0] == "ram" for t in things) and not c["dup"]:
                continue           # two memories of the same name would have the same macros
            o = soc.add_ram(size, **kw, **main_kw)
            if main["ram"] is None and main_kw.get("is_main_mem", True):
                main["ram"] = o
            things.append(("ram", o, addr, [0] * (full // 4)))
        elif kind == "rom":
            if any(t[0] == "rom" for t in things) and not c["dup"]:
                continue
            if addr is None:
                addr = slot << 16
                kw = dict(addr=addr)
            if k == 0 and c["low"] and rng.random() < .5 and addr == 0:
                kw = {}            # at zero unless an address is given
            data = bytes(rng.getrandbits(8) for _ in range(rng.randint(0, full // 4) * 4))
            main_kw = rng.choice([{}, {}, dict(is_main_rom=False)])
            o = soc.add_rom(data, size, **kw, **main_kw)
            if main["rom"] is None and main_kw.get("is_main_rom", True):
                main["rom"] = o
            words = [int.from_bytes(data[i:i + 4], "little") for i in range(0, len(data), 4)]
            things.append(("rom", o, addr, words + [0] * (full // 4 - len(words))))
        elif kind in ("ram2", "rom2"):
            aw = rng.choice([4, 6, 10])
            words = [rng.getrandbits(32) for _ in range(1 << aw - 2)]
            if kind == "ram2":
                o = WishboneRAM(addr_width=aw, init=list(words), name=f"extra{k}")
            else:
                o = WishboneROM(list(words), addr_width=aw, name=f"extra{k}")
            got = soc.add_peripheral(o, **kw, **elsewhere(o))
            ctx.check(got is o, "return", "the peripheral added is not returned")
            things.append((kind[:3], o, addr, words))
        else:
            if kind == "uart":
                if any(t[0] == "uart" for t in things):
                    continue       # the name of a UART is that of the variable it is assigned to
                uart = UARTPeripheral(divisor=rng.choice([10, 100, 70000]), rx_depth=2, tx_depth=2)
                o, ev = uart, True
            else:
                ev = 0 if kind == "silent" else rng.randint(1, 3)
                if len(irqs) >= 32 or c["items"].count("gadget") > 17 and kind == "gadget":
                    ev = 1 if len(irqs) < 32 else 0
                o = Gadget(f"g{k}", ev)
            got = soc.add_peripheral(o, **kw, **elsewhere(o))
            ctx.check(got is o, "return", "the peripheral added is not returned")
            if ev:
                irqs.append(o)
            things.append((kind if kind == "uart" else "gadget", o, addr, None))
    # ------------------------------------------------ the reported ranges
    info = []                      # (thing number, name, start, end, resource)
    amap = list(soc.memory_map.all_resources())
    spans = sorted((r.start, r.end) for r in amap)
    ctx.check(all(a[1] <= b_[0] for a, b_ in zip(spans, spans[1:])), "overlap", "ranges overlap")
    hidden = [o._mem for kind, o, *_ in things if hasattr(o, "_mem")]
    for kw, omitted in (({}, hidden), (dict(omit_bios_mem=True), hidden), (dict(omit_bios_mem=False), [])):
        listed = [(id(getattr(r, "resource", r)), a, s) for r, a, s in soc.resources(**kw)]
        ctx.eq(sorted(listed), sorted((id(r.resource), r.start, r.end - r.start) for r in amap if not any(r.resource is h for h in omitted)), "resources", f"resources listed ({kw})")
    base = {}
    for i, (kind, o, addr, shadow) in enumerate(things):
        if shadow is not None:
            hit = [r for r in amap if r.resource is getattr(o, "_mem", o)]
            ctx.eq(len(hit), 1, "map", "a memory in the memory map")
            base[i] = hit[0].start
            ctx.eq(hit[0].end - hit[0].start, 4 * len(shadow), "size", f"size of a {kind}")
        else:
            base[i] = min(w[1][0] for w in [(w, r) for w, r in soc.memory_map.windows()] if w[0] is o.bus.memory_map)
        if addr is not None:
            ctx.eq(base[i], addr, "address", f"address of a {kind}")
    if main["ram"] is not None:
        ctx.eq(soc.main_ram_address(), base[[t[1] for t in things].index(main["ram"])], "main", "address of the main RAM")
    log(ctx, soc, amap, irqs, base[[t[1] for t in things].index(main["ram"])] if c["bios"] and main["ram"] is not None else None)
    builds(ctx, soc, bool(c["bios"] or soc_kw.get("build_bios")))
    # ------------------------------------------------ the busses
    platform = Platform()
    top = Module()
    top.submodules.soc = soc
    top.submodules += outside
    b = Bench(Fragment.get(top, platform))
    ctx.ev("outside", len(outside))
    debug(c, ctx, soc, platform, b)
    masters = []
    for bus in (soc.cpu.ibus, soc.cpu.dbus):
        masters.append({x: b.port(getattr(bus, x)) for x in ("adr", "dat_w", "dat_r", "sel", "cyc", "stb", "we", "ack")})
    IP = b.port(soc.cpu.ip)
    gadgets = [o for kind, o, *_ in things if kind == "gadget"]
    REG = {}
    for o in [o for _, o, *_ in things if hasattr(o, "regs")]:
        for name, width, access, e in o.regs:
            REG[name] = (o, width, access, b.port(e.r_data) if "r" in access else None, b.port(e.w_data) if "w" in access else None, b.port(e.w_stb) if "w" in access else None)
    for kind, o, *_ in things:
        if isinstance(o, UARTPeripheral):
            b.set(o.rx, 1)
        elif kind == "standin":
            o.evs = []
    IRQ = [b.port(o.irq) for o in irqs]
    writes = []

    def cycle():
        b.settle()
        for name, (o, width, access, rd, wd, ws) in REG.items():
            if ws is not None and ws.get():
                writes.append((name, wd.bits()))
        ctx.eq(IP.get(), sum(p.get() << i for i, p in enumerate(IRQ)), "irq", f"interrupt lines of the processor, {len(IRQ)} sources")
        ctx.ev("irq_checks")
        b.tick("sync")

    def access(addr, we, val, sel):
        m = rng.choice(masters)
        m["adr"].set(addr // 4); m["we"].set(we); m["dat_w"].set(val); m["sel"].set(sel); m["cyc"].set(1); m["stb"].set(1)
        got = None
        for _ in range(14):
            b.settle()
            if m["ack"].get():
                got = m["dat_r"].bits()
                break
            cycle()
        cycle()
        m["cyc"].set(0); m["stb"].set(0)
        cycle()
        return got
    by_name = {r.name[-1]: r for r in amap}
    enabled = {}
    for _ in range(c["ops"]):
        k = rng.random()
        if k < .08:
            a = rng.getrandbits(30) * 4
            if any(s - 4096 <= a < e + 4096 for s, e in spans):
                continue
            del writes[:]
            ctx.eq((access(a, rng.getrandbits(1), rng.getrandbits(32), 15), writes), (None, []), "unmapped", f"answer to an access at {a:#x}, where there is nothing")
            ctx.ev("unmapped")
            continue
        i = rng.randrange(len(things))
        kind, o, addr, shadow = things[i]
        we = rng.getrandbits(1)
        if shadow is not None:
            w = rng.choice([0, len(shadow) - 1, rng.randrange(len(shadow)), rng.randrange(min(4, len(shadow)))])
            val, sel = rng.getrandbits(32), rng.choice([15, 15, rng.getrandbits(4)])
            got = access(base[i] + 4 * w, we, val, sel)
            ctx.check(got is not None, "ack", f"no answer from the {kind} at {base[i] + 4 * w:#x}")
            if not we:
                ctx.eq(got, shadow[w], "memory", f"word {w} of the {kind} at {base[i]:#x}")
                ctx.ev("memory_reads")
            else:
                if kind == "ram":
                    mask = sum(255 << 8 * j for j in range(4) if sel >> j & 1)
                    shadow[w] = shadow[w] & ~mask | val & mask
                ctx.ev("memory_writes")
            ctx.seen(kind, we, w, sel)
        elif kind in ("gadget", "standin"):
            if kind == "standin" and rng.random() < .5:
                b.set(o.irq, rng.getrandbits(1))
                cycle()
                continue
            if o.evs and rng.random() < .5:
                r = by_name[f"{o.name}_ev_enable"]
                v = rng.getrandbits(len(o.evs))
                access(r.start, 1, v, 15)
                ctx.eq(access(r.start, 0, 0, 15), v, "events", "event enable register read back")
                for e in o.evs:
                    b.set(e.stb, rng.getrandbits(1))
                cycle()
                continue
            name, width, acc, e = rng.choice(o.regs)
            r = by_name[name]
            if r.start // 4 != (r.end - 1) // 4:
                continue
            n = r.end - r.start
            sh = r.start % 4
            sel = (1 << n) - 1 << sh
            v = rng.getrandbits(width)
            del writes[:]
            if we and "w" in acc:
                access(r.start, 1, v << 8 * sh, sel)
                ctx.eq(writes, [(name, v)], "register", "register writes")
                ctx.ev("register_writes")
            elif not we and "r" in acc:
                REG[name][3].set(v)
                got = access(r.start, 0, 0, sel)
                ctx.eq(None if got is None else got >> 8 * sh & (1 << 8 * n) - 1, v, "register", f"{name} read at {r.start:#x}")
                ctx.ev("register_reads")
            ctx.seen("register", width, acc, sh, we)
    # ------------------------------------------------ linker script
    f = io.StringIO()
    soc.generate_ld_script(file=f)
    got = {m[0]: (int(m[1], 0), int(m[2], 0)) for m in re.findall(r"(\w+)\s*:\s*ORIGIN\s*=\s*(\w+)\s*,\s*LENGTH\s*=\s*(\w+)", f.getvalue())}
    want = {k: (base[i], 4 * len(things[i][3])) for k in main for i, t in enumerate(things) if t[1] is main[k]}
    ctx.eq(got, want, "linker", "regions of the linker script (origin, length)")
    ctx.ev("regions", len(got))
    if not c["dup"]:
        header(c, ctx, soc, amap, things, irqs, REG)
    ctx.ev("systems")
    ctx.sample = dict(case=c, map=[("_".join(r.name), hex(r.start), r.end - r.start) for r in amap][:12], interrupts=[o.name for o in irqs])


class Platform:
    def __init__(self):
        self.pins = {}

    def request(self, name, number=0, dir="io", **kw):
        from amaranth import Record
        if (name, number) in self.pins:
            raise ValueError(f"{name} {number} has been requested already")
        pin = Record([(x, 1) for x in {"i": "i", "o": "o", "io": "io", "oe": "o"}[dir]], name=f"{name}{number}_")
        self.pins[name, number] = pin
        return pin


def debug(c, ctx, soc, platform, b):
    """The debug port connects the JTAG lines of the processor, through synchronisers, to the user pins."""
    rng = ctx.rng
    ctx.eq(sorted(platform.pins), [("user_io", i) for i in range(4)] if c["debug"] == "port" else [], "debug", "pins used")
    if c["debug"] != "port":
        return
    jtag = soc.cpu._cpu.jtag
    ins = [(b.port(platform.pins["user_io", i].i), b.port(jtag[n])) for i, n in enumerate(("tck", "tms", "tdi"))]
    out = b.port(jtag.tdo), b.port(platform.pins["user_io", 3].o)
    history = [[0, 0] for _ in ins]
    for _ in range(60):
        for (pin, _), h in zip(ins, history):
            if rng.random() < .3:
                pin.set(rng.getrandbits(1))
        out[0].set(rng.getrandbits(1))
        b.settle()
        for n, (pin, line), h in zip(("tck", "tms", "tdi"), ins, history):
            ctx.eq(line.get(), h[0], "debug", f"{n}, two cycles after the pin")
            h.append(pin.get())
            del h[0]
        ctx.eq(out[1].get(), out[0].get(), "debug", "pin of tdo")
        ctx.ev("jtag")
        b.tick()


def add_bios(c, ctx, soc, soc_kw, things, irqs):
    rng = ctx.rng
    freq = soc_kw.get("clock_frequency", 60000000)
    kw = dict(sync_clk_freq=freq) if freq != 60000000 and rng.random() < .5 else {}
    baud = rng.choice([None, 9600, 115200, 1000000])
    if baud:
        kw["uart_baud_rate"] = baud
    if c["bios"] == "fixed":
        kw["fixed_addresses"] = True
    elif rng.random() < .5:
        kw["fixed_addresses"] = False
    pins = object()
    soc.add_bios_and_peripherals(pins, **kw)
    ctx.eq((soc.uart.core.pins is pins, soc.uart.core.divisor), (True, freq // (baud or 115200)), "bios", "(pins, divisor) of the BIOS' serial port")
    ctx.eq((soc.bootrom.writable, soc.scratchpad.writable), (False, True), "bios", "writable BIOS memories")
    words = [rng.getrandbits(32) for _ in range(0x1000)]
    soc.bootrom.init = list(words)
    scratch = [rng.getrandbits(32) for _ in range(0x400)]
    soc.scratchpad.init = list(scratch)
    fixed = c["bios"] == "fixed"
    things += [("rom", soc.bootrom, 0 if fixed else None, words), ("ram", soc.scratchpad, 0x10000 if fixed else None, scratch),
               ("standin", soc.timer, 0x20000 if fixed else None, None), ("standin", soc.uart, 0x30000 if fixed else None, None)]
    irqs += [soc.timer, soc.uart]
    ctx.ev("bios")


def log(ctx, soc, amap, irqs, main):
    """The log names every resource with its range, every interrupt with its number, and where to load a program."""
    records = []

    class Handler(logging.Handler):
        def emit(self, record):
            records.append(record.getMessage())
    root, h = logging.getLogger(), Handler()
    level, handlers = root.level, root.handlers[:]
    root.handlers[:] = [h]
    root.setLevel(logging.INFO)
    try:
        soc.log_resources()
    finally:
        root.handlers[:] = handlers
        root.setLevel(level)
    for r in amap:
        ctx.check(any(f"{r.start:x}" in line and f"{r.end:x}" in line and all(n in line for n in r.name) for line in records), "log", f"{r.name} at {r.start:#x} is not in the log")
        ctx.ev("logged")
    for i, o in enumerate(irqs):
        ctx.check(any(re.match(rf"\W*{i}\W+{o.name}\W*$", line) for line in records), "log", f"interrupt {i} of {o.name} is not in the log")
    if main is not None:
        ctx.check(any(f"0x{main:08x}" in line for line in records), "log", f"the main memory at {main:#x} is not in the log")


def builds(ctx, soc, bios):
    """Building the system builds the BIOS, below the directory given, exactly if there is one."""
    d = tempfile.mkdtemp(prefix="c49")
    try:
        soc.build(name="board", build_dir=os.path.join(d, "out"))
        made = getattr(soc, "built", [])
        ctx.eq(len(made), int(bios), "build", "BIOS builds")
        if bios:
            kw = made[0][1]
            ctx.eq((kw.get("name"), kw.get("do_build"), str(kw.get("build_dir")).startswith(os.path.join(d, "out"))), ("board", True, True), "build", "(name, to be built, below the build directory) of the BIOS")
    finally:
        shutil.rmtree(d)


PRELUDE = r'''
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sys/mman.h>
static unsigned long csr_mstatus, csr_330, csr_360;
static unsigned long *which(const char *n) {
    if (!strcmp(n, "mstatus")) return &csr_mstatus;
    if (!strcmp(n, "0x330")) return &csr_330;
    if (!strcmp(n, "0x360")) return &csr_360;
    printf("unknown csr %s\n", n); exit(9);
}
#define read_csr(reg) (*which(#reg))
#define write_csr(reg, val) (*which(#reg) = (val))
#define set_csr(reg, bit) (*which(#reg) |= (bit))
#define clear_csr(reg, bit) (*which(#reg) &= ~(unsigned long)(bit))
#include "soc.h"
static void map(uintptr_t a) {
    a &= ~0xfffUL;
    void *p = mmap((void *)a, 0x2000, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) { p = mmap((void *)a, 0x1000, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); }
}
static void dump(const char *what, uintptr_t a) {
    printf("%s", what);
    for (int i = -8; i < 16; i++) printf(" %02x", ((volatile uint8_t *)a)[i]);
    printf("\n");
}
static void fill(uintptr_t a) { for (int i = -8; i < 16; i++) ((volatile uint8_t *)a)[i] = 0xa0 + i + 8; }
int main(void) {
'''


def header(c, ctx, soc, amap, things, irqs, REG):
    rng = ctx.rng
    f = io.StringIO()
    kw = {} if c["macro"] is None else dict(macro_name=c["macro"])
    kw.update(rng.choice([{}, dict(platform_name="Test Board 7")]))
    soc.generate_c_header(file=f, **kw)
    code = PRELUDE
    want = []

    def out(line, expect):
        nonlocal code
        code += line + "\n"
        want.append(expect)
    out('printf("%s\\n", PLATFORM_NAME);', kw.get("platform_name", "Generic Platform"))
    out(f'#ifdef __{c["macro"] or "SOC_RESOURCES"}_H__\nputs("guarded");\n#endif', "guarded")
    for r in amap:
        name = "_".join(r.name)
        size = r.end - r.start
        out(f'printf("%lx %d\\n", (unsigned long){name.upper()}_ADDRESS, (int){name.upper()}_SIZE);', f"{r.start:x} {size}")
        ctx.ev("macros")
        acc = getattr(r.resource, "access", None)
        if acc is None or r.start < 0x10010:
            continue
        if size not in (1, 2, 4) and not any(f"{name}_{x}(" in f.getvalue() for x in ("read", "write")):
            ctx.ev("odd_sizes")
            continue
        if size > 8:
            continue
        a = f"0x{r.start:x}UL"
        before = [0xa0 + i for i in range(24)]
        hexs = lambda l: " " + " ".join(f"{x:02x}" for x in l)
        out(f'map({a} - 8); map({a} + 16); fill({a}); puts("");', "")
        if acc.readable():
            out(f'printf("%lx %d\\n", (unsigned long){name}_read(), (int)sizeof({name}_read()));', f"{int.from_bytes(bytes(before[8:8 + size]), 'little'):x} {size}")
            ctx.ev("c_reads")
        if acc.writable():
            v = rng.getrandbits(8 * size)
            after = before[:8] + list(v.to_bytes(size, "little")) + before[8 + size:]
            out(f'{name}_write(0x{v:x}U); dump("w", {a});', "w" + hexs(after))
            ctx.ev("c_writes")
        ctx.seen("C", size, acc.value, r.start % 4)
    for i, o in enumerate(irqs):
        n = o.name
        p, m = rng.getrandbits(32), rng.getrandbits(32)
        out(f'csr_360 = 0x{p:x}UL; printf("%d", {n}_interrupt_pending()); csr_360 = 0x{1 << i:x}UL; printf("%d", {n}_interrupt_pending()); csr_360 = 0x{0xffffffff ^ 1 << i:x}UL; printf("%d\\n", {n}_interrupt_pending());',
            f"{p >> i & 1}10")
        out(f'csr_330 = 0x{m:x}UL; {n}_interrupt_enable(); printf("%lx\\n", csr_330 & 0xffffffffUL);', f"{m | 1 << i:x}")
        out(f'csr_330 = 0x{m:x}UL; {n}_interrupt_disable(); printf("%lx\\n", csr_330 & 0xffffffffUL);', f"{m & ~(1 << i):x}")
        ctx.ev("c_irqs")
    s = rng.getrandbits(16)
    out(f'csr_mstatus = 0x{s:x}; irq_setie(1); printf("%lx %d", csr_mstatus, (int)irq_getie()); irq_setie(0); printf(" %lx %d\\n", csr_mstatus, (int)irq_getie());', f"{s | 8:x} 1 {s & ~8:x} 0")
    code += "return 0; }\n"
    d = tempfile.mkdtemp(prefix="c49")
    try:
        with open(os.path.join(d, "soc.h"), "w") as h:
            h.write(f.getvalue())
        with open(os.path.join(d, "t.c"), "w") as h:
            h.write(code)
        r = subprocess.run(["gcc", "-std=gnu11", "-w", "-O0", "-o", os.path.join(d, "t"), os.path.join(d, "t.c")], capture_output=True, text=True, cwd=d)
        ctx.check(r.returncode == 0, "header", "the C header cannot be used: " + r.stderr[:600])
        r = subprocess.run([os.path.join(d, "t")], capture_output=True, text=True, cwd=d, timeout=60)
        got = r.stdout.split("\n")[:-1]
        for g, w in zip(got, want):
            ctx.eq(g, w, "header", "result of a program using the C header")
        ctx.eq((r.returncode, len(got)), (0, len(want)), "header", "end of a program using the C header")
    finally:
        shutil.rmtree(d)
