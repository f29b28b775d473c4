"""C44: CRC models - values are the polynomial remainders they are defined as."""
import zlib

RULE = ("A case is a randomly parameterised or predefined CRC and a message of random bits, words and characters; its value - in one go, split into parts at random positions, and fed through the register - is compared "
        "with an independent long division of polynomials (zlib and published check values for the predefined ones). A situation is (width, bit orders, mask, message length).")
FLOORS = {"messages": 1500, "splits": 1000, "words": 1000, "predefined": 300, "inverses": 200, "zlib": 20}
CHECK = {"CRC5_USB": 0x19, "CRC8_SMBUS": 0xF4, "CRC15": 0x059E, "CRC16": 0xBB3D, "CRC16_USB": 0xB4C8, "CRC_CCITT": 0x29B1, "CRC_HDLC": 0x906E, "CRC24": 0x21CF02,
         "CRC32": 0xCBF43926, "CRC32C": 0xE3069283, "CRC64": 0x46A5A9388A5BEFFE, "CRC256": 0x79B96BDC0C519B239BE759EC0688C86FD25A3F4DF1E7F054AD1F923D0739DAC8}


def cases(tier, rng):
    n = 1 if tier == "quick" else 15
    out = [dict(kind="random", width=rng.choice([1, 2, 3, 5, 8, 12, 15, 16, 24, 32, 40, 64, 100]), lsb=rng.random() < .5, lsbd=rng.choice([None, None, True, False]),
                mask=rng.random() < .5, poly=rng.choice(["mask", "exponents", "shuffled"])) for _ in range(400 * n)]
    out += [dict(kind="known", name=k) for k in CHECK] * (6 * n)
    return out


def rev(v, w):
    return int(format(v, f"0{w}b")[::-1], 2) if w else 0


def remainder(exps, width, seed, bits):
    """Register contents (most significant power first) after the bits: (seed * x^n + message) * x^width mod P, by long division."""
    poly = sum(1 << e for e in exps)
    n = len(bits)
    value = (seed << n) ^ (int("".join(map(str, bits)), 2) << width if n else 0)
    for i in range(value.bit_length() - 1, width - 1, -1):
        if value >> i & 1:
            value ^= poly << (i - width)
    return value


def bits_of(word, width, lsb):
    b = [word >> i & 1 for i in range(width)]
    return b if lsb else b[::-1]


def model(p, bits, value=None):
    """p: dict(width, exps, seed, lsb, xor); value: previous result"""
    w = p["width"]
    reg = p["seed"] if value is None else value ^ p["xor"]
    if p["lsb"]:
        reg = rev(reg, w)
    r = remainder(p["exps"], w, reg, bits)
    return (rev(r, w) if p["lsb"] else r) ^ p["xor"]


def run_case(c, ctx):
    import amlib.test.crc as M
    rng = ctx.rng
    if c["kind"] == "known":
        a = getattr(M, c["name"])
        ctx.eq(a.calcString("123456789"), CHECK[c["name"]], "known", f"check value of {c['name']}")
        p = dict(width=a.width, exps=list(a.polynomial), seed=a.seed, lsb=bool(a.lsbFirst), xor=a.xorMask)
        lsbd = p["lsb"] if a.lsbFirstData is None else bool(a.lsbFirstData)
        ctx.ev("predefined", 10)
    else:
        w = c["width"]
        exps = [w] + [e for e in range(w - 1, -1, -1) if rng.random() < .4 or e == 0 and rng.random() < .7]
        p = dict(width=w, exps=exps, seed=rng.getrandbits(w) if rng.random() < .7 else 0, lsb=c["lsb"], xor=rng.getrandbits(w) if c["mask"] else 0)
        if c["poly"] == "mask":
            poly = sum(1 << e for e in exps[1:])
            if c["lsb"]:
                poly = rev(poly, w)
        else:
            poly = list(exps)
            if c["poly"] == "shuffled":
                rng.shuffle(poly)
        kw = dict(seed=p["seed"], xorMask=p["xor"], lsbFirst=c["lsb"])
        if c["lsbd"] is not None:
            kw["lsbFirstData"] = c["lsbd"]
        for k in ("seed", "xorMask", "lsbFirst"):
            if not kw[k] and rng.random() < .7:
                kw.pop(k)                  # the default
        a = M.CrcAlgorithm(w, poly, *rng.choice([("x",), ()]), **kw)
        lsbd = c["lsb"] if c["lsbd"] is None else c["lsbd"]
    for _ in range(6):
        # a message made of characters
        msg = "".join(chr(rng.getrandbits(8)) for _ in range(rng.choice([0, 1, 2, 5, 20])))
        bits = [b for ch in msg for b in bits_of(ord(ch), 8, lsbd)]
        want = model(p, bits)
        what = f"width {p['width']}, exponents {p['exps'][:8]}, seed {p['seed']:#x}, xor {p['xor']:#x}, lsb {p['lsb']}/{lsbd}, message {msg!r}"
        ctx.eq(a.calcString(msg), want, "string", what)
        ctx.ev("messages")
        if c["kind"] == "known" and c["name"] == "CRC32":
            ctx.eq(a.calcString(msg), zlib.crc32(msg.encode("latin1")), "zlib", what)
            ctx.ev("zlib")
        cut = rng.randint(0, len(msg))
        ctx.eq(a.calcString(msg[cut:], a.calcString(msg[:cut])), want, "split", "continued: " + what)
        ctx.ev("splits")
        # words, bits and characters through the register
        r = M.CrcRegister(a)
        bits = []
        for _ in range(rng.randint(0, 8)):
            k = rng.choice("wbs8")
            if k == "w":
                n = rng.choice([1, 3, 8, 11, 16, 27, 40])
                x = rng.getrandbits(n)
                r.takeWord(x, n)
                bits += bits_of(x, n, lsbd)
            elif k == "8":
                x = rng.getrandbits(8)
                r.takeWord(x)
                bits += bits_of(x, 8, lsbd)
            elif k == "b":
                x = rng.getrandbits(1)
                r.takeBit(rng.choice([x, bool(x)]))
                bits.append(x)
            else:
                x = "".join(chr(rng.getrandbits(8)) for _ in range(2))
                r.takeString(x)
                bits += [b for ch in x for b in bits_of(ord(ch), 8, lsbd)]
            ctx.ev("words")
            ctx.eq(r.getFinalValue(), model(p, bits), "register", "register: " + what)
            ctx.eq(r.getValue(), model(p, bits) ^ p["xor"], "register", "raw register: " + what)
        ctx.eq(str(r), format(r.getValue(), f"0{p['width']}b"), "text", "register as text")
        r.reset()
        ctx.eq(r.getValue(), p["seed"], "reset", "register after reset")
        n = rng.choice([1, 5, 11, 16, 33])
        x = rng.getrandbits(n)
        ctx.eq(a.calcWord(x, n), model(p, bits_of(x, n, lsbd)), "word", f"word {x:#x} of {n} bits: " + what)
        v = rng.getrandbits(p["width"])
        ctx.eq(a.calcWord(x, n, v), model(p, bits_of(x, n, lsbd), v), "word", f"word {x:#x} of {n} bits from {v:#x}: " + what)
        # other algorithms derived from it
        q = dict(p, lsb=not p["lsb"])
        f = a.reflect()
        ctx.eq(M.reflect(x, n), rev(x, n), "reflect", f"reflection of {x:#x}")
        d = (not p["lsb"]) if a.lsbFirstData is None else not a.lsbFirstData
        ctx.eq(f.calcWord(x, n), model(q, bits_of(x, n, d)), "reflect", "reflected: " + what)
        if 0 in p["exps"]:
            g = a.reverse()
            q = dict(p, exps=sorted((p["width"] - e for e in p["exps"]), reverse=True))
            ctx.eq(g.calcWord(x, n), model(q, bits_of(x, n, lsbd)), "reverse", "reversed: " + what)
            if not p["xor"] and a.lsbFirstData is None:
                w = p["width"]
                x = rng.getrandbits(w)
                y = a.calcWord(x, w, 0)
                ctx.eq(a.reverse().reflect().calcWord(y, w, 0), x, "inverse", f"inverse of {y:#x}: " + what)
                ctx.ev("inverses")
        ctx.eq((a.calcString(msg), a.width), (want, p["width"]), "changed", "the algorithm itself after deriving others from it")
        ctx.seen(p["width"], p["lsb"], lsbd, bool(p["xor"]), len(bits))
    ctx.sample = dict(case=c, **{k: str(v)[:60] for k, v in p.items()})
