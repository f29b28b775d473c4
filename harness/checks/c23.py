"""C23: bit sequences - conversions, slicing and operators agree with a list-of-bits model."""
RULE = ("Each case runs hundreds of random operations (constructors, conversions, indexing, slicing, concatenation, repetition, logic, "
        "comparison, reversal) on sequences of up to 1100 bits against a plain list model. A situation is (operation, lengths).")
FLOORS = {"ops": 10000}


def cases(tier, rng):
    return [dict() for _ in range(64 if tier == "quick" else 600)]


def run_case(c, ctx):
    from amlib.utils import bits
    rng = ctx.rng

    def rnd():
        n = rng.choice([0, 1, 2, 7, 8, 9, 16, 31, 64, rng.randint(0, 200), rng.randint(0, 200), rng.randint(200, 1100) if rng.random() < .1 else 5])
        m = rng.choice(["r", "0", "1", "s"])
        return [rng.getrandbits(1) if m == "r" else int(m == "1") if m in "01" else int(rng.random() < .1) for _ in range(n)]

    def val(l):
        return sum(x << i for i, x in enumerate(l))

    def text(l):
        return "".join(map(str, reversed(l)))

    def make(l):
        k = rng.randrange(6)
        if k == 0:
            return bits(val(l), len(l))
        if k == 1:
            return bits(rng.choice([list, tuple])(l))
        if k == 2:
            # what is true is a one
            true, false = rng.choice([((1,), (0,)), ((True,), (False,)), ((1, 2, 4, -1, "0", 0.5, (0,)), (0, False, "", 0.0, None, ()))])
            return bits(rng.choice([iter, list])([rng.choice(true if x else false) for x in l]))
        if k == 3:
            s = text(l)
            if s and rng.random() < .5:
                i = rng.randint(0, len(s))
                s = s[:i] + rng.choice([" ", "_", "\t"]) + s[i:]
            return bits(("+" if rng.random() < .2 and s else "") + s)
        if k == 4:
            o = rng.choice(["little", "big"])
            n = (len(l) + 7) // 8 + rng.choice([0, 0, 1])
            raw = val(l) | (rng.getrandbits(8) << len(l) if n * 8 > len(l) else 0)
            raw &= (1 << 8 * n) - 1
            t = rng.choice([bytes, bytearray, memoryview])
            return bits(t(raw.to_bytes(n, o)), len(l), byteorder=o)
        return bits(val(l) - (rng.choice([0, 1, 5]) << len(l)), len(l))

    def same(b, l, what):
        ctx.check(isinstance(b, bits), "type", f"{what} is a {type(b).__name__}")
        ctx.eq(len(b), len(l), "length", f"length after {what}")
        ctx.eq(list(b), l, "bits", f"bits after {what}")
        ctx.eq((int(b), b.to_int()), (val(l),) * 2, "int", f"integer value after {what}")
        ctx.ev("ops")
    for _ in range(250):
        l, r = rnd(), rnd()
        if rng.random() < .4:
            r = [rng.getrandbits(1) for _ in l]
        a, b = make(l), make(r)
        op = rng.choice(["make", "conv", "index", "slice", "add", "radd", "mul", "and", "or", "xor", "rop", "eq", "rev", "resize", "immut"])
        ctx.seen(op, min(len(l), 70) // 4, (len(l) - len(r)).bit_length())
        if op == "make":
            same(a, l, "construction")
        elif op == "conv":
            ctx.eq((str(a), a.to_str()), (text(l),) * 2, "str", "text form")
            ctx.eq(repr(a), f"bits('{text(l)}')", "str", "repr")
            n = (len(l) + 7) // 8
            ctx.eq((bytes(a), a.to_bytes(), a.to_bytes("big")), (val(l).to_bytes(n, "little"),) * 2 + (val(l).to_bytes(n, "big"),), "bytes", "byte form")
            ctx.eq(bool(a), bool(l), "bool", "truth value")
            same(bits(str(a)), l, "text round trip")
            same(bits(bytes(a), len(a)), l, "bytes round trip")
            if l and l[-1]:
                same(bits(int(a)), l, "integer round trip")
        elif op == "index" and l:
            i = rng.randrange(-len(l), len(l))
            ctx.eq(a[i], l[i], "index", f"bit [{i}] of {len(l)} bits")
            ctx.ev("ops")
        elif op == "slice":
            i, j = (rng.choice([None, rng.randint(-len(l) - 3, len(l) + 3)]) for _ in range(2))
            same(a[i:j], l[i:j], f"slice [{i}:{j}] of {len(l)} bits")
        elif op == "add":
            same(a + rng.choice([b, r, text(r), tuple(r)]), l + r, "concatenation")
        elif op == "radd":
            same(rng.choice([text(l), tuple(l)]) + b, l + r, "right concatenation")
        elif op == "mul":
            n = rng.choice([0, 1, 2, 3, 4, 5, 5, rng.randint(6, 70)])
            same(a * n if rng.random() < .5 else n * a, l * n, f"repetition by {n}")
        elif op in ("and", "or", "xor", "rop"):
            n = max(len(l), len(r))
            x, y = l + [0] * (n - len(l)), r + [0] * (n - len(r))
            o = rng.choice(["and", "or", "xor"]) if op == "rop" else op
            f = {"and": lambda p, q: p & q, "or": lambda p, q: p | q, "xor": lambda p, q: p ^ q}[o]
            left = rng.choice([text(l), tuple(l)]) if op == "rop" else a
            right = b if op == "rop" else rng.choice([b, text(r), tuple(r)])
            same(f(left, right), [f(p, q) for p, q in zip(x, y)], o)
        elif op == "eq":
            r2 = rng.choice([l, r, l + [0], l[:-1], [1 - x for x in l[:1]] + l[1:]])
            ctx.eq(a == make(r2), l == r2, "eq", f"equality of {text(l)} and {text(r2)}")
            ctx.eq(a != make(r2), l != r2, "eq", "inequality")
            ctx.check(not a == None, "eq", "equal to None")
            ctx.eq(a == text(r2), l == r2, "eq", "equality with a text form")
            ctx.eq((a == tuple(r2), tuple(r2) == a, a != tuple(r2)), (l == r2, l == r2, l != r2), "eq", "equality with a tuple")
            if not r2 or r2[-1]:
                ctx.eq((a == val(r2), val(r2) == a), (l == r2,) * 2, "eq", "equality with a number")
            ctx.check(not a == 1.5 and not a == object(), "eq", "equal to something else")
            try:
                h = hash(a)
            except TypeError:
                pass                   # like a list
            else:
                ctx.check(l != r2 or h == hash(make(r2)), "hash", "equal sequences with different hashes")
            ctx.ev("ops")
        elif op == "rev":
            same(a.reversed(), l[::-1], "reversal")
        elif op == "resize":
            n = rng.randint(0, 220)
            same(bits(a, n), (l + [0] * n)[:n], f"resizing {len(l)} to {n} bits")
            ctx.check(bits(a) is a, "identity", "copying an immutable sequence made a new one")
        elif op == "immut":
            before = list(a)
            a + b, a & b, a | b, a ^ b, a.reversed(), a * 2, a[1:]
            d = a
            d += b
            same(d, l + r, "in-place concatenation")
            d = a
            d *= 3
            same(d, l * 3, "in-place repetition")
            same(a, before, "using it in other operations")
            try:
                a[0] = 1
            except TypeError:
                pass
            else:
                ctx.fail("immutable", "a bit was assigned")
            i, j = (rng.choice([None, rng.randint(-len(l), len(l))]) for _ in range(2))
            k = rng.choice([2, 3, -1])
            try:
                d = a[i:j:k]
            except (AssertionError, ValueError, TypeError, IndexError, NotImplementedError):
                pass                   # steps are not offered
            else:
                same(d, l[i:j:k], f"slice [{i}:{j}:{k}]")
            for bad, exc in ((lambda: bits(-1), ValueError), (lambda: bits("1012"), ValueError), (lambda: bits("10", 3), ValueError),
                             (lambda: bits(b"\x01"), ValueError), (lambda: bits([1], 2), ValueError), (lambda: bits(1.5), TypeError),
                             (lambda: bits("-1"), ValueError), (lambda: a["x"], TypeError)):
                try:
                    bad()
                except exc:
                    ctx.ev("ops")
                else:
                    ctx.fail("reject", "an ill-formed construction or access was accepted")
    ctx.sample = dict(last=text(l)[:40], op=op)
