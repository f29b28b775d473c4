#!/usr/bin/env python3
"""Mutation survey: mutate one file of amlib in scratch copies, run the named checks, list the survivors.
usage: mutate.py FILE CHECK[,CHECK..] [--extra|--rare|--width|--cap|--coin] [--max N] [--seed S] [--lines a-b]"""
import ast, copy, os, random, shutil, subprocess, sys, multiprocessing, tempfile, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


class Sites(ast.NodeTransformer):
    """Enumerates (or applies the k-th of) mutations."""
    def __init__(self, k=None): self.k, self.i, self.desc, self.line = k, -1, [], None
    def hit(self, node, what):
        self.i += 1
        if self.k is None: self.desc.append((node.lineno, what))
        return self.i == self.k
    def visit_ClassDef(self, n):
        if "Test" in n.name and "amlib/test/utils" not in sys.argv[1]: return n
        return self.generic_visit(n)
    def visit_FunctionDef(self, n):
        if n.name.startswith("test") or n.name in ("conduit", "__repr__", "__str__"): return n
        return self.generic_visit(n)
    def visit_If(self, n):
        if ast.unparse(n.test).startswith("__name__"): return n
        return self.generic_visit(n)
    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant): return n      # docstring
        return self.generic_visit(n)
    def visit_Raise(self, n): return n
    def visit_Assert(self, n): return n
    def visit_JoinedStr(self, n): return n
    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            if self.hit(n, f"{n.value} -> {not n.value}"): return ast.copy_location(ast.Constant(not n.value), n)
        elif isinstance(n.value, int):
            for d in (1, -1):
                if d == -1 and n.value == 0: continue
                if self.hit(n, f"{n.value} -> {n.value + d}"): return ast.copy_location(ast.Constant(n.value + d), n)
        return n
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            alt = {ast.Eq: [ast.NotEq, ast.GtE], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.NotEq], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt, ast.Eq]}.get(type(n.ops[0]), [])
            for a in alt:
                if self.hit(n, f"{ast.unparse(n)}: {a.__name__}"): n.ops = [a()]; return n
        return n
    def visit_BinOp(self, n):
        self.generic_visit(n)
        alt = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.BitAnd: [ast.BitOr, "L", "R"], ast.BitOr: [ast.BitAnd, "L", "R"], ast.BitXor: [ast.BitOr], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult],
               ast.LShift: [ast.RShift], ast.RShift: [ast.LShift]}.get(type(n.op), [])
        for a in alt:
            if self.hit(n, f"{ast.unparse(n)}: {a if isinstance(a, str) else a.__name__}"):
                if a == "L": return n.left
                if a == "R": return n.right
                n.op = a(); return n
        return n
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Invert, ast.Not)) and self.hit(n, f"{ast.unparse(n)}: dropped"): return n.operand
        return n
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.value, (ast.List, ast.Tuple)):
            for j in range(len(n.value.elts)):
                if self.hit(n.value.elts[j], f"dropped {ast.unparse(n.value.elts[j])}"):
                    n.value.elts = n.value.elts[:j] + n.value.elts[j + 1:]; return n
        elif self.hit(n, f"dropped {ast.unparse(n)}"): return ast.copy_location(ast.Pass(), n)
        return n
    def visit_With(self, n):
        for it in n.items:
            c = it.context_expr
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("If", "Elif") and c.args:
                if self.hit(n, f"{ast.unparse(c)}: True"): c.args = [ast.Constant(1)]; return n
                if self.hit(n, f"{ast.unparse(c)}: negated"):
                    c.args = [ast.parse(f"~(({ast.unparse(c.args[0])}) != 0)").body[0].value]; return n
        return self.generic_visit(n)


class Extra(ast.NodeTransformer):
    """A second set of mutations: domains, priorities, state transitions, operand order, neighbouring fields."""
    def __init__(self, k=None): self.k, self.i, self.desc, self.states = k, -1, [], []
    hit = Sites.hit
    visit_If0 = None
    def visit_ClassDef(self, n):
        if "Test" in n.name and "amlib/test/utils" not in sys.argv[1]: return n
        old = self.states
        self.states = []
        for x in ast.walk(n):
            if isinstance(x, ast.With):
                for it in x.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "State" and c.args and isinstance(c.args[0], ast.Constant): self.states.append(c.args[0].value)
        n = self.generic_visit(n); self.states = old
        return n
    def visit_FunctionDef(self, n):
        if n.name.startswith("test") or n.name in ("conduit", "__repr__", "__str__"): return n
        self.order(n.body)
        return self.generic_visit(n)
    def isif(self, x):
        if not isinstance(x, ast.With): return None
        c = x.items[0].context_expr
        return c.func.attr if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("If", "Elif", "Else", "Switch") else None
    def order(self, body):
        for j in range(len(body) - 1):
            a, b = body[j], body[j + 1]
            st = lambda x: isinstance(x, ast.AugAssign) and "m.d." in ast.unparse(x.target)
            if self.isif(a) == "If" and self.isif(b) == "If" and (j + 2 >= len(body) or self.isif(body[j + 2]) not in ("Elif", "Else")) or st(a) and self.isif(b) == "If" and (j + 2 >= len(body) or self.isif(body[j + 2]) not in ("Elif", "Else")):
                if self.hit(b, f"moved before the statement at line {a.lineno}"): body[j], body[j + 1] = b, a; return
    def visit_If(self, n):
        if ast.unparse(n.test).startswith("__name__"): return n
        if self.hit(n, f"python if {ast.unparse(n.test)}: negated"): n.test = ast.UnaryOp(ast.Not(), n.test); return n
        self.order(n.body)
        return self.generic_visit(n)
    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant): return n
        return self.generic_visit(n)
    def visit_Raise(self, n): return n
    def visit_Assert(self, n): return n
    def visit_JoinedStr(self, n): return n
    def visit_With(self, n):
        k = self.isif(n)
        if k == "Elif" and self.hit(n, "Elif -> If"): n.items[0].context_expr.func.attr = "If"; return n
        if k == "Else" and self.hit(n, "Else -> If(1)"): n.items[0].context_expr.func.attr = "If"; n.items[0].context_expr.args = [ast.Constant(1)]; return n
        self.order(n.body)
        return self.generic_visit(n)
    def visit_AugAssign(self, n):
        t = n.target
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Attribute) and t.value.attr == "d":
            if t.attr == "comb" and self.hit(n, "comb -> sync"): t.attr = "sync"; return n
            if t.attr == "sync" and self.hit(n, "sync -> comb"): t.attr = "comb"; return n
        if isinstance(n.value, ast.List) and len(n.value.elts) > 1 and self.hit(n, "list reversed"): n.value.elts.reverse(); return n
        return self.generic_visit(n)
    def visit_Assign(self, n):
        t = n.targets[0]
        if isinstance(t, ast.Attribute) and t.attr == "next" and isinstance(n.value, ast.Constant):
            if self.hit(n, f"next {n.value.value} dropped"): return ast.copy_location(ast.Pass(), n)
            for s in self.states:
                if s != n.value.value and self.hit(n, f"next {n.value.value} -> {s}"): n.value = ast.Constant(s); return n
            return n
        return self.generic_visit(n)
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
        if nm == "Mux" and len(n.args) == 3 and self.hit(n, "Mux swapped"): n.args[1], n.args[2] = n.args[2], n.args[1]
        if nm == "Cat" and len(n.args) > 1 and self.hit(n, "Cat reversed"): n.args.reverse()
        if nm in ("any", "all") and isinstance(f, ast.Attribute) and self.hit(n, f"{nm} swapped"): f.attr = "all" if nm == "any" else "any"
        if nm in ("min", "max") and isinstance(f, ast.Name) and self.hit(n, f"{nm} swapped"): f.id = "max" if nm == "min" else "min"
        if nm == "eq" and len(n.args) == 1 and not isinstance(n.args[0], ast.Constant):
            if self.hit(n, f"{ast.unparse(n)[:60]}: 0"): n.args = [ast.Constant(0)]
            elif self.hit(n, f"{ast.unparse(n)[:60]}: inverted"): n.args = [ast.UnaryOp(ast.Invert(), n.args[0])]
        if nm == "eq" and len(n.args) == 1 and isinstance(n.args[0], ast.Constant) and n.args[0].value in (0, 1) and self.hit(n, f"{ast.unparse(n)[:60]}: flipped"): n.args = [ast.Constant(1 - n.args[0].value)]
        return n
    SW = {"valid": ["ready"], "ready": ["valid"], "first": ["last"], "last": ["first"], "r_data": ["w_data"], "w_data": ["r_data"], "r_stb": ["w_stb"], "w_stb": ["r_stb"], "left": ["right"], "w_en": ["r_en"], "r_en": ["w_en"],
          "r_rdy": ["w_rdy"], "w_rdy": ["r_rdy"], "cyc": ["stb"], "stb": ["cyc"], "start": ["stop"], "stop": ["start"], "scl": ["sda"], "sda": ["scl"], "sdi": ["sdo"], "sdo": ["sdi"], "read": ["write"], "write": ["read"]}
    def visit_Attribute(self, n):
        self.generic_visit(n)
        for s in self.SW.get(n.attr, []):
            if self.hit(n, f"{ast.unparse(n)} -> .{s}"): n.attr = s; return n
        return n
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if self.hit(n, f"{ast.unparse(n)}: and/or"): n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        return n
    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.hit(n, f"{ast.unparse(n)[:60]}: swapped"): n.body, n.orelse = n.orelse, n.body
        return n


RARE_HELP = """
def _rare(m, d, n, sticky=False):
    from amaranth import Signal
    c = Signal(12)
    if d == "comb": d = "sync"
    m.d[d] += c.eq(c + (c != 4095))
    return (c >= n) if sticky else (c == n)
def _value(y, k):
    from amaranth import Value
    y = Value.cast(y)
    return (y == k) if len(y) > 2 else 0
"""


class Rare(ast.NodeTransformer):
    """Faults that show rarely: at the n-th execution of an assignment or state change, ever after it, or at one value."""
    def __init__(self, k=None): self.k, self.i, self.desc = k, -1, []
    hit = Sites.hit
    visit_ClassDef, visit_FunctionDef = Sites.visit_ClassDef, Sites.visit_FunctionDef
    visit_If, visit_Raise, visit_Assert, visit_JoinedStr, visit_Expr = Sites.visit_If, Sites.visit_Raise, Sites.visit_Assert, Sites.visit_JoinedStr, Sites.visit_Expr
    NS = [(1, False), (6, False), (45, False), (300, True)]
    def visit_AugAssign(self, n):
        t = n.target
        if isinstance(t, ast.Subscript): d = ast.unparse(t.slice)
        elif isinstance(t, ast.Attribute) and ast.unparse(t.value).endswith(".d"): d = repr(t.attr)
        else: return n
        m = ast.unparse(t.value)[:-2]
        for e in (n.value.elts if isinstance(n.value, (ast.List, ast.Tuple)) else [n.value]):
            if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "eq"): continue
            x, y = ast.unparse(e.func.value), ast.unparse(e.args[0])
            bad = f"({y}) ^ 1" if d == "'comb'" else x
            w = f"{x}.eq({y[:30]})"
            for num, sticky in self.NS:
                if self.hit(e, f"{w}: {'from' if sticky else 'at'} execution {num}"):
                    e.args = [ast.parse(f"Mux(_rare({m}, {d}, {num}, {sticky}), {bad}, {y})").body[0].value]; return n
            if not isinstance(e.args[0], ast.Constant) and self.hit(e, f"{w}: at value 5"):
                e.args = [ast.parse(f"Mux(_value({y}, 5), {bad}, {y})").body[0].value]; return n
        return n
    def visit_Assign(self, n):
        t = n.targets[0]
        if isinstance(t, ast.Attribute) and t.attr == "next":
            m = ast.unparse(t.value)
            for num, sticky in self.NS[:3]:
                if self.hit(n, f"next {ast.unparse(n.value)}: not at execution {num}"):
                    return ast.parse(f"with {m}.If(~_rare({m}, 'sync', {num})):\n    {ast.unparse(n)}").body[0]
        return n


WIDTH_HELP = '''
def _cap(shape, w):
    from amaranth.hdl.ast import Shape
    s = Shape.cast(shape)
    return Shape(min(s.width, w), s.signed)
'''


class Width(Sites):
    """Signals that are too narrow for large configurations or long histories."""
    visit_ClassDef, visit_FunctionDef = Sites.visit_ClassDef, Sites.visit_FunctionDef
    visit_If = visit_Raise = visit_Assert = visit_JoinedStr = visit_Expr = visit_AugAssign = visit_Assign = visit_BinOp = visit_Compare = visit_Constant = visit_UnaryOp = visit_BoolOp = visit_With = ast.NodeTransformer.generic_visit
    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == "Signal" and n.args:
            for w in (3, 5, 6, 7, 8, 9, 11, 15):
                if isinstance(n.args[0], ast.Constant) and n.args[0].value <= w: continue
                if self.hit(n, f"{ast.unparse(n)[:60]}: at most {w} bits"):
                    n.args[0] = ast.parse(f"_cap({ast.unparse(n.args[0])}, {w})").body[0].value; return n
            return n
        return self.generic_visit(n)


class Cap(Sites):
    """Loops that forget members and values cut to too few bits in large configurations."""
    visit_ClassDef, visit_FunctionDef = Sites.visit_ClassDef, Sites.visit_FunctionDef
    visit_If, visit_Raise, visit_Assert, visit_JoinedStr, visit_Expr = Sites.visit_If, Sites.visit_Raise, Sites.visit_Assert, Sites.visit_JoinedStr, Sites.visit_Expr
    visit_AugAssign = visit_Assign = visit_BinOp = visit_Compare = visit_Constant = visit_UnaryOp = visit_BoolOp = visit_With = ast.NodeTransformer.generic_visit
    def loop(self, n, what):
        for w in (2, 4, 8, 16, 32):
            if self.hit(n.iter, f"{what} {ast.unparse(n.iter)[:50]}: first {w}"):
                n.iter = ast.parse(f"list({ast.unparse(n.iter)})[:{w}]").body[0].value; return True
    def visit_For(self, n):
        if self.loop(n, "for"): return n
        return self.generic_visit(n)
    def visit_comprehension(self, n):
        if self.loop(n, "comprehension"): return n
        return self.generic_visit(n)
    def visit_Call(self, n):
        f = n.func
        nm = f.attr if isinstance(f, ast.Attribute) else ""
        if nm == "eq" and len(n.args) == 1 and not isinstance(n.args[0], ast.Constant):
            for w in (7, 8, 16, 32):
                if self.hit(n, f"{ast.unparse(n)[:70]}: {w} bits"):
                    n.args = [ast.parse(f"_cut({ast.unparse(n.args[0])}, {w})").body[0].value]; return n
        if nm in ("any", "all") and not n.args:
            for w in (4, 8, 16, 32):
                if self.hit(n, f"{ast.unparse(n)[:70]}: {w} bits"):
                    f.value = ast.parse(f"_cut({ast.unparse(f.value)}, {w})").body[0].value; return n
        return self.generic_visit(n)


CAP_HELP = """
def _cut(v, w):
    from amaranth import Value
    v = Value.cast(v)
    if len(v) <= w: return v
    return v[:w].as_signed() if v.shape().signed else v[:w]
"""


class Coin(ast.NodeTransformer):
    """Conditions that fail in coincidence with another control signal (or a pair of them)."""
    def __init__(self, k=None): self.k, self.i, self.desc, self.names = k, -1, [], []
    hit = Sites.hit
    visit_If, visit_Raise, visit_Assert, visit_JoinedStr, visit_Expr = Sites.visit_If, Sites.visit_Raise, Sites.visit_Assert, Sites.visit_JoinedStr, Sites.visit_Expr
    visit_FunctionDef = Sites.visit_FunctionDef
    def visit_ClassDef(self, n):
        if "Test" in n.name: return n
        names = []
        for x in ast.walk(n):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name):
                t = ast.unparse(x.targets[0])
                if x.value.func.id == "Signal" and not x.value.args: names.append(t)
                if x.value.func.id == "StreamInterface" and t.startswith("self."): names += [f"{t}.valid[0]", f"{t}.ready"]
        old, self.names = self.names, sorted(set(names))
        n = self.generic_visit(n); self.names = old
        return n
    def visit_With(self, n):
        c = n.items[0].context_expr
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("If", "Elif") and c.args:
            u = ast.unparse(c.args[0])
            extra = [x for x in self.names] + [f"~{x}" for x in self.names]
            extra += [f"{a} & {b}" for i, a in enumerate(self.names) for b in self.names[i + 1:]]
            for e in extra:
                if self.hit(n, f"{ast.unparse(c)[:60]}: not with {e}"):
                    c.args = [ast.parse(f"(({u}) != 0) & ~(({e}) != 0)").body[0].value]; return n
        return self.generic_visit(n)


OPS = Coin if "--coin" in sys.argv else Cap if "--cap" in sys.argv else Extra if "--extra" in sys.argv else Rare if "--rare" in sys.argv else Width if "--width" in sys.argv else Sites


def sites(src):
    t = ast.parse(src); s = OPS(); s.visit(t); return s.desc


def mutant(src, k):
    t = ast.parse(src); s = OPS(k); t = s.visit(t); ast.fix_missing_locations(t); return ast.unparse(t) + (RARE_HELP if OPS is Rare else WIDTH_HELP if OPS is Width else CAP_HELP if OPS is Cap else "")


def work(a):
    k, desc, file, checks, root = a
    w = os.path.join(root, f"w{multiprocessing.current_process()._identity[0]}")
    if not os.path.exists(w):
        os.makedirs(w)
        shutil.copytree(os.path.join(REPO, "amlib"), os.path.join(w, "repo", "amlib"))
        for x in ("harness", "stubs"): shutil.copytree(os.path.join(V, x), os.path.join(w, "verif", x))
        for x in ("run_check.sh", "known_findings.json"): shutil.copy(os.path.join(V, x), os.path.join(w, "verif", x))
    dst = os.path.join(w, "repo", file)
    src = open(os.path.join(REPO, file)).read()
    try: open(dst, "w").write(mutant(src, k))
    except Exception as e: return k, desc, "unparse", str(e)
    res = "SURVIVED"; note = ""
    env = dict(os.environ, VERIF_REPO=os.path.join(w, "repo"), VERIF_JOBS="1", VERIF_MAXVIOL="1")
    for c in checks:
        try:
            r = subprocess.run([os.path.join(w, "verif", "run_check.sh"), c, "--tier", "quick"], env=env, capture_output=True, text=True, timeout=400)
            rc, out = r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired:
            rc, out = -1, "timeout"
        if rc == 1: res = "caught " + c; break
        if rc != 0: res = f"rc{rc}"; note = out[-300:]
    shutil.copy(os.path.join(REPO, file), dst)
    return k, desc, res, note


def main():
    file, checks = sys.argv[1], sys.argv[2].split(",")
    opt = lambda n, d: sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
    src = open(os.path.join(REPO, file)).read()
    ss = list(enumerate(sites(src)))
    rg = opt("--lines", None)
    if rg:
        a, b = map(int, rg.split("-")); ss = [s for s in ss if a <= s[1][0] <= b]
    n = len(ss); mx = int(opt("--max", "100000"))
    if n > mx: ss = sorted(random.Random(int(opt("--seed", "1"))).sample(ss, mx))
    root = tempfile.mkdtemp(prefix="mut-")
    cnt = {}
    try:
        with multiprocessing.Pool(int(opt("--jobs", "8"))) as p:
            for k, d, r, note in p.imap_unordered(work, [(k, d, file, checks, root) for k, d in ss], chunksize=1):
                cnt[r.split()[0]] = cnt.get(r.split()[0], 0) + 1
                if not r.startswith("caught"): print(f"{file}:{d[0]} {d[1]} -> {r} {note}", flush=True)
    finally:
        shutil.rmtree(root)
    print(f"== {file}: {n} sites, {cnt}", flush=True)


main()
