"""P15: expressions follow spec/Expr.tla."""
import random
import re
import shutil
import subprocess
import zlib
from fractions import Fraction

import offline  # noqa: F401
from common import tlc, scratch, CheckError

NAMES = {1: "a", 2: "bee", 3: "c_3"}
ENVS = [((2, 1), (-3, 1), (1, 2)), ((-1, 1), (4, 1), (3, 1)), ((5, 2), (1, 1), (0, 1)), ((2, 1), (3, 1), (-5, 4))]
MEMBERS = {1: "st.one", 2: "pt->two"}
ARRAY = [3, 5, 7, 9]
C = """#include <stdio.h>
#include <math.h>
typedef struct { double one, two; } S;
static S st = {1.5, 0}, other = {0, 3}, *pt = &other;
static double fun_0(void) { return 7; }
static double fun_1(double x) { return 2*x + 1; }
static double fun_2(double x, double y) { return x - 2*y; }
"""


class Undefined(Exception):
    pass


def crc(x):
    return zlib.crc32(repr(x).encode())


def literal(q, rng):
    """A number's text"""
    f = Fraction(*q)
    if f.denominator == 1:
        n = f.numerator
        forms = [str(n)] * 4 + [f"{n}.0", f"{n}.", f"{n}e0"]
        if n:
            forms += [hex(n), f"{n}u" if n < 9 else str(n), "0" + oct(n)[2:], f"{n * 10}e-1"]
        return rng.choice(forms)
    text = repr(float(f))
    return rng.choice([text, text, text.lstrip("0"), f"{float(f) * 10:g}e-1", f"{text}0"])


def spelled(tokens, rng):
    """The text of an expression, loosely or tightly spaced; and the same with only what C and McCode both have"""
    out, i, style = [], 0, rng.choice(["tight", "loose", "mixed"])
    space = lambda: {"tight": "", "loose": " ", "mixed": rng.choice(["", " ", "  "])}[style]
    while i < len(tokens):
        w = tokens[i]
        if w in ("L", "N", "M", "F", "A"):
            i += 1
            x = tokens[i]
            w = {"L": lambda: literal(x, rng), "N": lambda: NAMES[x], "M": lambda: MEMBERS[x], "F": lambda: f"fun_{x}", "A": lambda: "arr"}[w]()
        # signs do not grow together, nor a sign and a number's exponent
        gap = space()
        if out and out[-1] and w[0] in "+-" and out[-1][-1] in "+-eE.0123456789" or (out and w[0] in ".&|<>=!" and gap == ""):
            gap = " "
        out.append(gap + w if out else w)
        i += 1
    return "".join(out)


def worth(x, env):
    """The value of what the real code has made, for an assignment of names"""
    from mccode_antlr.common.expression import Expr, Value, UnaryOp, BinaryOp, TrinaryOp
    if isinstance(x, Expr):
        x = x.expr
    if isinstance(x, list):
        if len(x) != 1:
            raise Undefined(f"{len(x)} expressions in one")
        return worth(x[0], env)
    if isinstance(x, Value):
        if x.is_id:
            return env[x.value]
        if isinstance(x.value, bool) or not isinstance(x.value, (int, float)):
            raise Undefined(f"{x.value!r} is no number")
        return Fraction(x.value)
    if isinstance(x, TrinaryOp):
        return worth(x.second if worth(x.first, env) != 0 else x.third, env)
    if isinstance(x, UnaryOp):
        q = worth(x.value, env)
        return {"-": lambda: -q, "+": lambda: q, "__group__": lambda: q, "__not__": lambda: Fraction(q == 0),
                "abs": lambda: abs(q), "fabs": lambda: abs(q)}[x.op]()
    if isinstance(x, BinaryOp):
        if x.op == "__call__":
            args = [worth(y, env) for y in x.right]
            return call(x.left[0].value, args)
        if x.op in ("__struct_access__", "__pointer_access__"):
            return env[str(x.left[0]) + ("." if "struct" in x.op else "->") + str(x.right[0])]
        if x.op == "__getitem__":
            return Fraction(ARRAY[int(worth(x.right, env))])
        p, q = worth(x.left, env), worth(x.right, env)
        return operate(x.op, p, q)
    raise Undefined(f"{type(x)} in an expression")


def call(name, a):
    if name in ("fabs", "abs"):
        return abs(a[0])
    return {"fun_0": lambda: Fraction(7), "fun_1": lambda: 2 * a[0] + 1, "fun_2": lambda: a[0] - 2 * a[1]}[name]()


def operate(op, p, q):
    if op in ("%", "<<", ">>"):
        if p.denominator != 1 or q.denominator != 1:
            raise Undefined(f"{p} {op} {q}")
        p, q = int(p), int(q)
        if op == "%":
            r = abs(p) % abs(q)
            return Fraction(r if p >= 0 else -r)
        return Fraction(p << q if op == "<<" else p >> q)
    return Fraction({"+": lambda: p + q, "-": lambda: p - q, "*": lambda: p * q, "/": lambda: p / q, "__pow__": lambda: p ** int(q),
                     "__lt__": lambda: p < q, "__gt__": lambda: p > q, "__le__": lambda: p <= q, "__ge__": lambda: p >= q,
                     "__eq__": lambda: p == q, "__neq__": lambda: p != q, "__and__": lambda: p != 0 and q != 0,
                     "__or__": lambda: p != 0 or q != 0}[op]())


def environment(k):
    env = {NAMES[i]: Fraction(*q) for i, q in enumerate(ENVS[k], 1)}
    env.update({m: Fraction(3 * i, 2) for i, m in MEMBERS.items()})
    return env


def near(a, b):
    return abs(a - b) <= Fraction(1, 10 ** 9) * max(1, abs(b))


def grow(t, rng, used):
    """By operations on objects; used: all the objects which were operands, and how they were"""
    from mccode_antlr.common.expression import Expr
    if t["k"] == "lit":
        f = Fraction(*t["q"])
        n = int(f) if f.denominator == 1 else float(f)
        return rng.choice([Expr.best, Expr.float, lambda z: Expr.int(z) if isinstance(z, int) else Expr.float(z), lambda z: Expr.parse(str(z))])(n)
    if t["k"] == "name":
        return rng.choice([Expr.id, Expr.parse, Expr.best])(NAMES[t["i"]])
    kids = [grow(c, rng, used) for c in t["c"]]
    used += [(x, repr(x), str(x)) for x in kids]
    if t["k"] == "un":
        return {"-": lambda x: -x, "+": lambda x: +x, "abs": abs}[t["o"]](kids[0])
    # a number need not be an expression
    plain = [k for k, c in enumerate(t["c"]) if c["k"] == "lit"]
    if len(plain) == 1 and rng.random() < 0.5:
        f = Fraction(*t["c"][plain[0]]["q"])
        kids[plain[0]] = rng.choice([float(f), int(f) if f.denominator == 1 else float(f)])
    a, b = kids
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "^": lambda: a ** b}[t["o"]]()


def tree_text(t):
    if t["k"] == "lit":
        return str(Fraction(*t["q"]))
    if t["k"] in ("name", "member"):
        return (NAMES if t["k"] == "name" else MEMBERS)[t["i"]]
    return f"{t['o'] or t['k']}(" + ", ".join(tree_text(c) for c in t["c"]) + ")"


def kinds(t):
    return {t["o"] or t["k"]}.union(*(kinds(c) for c in t["c"]))


def one(rec):
    """Where the real code differs from the specification; the expression; what C can say more about"""
    from mccode_antlr.common.expression import Expr, Value
    rng = random.Random(crc(rec))
    want = [Fraction(*q) for q in rec["vals"]]
    names = {NAMES[i] for i in rec["names"]}
    bad, more, text, x = [], [], "", None

    def say(kind, detail):
        bad.append(dict(kind=kind, detail=f"{tree_text(rec['tree'])}{', written ' + repr(text) if text else ''}: {detail}", item=rec))

    def compare(kind, y, known=None):
        for k, w in enumerate(want):
            if known is not None and k != known:
                continue
            got = worth(y, environment(k))
            if not near(got, w):
                say(kind, f"{kind} {y} is {got} instead of {w} with {ENVS[k]}")
                return

    try:
        if rec["text"]:
            text = spelled(rec["text"], rng)
            x = Expr.parse(text)
            compare("parsed", x)
        else:
            used = []
            x = grow(rec["tree"], rng, used)
            x = x if isinstance(x, Expr) else Expr(Value.best(x))
            compare("made", x)
            for o, r, s in used:
                if repr(o) != r or str(o) != s:
                    say("operand", f"an operand changed from {s} to {o}")
        shown, known = repr(x), str(x)
        again = Expr.parse(known)
        compare("printed and parsed again", again)
        if str(Expr.parse(str(again))) != str(again):
            say("text", f"printed as {again} it is read as {Expr.parse(str(again))}")
        compare("simplified", x.simplify())
        compare("twice simplified", x.simplify().simplify())
        compare("copied", x.copy())
        if x.copy() != x or hash(x.copy()) != hash(x) or str(x.copy()) != known:
            say("copy", f"the copy of {x} is {x.copy()}")
        for n in NAMES.values():
            # simplifying can lose a name, which is multiplied by zero say, but never adds one
            if rec["text"] and x.depends_on(n) != (n in names) and not lost(rec["tree"]):
                say("names", f"{x} {'depends' if x.depends_on(n) else 'does not depend'} on {n}")
            if x.depends_on(n) and n not in names:
                say("names", f"{x} depends on {n}")
            if (n in x) != x.depends_on(n):
                say("contains", f"{n} is {'' if n in x else 'not '}in {x}")
        for k in rng.sample(range(len(ENVS)), 2):
            some = [n for n in NAMES.values() if rng.random() < 0.6]
            env = environment(k)
            y = x.evaluate({n: rng.choice([Expr.float, Expr.best])(float(env[n])) for n in some})
            compare(f"evaluated for {some},", y, k)
            for n in some:
                if y.depends_on(n):
                    say("evaluated", f"{y} still depends on {n}")
        some = [n for n in NAMES.values() if rng.random() < 0.5]
        y = x.copy()
        y.verify_parameters(some)
        pre = "_instrument_var._parameters."
        if f"{y:p}" != re.sub(rf"\b({'|'.join(some) or '-'})\b", pre + r"\1", str(y)):
            say("parameters", f"with the parameters {some} {y} is {y:p}")
        if f"{y:prefix:par->}" != f"{y:p}".replace(pre, "par->"):
            say("parameters", f"with another prefix {y} is {y:prefix:par->}")
        if repr(x) != shown or str(x) != known:
            say("changed", f"it was {known} and has become {x}")
        if not kinds(rec["tree"]) & {"^", "%", "<<", ">>", "item"}:
            more = [("printed", known, want), ("simplified", str(x.simplify()), want)] + ([("text", text, want)] if text else [])
    except Exception as e:
        say("error", f"{type(e).__name__}: {e}")
    return bad, x, more, say


def lost(t):
    """Whether names can disappear while it is put together: a factor or exponent which is nothing, a base which is one, ..."""
    from fractions import Fraction as F
    def constant(u):
        if u["k"] == "lit":
            return F(*u["q"])
        if u["k"] in ("name", "member", "call", "item") or u["k"] == "?:":
            return None
        c = [constant(y) for y in u["c"]]
        if u["k"] == "bin" and None not in c and u["o"] in "+-*/":
            try:
                return {"+": c[0] + c[1], "-": c[0] - c[1], "*": c[0] * c[1]}.get(u["o"]) if u["o"] != "/" else c[0] / c[1]
            except ZeroDivisionError:
                return None
        return None if None in c else {"-": lambda: -c[0]}.get(u["o"], lambda: c[0])()
    if t["k"] == "bin" and t["o"] in ("*", "^", "/") and {constant(c) for c in t["c"]} & {0, 1}:
        return True
    return any(lost(c) for c in t["c"])


def as_c(text):
    """Numbers are double in all of C's operations"""
    def number(m):
        n = m.group().rstrip("uUlL")
        if n[:2] in ("0x", "0X"):
            return f"{int(n, 16)}.0"
        if n.isdigit():
            return f"{int(n, 8 if n[0] == '0' else 10)}.0"
        return n
    return re.sub(r"(?<![\w.])(?:0[xX][0-9a-fA-F]+|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)[uUlL]*", number, text)


def replay(recs):
    done = [one(r) for r in recs]
    lines, asked = [C], []
    for n, (_, _, more, say) in enumerate(done):
        for what, text, want in more:
            body = "".join(f'{{ double a = {float(e["a"])}, bee = {float(e["bee"])}, c_3 = {float(e["c_3"])}; printf(" %.17g", (double) ({as_c(text)})); }}\n'
                           for e in map(environment, range(len(ENVS))))
            lines.append(f'static void ask_{len(asked)}(void) {{ {body} printf("\\n"); }}')
            asked.append((n, what, text, want))
    if asked:
        d = scratch("expr-")
        try:
            (d / "a.c").write_text("\n".join(lines) + "\nint main(void) {\n" + "\n".join(f"ask_{i}();" for i in range(len(asked))) + "\nreturn 0; }\n")
            res = subprocess.run("gcc -w -O0 -o a.out a.c -lm && ./a.out", shell=True, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
            out = res.stdout.decode(errors="replace")
        finally:
            shutil.rmtree(d, ignore_errors=True)
        rows = out.splitlines()
        if res.returncode or len(rows) != len(asked):
            if len(recs) > 1:
                return replay(recs[:len(recs) // 2]) + replay(recs[len(recs) // 2:])
            done[0][3]("C", f"it is no C: {[a[1:3] for a in asked]} {out[:600]}")
        else:
            for row, (n, what, text, want) in zip(rows, asked):
                if not all(near(Fraction(float(g)), w) for g, w in zip(row.split(), want)):
                    if what == "text":
                        raise CheckError(f"the specification is not C: {text} is {row} instead of {[float(w) for w in want]}")
                    done[n][3]("C", f"{what} {text} is {row} in C instead of {[float(w) for w in want]}")
    # equal expressions are worth the same, and found by each other
    seen = {}
    for (bad, x, _, say), rec in zip(done, recs):
        if x is None:
            continue
        for y, vals in seen.items():
            if x == y and (hash(x) != hash(y) or not (y == x)):
                say("keys", f"{x} and {y} are equal but not interchangeable")
        if x in seen and seen[x] != rec["vals"]:
            say("equal", f"{x} is equal to something worth {seen[x]} instead of {rec['vals']}")
        seen[x] = rec["vals"]
        if x.is_constant and not isinstance(x.value, str):
            for y, vals in list(seen.items())[:40]:
                if y.is_constant:
                    p, q = Fraction(*rec["vals"][0]), Fraction(*vals[0])
                    got = (bool(x < y), bool(x > y), bool(x <= y), bool(x >= y), x == y)
                    if got != (p < q, p > q, p <= q, p >= q, p == q) and not near(p, q):
                        say("order", f"{x} and {y} compare as {got}")
    return [b for d in done for b in d[0]]


INV = ("Carried", "OnlyItsNames", "Lowest")
ALL = '{"+", "-", "*", "/", "^", "%", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||"}'
CALC = '{"+", "-", "*", "/", "^"}'


def constants(**k):
    envs = "<<" + ", ".join("<<" + ", ".join(f"<<{n}, {d}>>" for n, d in e) + ">>" for e in ENVS) + ">>"
    c = dict(Names="{1, 2, 3}", Envs=envs, Lits="{<<2, 1>>}", Binary=ALL, Unary='{"-", "!"}', Others="{}", Grown="FALSE", MaxSize="5", MaxStack="3",
             Sampling="FALSE")
    c.update(k)
    return c


def p15(check):
    check.assume("numbers are real numbers: 1/2 is a half; %, << and >> are between whole numbers which are not negative")
    check.assume("^ binds more tightly than signs, which C does not have it for")
    t = check.thorough
    kw = dict(invariants=INV, workers=8, timeout=600, heap="8g")
    part = lambda r, n: r.records[check.seed % max(1, len(r.records) // n)::max(1, len(r.records) // n)]
    c = constants(Names="{1, 2}", Lits="{<<2, 1>>}")
    r = check.model("every pair of operators", tlc("Expr", c, **kw))
    check.run("every pair of operators", replay, part(r, 60000 if t else 6000), batch=100)
    c = constants(Binary=CALC, Unary='{"-", "abs"}', Names="{1, 2}", Lits="{<<0, 1>>, <<1, 1>>, <<5, 2>>}", Grown="TRUE")
    r = check.model("every pair of operations", tlc("Expr", c, **kw))
    check.run("every pair of operations", replay, part(r, 60000 if t else 6000), batch=100)
    lits = "{<<0, 1>>, <<1, 1>>, <<2, 1>>, <<3, 1>>, <<8, 1>>, <<17, 1>>, <<1, 2>>, <<5, 2>>, <<3, 4>>, <<25, 1>>}"
    for n in (9, 15, 25):
        for grown in (False, True):
            c = constants(Lits=lits, MaxSize=str(n), MaxStack="6", Grown=str(grown).upper(), Sampling="TRUE",
                          Binary=CALC if grown else ALL, Unary='{"-", "+", "abs"}' if grown else '{"-", "+", "!", "group", "abs"}',
                          Others="{}" if grown else '{"?:", "call0", "call1", "call2", "item", "member"}')
            r = check.model(f"sampled, size {n}, {'made' if grown else 'written'}",
                            tlc("Expr", c, simulate=8000 if t else 500, depth=60, seed=check.seed + n, **kw), exhaustive=False)
            check.run(f"sampled, size {n}, {'made' if grown else 'written'}", replay, r.records, batch=100)
            check.need(len(r.records) > 100, "sampled expressions")


CHECKS = dict(P15=p15)
