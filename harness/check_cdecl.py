"""P21: the variables which C blocks declare follow spec/CDecl.tla and spec/UserVars.tla."""
import random
import re
import shutil
import subprocess
import zlib

import offline  # noqa: F401
from common import tlc, scratch, CheckError

NAMES = ["a", "aa", "a1", "_a", "intx", "structure", "n", "e", "x_2", "typedefd", "u", "inta", "ptr", "A", "double_x", "charm"]
PRIMS = ["double", "int", "char", "unsigned int", "long long int", "size_t", "const char", "Outer", "struct outer", "float",
         "unsigned char", "const double", "_Bool", "short"]
SCALAR = {"Outer", "struct outer"}  # all but these are numbers
PRELUDE = """#include <stddef.h>
enum { N = 3, WIDE = 5 };
struct outer { int one; double two[2]; };
typedef struct outer Outer;
double vmax(double a, double b) { return a > b ? a : b; }
"""
SIZES = {1: ["1", "0x1"], 2: ["2", "N-1", "2u", "02"], 3: ["3", "N", " 3 ", "sizeof(char[3])", "(N)"],
         4: ["4", "2*2", "N + 1", "sizeof(int)"], 8: ["8", "010", "N+WIDE"], 10: ["10", "2 * WIDE", "0xa"]}
ARGS = ["int", "void", "double, char *", "int k, double w[3]", "int (*)(int)", "const char *s, ..."]


class Layout:
    """How one item is written: the gaps between its words, and which of several spellings"""
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.style = self.r.choice(["plain", "plain", "tight", "wide", "lines", "comments"])

    def pick(self, what):
        return self.r.choice(what)

    def gap(self, needed=False):
        """Between two words; needed: they are one without it"""
        if self.style == "tight":
            return " " if needed else ""
        if self.style == "wide":
            return self.pick(["  ", "\t", " "])
        if self.style == "lines":
            return self.pick(["\n", "\n    ", " "])
        if self.style == "comments":
            return self.pick([" ", " /* int no[2], */ ", " // double no;\n", "/**/", " /* [4] */ "])
        return " " if needed else self.pick(["", " "])


def crc(x):
    return zlib.crc32(repr(x).encode())


class Block:
    """The text of a behaviour of CDecl"""
    def __init__(self, rec, names=NAMES, prims=PRIMS):
        self.rec, self.names, self.prims = rec, names, prims
        self.used_tags = {it["base"]["i"] for it in rec["items"] if it["base"]["k"] == "tag"}
        self.alias_types, self.bodies, self.inits, self.args = [], {}, {}, {}
        parts = []
        for pos, it in enumerate(rec["items"]):
            lay = Layout(crc((it, pos)))
            parts.append(getattr(self, "item_" + it["k"])(it, pos, lay))
            parts.append(lay.pick(["\n", "\n", "\n\n", " ", "\n  "]) if it["k"] != "line" else "\n")
        self.text = "".join(parts)

    def name(self, n):
        return self.names[(n + crc(self.rec["items"][0]) % 7) % len(self.names)]

    def tag_text(self, i):
        return ("struct", "union", "enum")[i % 3] + f" tag{i}"

    def tag_body(self, i, inner="one"):
        ea = "a" if inner == "other" else "e"
        return (f"{{ int {inner}; double two[2]; }}", f"{{ int {inner}; char text[4]; }}", f"{{ {ea}a_{i}, {ea}b_{i} = 3 }}")[i % 3]

    def anonymous(self, i):
        return i in self.bodies and i not in self.used_tags and i % 2 == 1

    def base_text(self, b, inner="one"):
        """As it is where something is declared"""
        if b["k"] == "prim":
            return self.prims[b["i"]]
        if b["k"] == "alias":
            return f"alias{b['i']}_t"
        if b["k"] == "tag":
            return self.tag_text(b["i"])
        i = b["i"]
        kind, tag = self.tag_text(i).split()
        return f"{kind}{'' if self.anonymous(i) else ' ' + tag} {self.tag_body(i)}"

    def base_name(self, b):
        """To refer to it afterwards"""
        if b["k"] == "body":
            return f"{self.tag_text(b['i']).split()[0]} anonymous{b['i']}" if self.anonymous(b["i"]) else self.tag_text(b["i"])
        return self.base_text(b)

    def full(self, t, b):
        """Steps and last type, through aliases"""
        if b["k"] != "alias":
            return t, b
        at, ab = self.alias_types[b["i"] - 1]
        return t + at, ab

    def declarator(self, name, t, lay, args, unsized=False):
        """The text of a declarator; args: what the functions in it take"""
        text, last = name, ""
        for j, s in enumerate(t):
            if s["s"] == "ptr":
                text = "*" + (lay.gap() if lay else "") + text
            else:
                if last == "ptr":
                    text = f"({text})"
                if s["s"] == "fn":
                    text += (lay.gap() if lay else "") + f"({args[j]})"
                else:
                    size = (lay.pick(SIZES[s["d"]]) if s["d"] else "") if lay else str(s["d"])
                    text += (lay.gap() if lay else "") + f"[{size}]"
            last = s["s"]
        return text

    def function_args(self, t, lay):
        return [lay.pick(ARGS) for _ in t]

    # --- values
    def characters(self, lay, n):
        return "".join(lay.pick(["a", ",", "{", "}", "'", '\\"', "\\\\", ";", "(", "\\n", "/", "*", "[", "]", "="]) for _ in range(n))

    def value(self, t, b, lay, count):
        if len(t) == 0:
            if b["k"] == "prim":
                p = self.prims[b["i"]]
                if p in SCALAR:
                    return "{1, {2, 3}}" if lay.r.random() < 0.5 else "{1,{2.5}}"
                if p.endswith("char"):
                    return lay.pick(["'a'", "','", "'\\''", "'{'", "'\"'", "98", "'\\\\'"])
                return lay.pick(["1", "2", "-3", "vmax(1, 2)", "(4, 5)", "N*2", "sizeof(int[2])", "(int) 7", "(1<2)"])
            kind = b["i"] % 3
            return ("{1, {2, 3}}", "{1}", f"eb_{b['i']}")[kind]
        s, rest = t[0], t[1:]
        if s["s"] == "ptr":
            if len(rest) == 0 and b["k"] == "prim" and self.prims[b["i"]] == "const char":
                return '"' + self.characters(lay, lay.r.randrange(5)) + '"'
            return lay.pick(["0", "NULL"])
        n = count
        if len(rest) == 0 and b["k"] == "prim" and self.prims[b["i"]] in ("char", "const char", "unsigned char") and lay.r.random() < 0.6:
            return '"' + self.characters(lay, n - 1) + '"'
        inner = [self.value(rest, b, lay, (rest[0]["d"] if lay.r.random() < 0.7 else lay.r.randrange(1, rest[0]["d"] + 1))
                            if rest and rest[0]["s"] == "arr" else 1) for _ in range(n)]
        comma = lay.gap() + "," + lay.gap()
        return "{" + lay.gap() + comma.join(inner) + (lay.pick(["", "", ","]) if n else "") + lay.gap() + "}"

    # --- items
    def specifiers(self, b, lay):
        text = self.base_text(b)
        if b["k"] != "body":
            words = text.split(" ")
            text = words[0] + "".join((lay.gap(True) if lay.style != "comments" else " ") + w for w in words[1:])
        return text

    def item_var(self, it, pos, lay):
        b = it["base"]
        if b["k"] == "body":
            self.bodies[b["i"]] = True
        out = []
        for d in it["ds"]:
            args = self.args[d["n"]] = self.function_args(d["t"], lay)
            text = self.declarator(self.name(d["n"]), d["t"], lay, args)
            if d["i"]:
                ft, fb = self.full(d["t"], b)
                init = self.inits[d["n"]] = self.value(ft, fb, lay, d["i"])
                text += lay.gap() + "=" + lay.gap() + init
            out.append(text)
        first = " " if lay.style == "comments" else lay.gap(out[0][0] not in "(*")
        return self.specifiers(b, lay) + first + (lay.gap() + "," + lay.gap()).join(out) + lay.gap() + ";"

    def item_alias(self, it, pos, lay):
        t = it["ds"][0]["t"]
        args = self.function_args(t, lay)
        lay.style = "plain" if lay.style == "comments" else lay.style
        text = "typedef " + self.specifiers(it["base"], lay) + " " + self.declarator(f"alias{it['i']}_t", t, lay, args) + ";"
        self.alias_types.append(self.full(t, it["base"]))
        return text

    def item_tag(self, it, pos, lay):
        return f"{self.tag_text(it['i'])} {self.tag_body(it['i'], self.name(it['x']))};"

    def item_proto(self, it, pos, lay):
        n, f = self.name(it["i"]), f"vf_{pos}"
        return lay.pick([f"double {f}(int {n}, double);", f"int *{f}(void);", f"int (*{f}(int {n}))(double);", f"double {f}();",
                         f"void {f}(int (*call)(int {n}), char *s);", f"extern int {f}(int {n}[3]);", f"int {f}(int), g{f}(int {n});"])

    def item_fn(self, it, pos, lay):
        n, f = self.name(it["i"]), f"vf_{pos}"
        m = self.name(it["i"] + 3)
        return lay.pick([f"int {f}(int q) {{ int {n}; return q; }}",
                         f"double {f}(void)\n{{\n  double {n}[3] = {{1, 2, 3}};\n  {{ int {m}; }}\n  return 0;\n}}",
                         f"void {f}(double q) {{ for (int {n} = 0; {n} < 3; {n}++) {{ char {m}; }} }}",
                         f"void *{f}() {{ typedef int local_t; local_t {n}; struct {{ int z; }} {m}; return 0; }}",
                         f"int {f}(int q) {{ if (q) {{ double *{n}; }} return 0; }} int {f}b(void) {{ int {m}; return 1; }}"])

    def item_note(self, it, pos, lay):
        n = self.name(it["i"])
        return lay.pick([f"/* int {n}; */", f"// double {n};\n", f"/*\n int {n}[2];\n double other;\n*/", f"// it's {n} \" {{ \n"])

    def item_line(self, it, pos, lay):
        n = self.name(it["i"])
        return lay.pick([f"\n#define FAKE_{pos} int {n};", f"\n#define FAKE_{pos}(q) q \\\n  + {pos}", "\n#pragma acc routine", f"\n#undef FAKE_{pos}"])

    def item_assert(self, it, pos, lay):
        return f"_Static_assert(1, \"int {self.name(it['i'])};\");"

    def item_empty(self, it, pos, lay):
        return ";"


def words(text):
    """Without comments, and without the spaces nothing depends on"""
    found = re.findall(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|/\*.*?\*/|//[^\n]*|\w+|\s+|.', text or "", re.DOTALL)
    return [w for w in found if not w.isspace() and not w.startswith(("/*", "//"))]


def same(a, b):
    return f'_Static_assert(__builtin_types_compatible_p({a}, {b}) && sizeof({a}) == sizeof({b}), "type");'


def compiles(text):
    d = scratch("cdecl-")
    try:
        (d / "a.c").write_text(text)
        res = subprocess.run(["gcc", "-w", "-fsyntax-only", "a.c"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        return "" if res.returncode == 0 else res.stdout.decode(errors="replace")[:1500]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def asserted(block, var):
    """What the specification says about one variable, as C"""
    args = block.args[var["n"]]
    return f"__typeof__({block.base_name(var['b'])} {block.declarator('', var['t'], None, args)})"


def prepare(rec):
    """Where the real code differs from the specification; and C which compiles when types and sizes do not"""
    from mccode_antlr.translators.c_listener import extract_c_declared_variables as variables_of, extract_c_defined_types as types_of
    block = Block(rec)
    bad = []

    def say(kind, text):
        bad.append(dict(kind=kind, detail=f"{text}\nblock:\n{block.text}", item=rec))

    truth = ["{", block.text]
    truth += [f"{block.tag_text(i).split()[0]} anonymous{i} {block.tag_body(i, 'other')};" for i in block.bodies if block.anonymous(i)]
    code = []
    for var in rec["vars"]:
        if var["b"]["k"] != "body":
            truth.append(same(f"__typeof__({block.name(var['n'])})", asserted(block, var)))
    try:
        found, aliases = variables_of(block.text), types_of(block.text)
        expect = [block.name(v["n"]) for v in rec["vars"]]
        if [x.name for x in found] != expect:
            say("names", f"declares {[x.name for x in found]} instead of {expect}")
        elif aliases != [f"alias{i + 1}_t" for i in range(rec["aliases"])]:
            say("types", f"defines the types {aliases} instead of {rec['aliases']}")
        else:
            for x, var in zip(found, rec["vars"]):
                if words(x.init) != words(block.inits.get(var["n"])):
                    say("value", f"{x.name} starts as {x.init!r} instead of {block.inits.get(var['n'])!r}")
                if words(x.dtype) != words(block.base_text(var["b"])):
                    say("base", f"{x.name} is made of {x.dtype!r} instead of {block.base_text(var['b'])!r}")
                if x.copy() != x or hash(x.copy()) != hash(x):
                    say("copy", f"a copy of {x} is another")
                if x.copy(suffix="3").name != x.name + "_3":
                    say("suffix", f"{x} with a suffix is {x.copy(suffix='3')}")
                if var["b"]["k"] == "body":
                    x.dtype = block.base_name(var["b"])
                code.append(f"struct holder_{x.name} {{ {x.as_struct_member()}; }};")
                code.append(same(f"__typeof__(((struct holder_{x.name} *) 0)->{x.name})", asserted(block, var)))
                y = x.copy(suffix="3")
                code.append(f"struct copied_{x.name} {{ {y.as_struct_member()}; }};")
                code.append(same(f"__typeof__(((struct copied_{x.name} *) 0)->{y.name})", asserted(block, var)))
    except Exception as e:
        say("error", f"extracting fails: {e!r}")
        code = []
    return bad, truth, code, say


def replay(recs):
    done = [prepare(r) for r in recs]

    def program(which, truth_only=False):
        out = [PRELUDE]
        for n in which:
            _, truth, code, _ = done[n]
            out.append(f"void case_{n}(void)\n" + "\n".join(truth) + "\n" + ("" if truth_only else "\n".join(code)) + "\n}")
        return "\n".join(out)

    def search(which):
        """The cases which do not compile"""
        why = compiles(program(which))
        if not why:
            return
        if len(which) > 1:
            search(which[:len(which) // 2])
            search(which[len(which) // 2:])
            return
        n = which[0]
        wrong = compiles(program(which, True))
        if wrong:
            raise CheckError(f"the specification is not C: {wrong}\n{program(which, True)}")
        done[n][3]("type", f"what is declared differs:\n" + "\n".join(done[n][2]) + f"\n{why}")

    search(list(range(len(recs))))
    return [b for d in done for b in d[0]]



# ------------------------------------------------------------ private variables of a component
MEMBERS = [{"const double": "long", "const char": "char"}.get(p, p) for p in PRIMS]


def replay_member(recs):
    """The blocks are the DECLARE sections of as many components of one program"""
    import cprog
    comps, want = {}, []
    text = ["DEFINE INSTRUMENT declared()", "TRACE"]
    for n, rec in enumerate(recs):
        block = Block(rec, prims=MEMBERS)
        out = [f"DEFINE COMPONENT P{n}", "SHARE %{\n#ifndef PRELUDE\n#define PRELUDE\n" + PRELUDE + "\n#endif\n%}", "DECLARE %{\n" + block.text + "\n%}",
               "INITIALIZE %{"]
        for var in rec["vars"]:
            name, t, b = block.name(var["n"]), var["t"], var["b"]
            args = block.args[var["n"]]
            out.append(same(f"__typeof__({name})", asserted(block, var)).replace('"type"', f'"type of {name}"'))
            k, count = 0, 1
            while k < len(t) and t[k]["s"] == "arr":
                count *= t[k]["d"]
                k += 1
            one = f"__typeof__({block.base_name(b)} {block.declarator('', t[k:], None, args[k:])})"
            init = block.inits.get(var["n"])
            base = MEMBERS[b["i"]]
            if k < len(t):
                text_of = k + 1 == len(t) and base == "const char"
                test = "(q[k] == w[k] || (q[k] && w[k] && !strcmp(q[k], w[k])))" if text_of else "q[k] == w[k]"
            elif base in SCALAR:
                test = "q[k].one == w[k].one && q[k].two[0] == w[k].two[0] && q[k].two[1] == w[k].two[1]"
            else:
                test = "q[k] == w[k]"
            declared = f"{block.base_name(b)} {block.declarator('want', t, None, args)}"
            start = f" = {init}" if init else "; memset(&want, 0, sizeof(want))"
            out.append(f"{{ {declared}{start}; {one} * q = ({one} *) &{name}, * w = ({one} *) &want; int k, bad = 0; "
                       f'for (k = 0; k < {count}; k++) bad += !({test}); printf("P{n} {name} %d\\n", bad); }}')
            want.append(f"P{n} {name} 0")
        out += ["%}", "END"]
        comps[f"P{n}"] = "\n".join(out)
        text.append(f"COMPONENT c{n} = P{n}() AT (0, 0, 0) ABSOLUTE")
    text.append("END\n")
    shown = "\n".join(comps.values())
    try:
        with cprog.Program(cprog.generate(cprog.parse("\n".join(text), comps))) as prog:
            got = [x for x in prog.run() if re.match(r"P\d+ ", x)]
    except (cprog.ProgramError, RuntimeError) as e:
        if len(recs) > 1:
            return replay_member(recs[:len(recs) // 2]) + replay_member(recs[len(recs) // 2:])
        return [dict(kind="program", detail=f"{e}\n{shown}", item=recs[0])]
    bad = [x for x in want if x not in got]
    return [dict(kind="start", detail=f"{x[:-2]} does not start with the values it is given\n{comps[x.split()[0]]}", item=recs[int(x.split()[0][1:])]) for x in bad[:5]]


# --------------------------------------------------------------- the variables of all particles
WORDS = {1: "u", 2: "w", 3: "u1"}
TYPES = {1: ("double", ""), 2: ("int", ""), 3: ("double *", ""), 4: ("double", "[2]"), 5: ("double", "[3]"), 6: ("Coords", ""),
         7: ("double", "[2][2]"), 8: ("char *", ""), 9: ("long", ""), 10: ("MCNUM", ""), 11: ("double *", "[2]"), 12: ("unsigned int", "")}
def word(n):
    return "_".join([WORDS[n[0]]] + [str(k) for k in n[1:]])


def uservars(decls, rng):
    """Blocks which declare them, one after another"""
    blocks, cur, i = [], [], 0
    while i < len(decls):
        d = decls[i]
        if d["cut"] and cur:
            blocks.append(cur)
            cur = []
        base, size = TYPES[d["ty"]]
        init = f" = {d['st']}" if d["st"] else ""
        text = base + (" " if base[-1] != "*" else "") + word(d["n"]) + size + init
        # those of one simple type can be in one declaration
        while base[-1] != "*" and i + 1 < len(decls) and decls[i + 1]["ty"] in (d["ty"],) and not decls[i + 1]["cut"] and rng.random() < 0.5:
            i += 1
            text += ", " + word(decls[i]["n"]) + size + (f" = {decls[i]['st']}" if decls[i]["st"] else "")
        cur.append(rng.choice(["", "  ", "/* one */ "]) + text + rng.choice([";", " ;", "; // another"]))
        i += 1
    if cur:
        blocks.append(cur)
    return [rng.choice(["\n", "\n\n"]).join(b) + "\n" for b in blocks]


def read(x, ty):
    """A field's value as a number"""
    return {3: f"(double)(long) {x}", 4: f"{x}[1]", 5: f"{x}[2]", 6: f"((double *) &{x})[1]", 7: f"{x}[1][1]", 8: f"(double)(long) {x}",
            11: f"(double)(long) {x}[1]"}.get(ty, f"(double) {x}")


def write(x, ty, value, rng):
    """x: an expression which has the field's name"""
    base, size = TYPES[ty]
    if ty in (1, 2, 6, 9, 10, 12):
        if ty == 6:
            return f"{{ Coords q = {{0, {value}, 0}}; particle_setvar_void(_particle, {x}, &q); }}"
        return f"{{ {base} q = {value}; particle_setvar_void(_particle, {x}, &q); }}"
    if ty in (4, 5):
        n = int(size[1])
        return f"{{ double q[{n}]; q[{n - 1}] = {value}; particle_setvar_void_array(_particle, {x}, q, {n}); }}"
    target = f"particle_getvar_void(_particle, {x}, 0)"
    if ty in (3, 8):
        return f"*(void **) {target} = (void *)(long)({value});"
    if ty == 7:
        return f"((double *) {target})[3] = {value};"
    return f"((void **) {target})[1] = (void *)(long)({value});"


def user_program(rec, rng):
    fields = rec["fields"]
    place = {word(f["n"]): k for k, f in enumerate(fields, 1)}
    own = {word(d["n"]) for d in rec["own"]}

    def show(tag, names, member):
        return f'printf("{tag}");' + "".join(f' printf(" {n}=%g", {read(member(n), fields[place[n] - 1]["ty"])});' for n in names) + ' printf("\\n");\n'

    every = show("S", list(place), lambda n: f"_particle->{n}")
    checks = "".join(f'_Static_assert(__builtin_types_compatible_p(__typeof__(_particle->{n}), {"".join(TYPES[fields[k - 1]["ty"]])}), "type of {n}");\n'
                     for n, k in place.items())
    comps = {}
    for t in sorted(set(rec["line"])):
        decls = rec["comps"][t - 1]
        out = [f"DEFINE COMPONENT T{t}"]
        if decls:
            out.append("USERVARS %{\n" + "".join(uservars([dict(d, cut=False) for d in decls], rng)) + "%}")
        body = checks + every + "{ static int ray[100]; char nm[64]; ray[_comp->_index]++;\n"
        body += "long at[100] = {0};\n"
        for d in {word(d["n"]): d for d in decls}.values():
            body += f'sprintf(nm, "{word(d["n"])}_%ld", _comp->_index);\n'
            for i in [i for i, lt in enumerate(rec["line"], 1) if lt == t]:
                name = f"{word(d['n'])}_{i}"
                if name in place:
                    body += f"if (_comp->_index == {i}) " + write("nm", d["ty"], f"20 * ray[{i}] + {3 * i + place[name]}", rng) + "\n"
        out.append("TRACE %{\n" + body + "}\n%}\nEND\n")
        comps[f"T{t}"] = "\n".join(out)
    comps["Last"] = "DEFINE COMPONENT Last\nTRACE %{\n" + every + "%}\nEND\n"
    text = ["DEFINE INSTRUMENT users()"]
    blocks = uservars(rec["own"], rng)
    if blocks:
        text.append("USERVARS %{\n" + blocks[0] + "%}")
    text.append("TRACE")
    extended = []
    for i, t in enumerate(rec["line"], 1):
        text.append(f"COMPONENT c{i} = T{t}() AT (0, 0, 0) ABSOLUTE")
        names = [n for n in place if n in own or any(f"{word(d['n'])}_{k}" == n for d in rec["comps"][t - 1] for k, x in enumerate(rec["line"], 1) if x == t)]
        if rng.random() < 0.6:
            extended.append((i, names))
            byid = "".join(f' printf(" %d", particle_getuservar_byid(_particle, {k - 1}, 0) == (double) {n});' for n, k in place.items()
                           if n in own and fields[k - 1]["ty"] == 1)
            text.append("EXTEND %{\n" + show(f"E{i}", names, lambda n: n) + f'printf("I");{byid} printf("\\n");' + "\n%}")
    text += ["COMPONENT last = Last() AT (0, 0, 0) ABSOLUTE", "END"]
    return "\n".join(text) + "\n", comps, blocks, extended


def replay_user(rec):
    import cprog
    from mccode_antlr.common import RawC
    rng = random.Random(crc(rec))
    text, comps, blocks, extended = user_program(rec, rng)
    shown = text + "".join("\n(one more block)\n" + b for b in blocks[1:]) + "\n" + "\n".join(comps.values())
    instr = cprog.parse(text, comps)
    instr.user = tuple(instr.user) + tuple(RawC.parse(b) if hasattr(RawC, "parse") else RawC("more", 1, b) for b in blocks[1:])
    try:
        source = cprog.generate(instr)
    except RuntimeError as e:
        return [] if rec["refused"] else [dict(kind="refused", detail=f"{e!r}\n{shown}")]
    if rec["refused"]:
        return [dict(kind="accepted", detail=f"declarations which differ are accepted\n{shown}")]
    fields = {word(f["n"]): f for f in rec["fields"]}

    def values(line):
        return {k: float(x) for k, x in (w.split("=") for w in line.split()[1:])}

    try:
        with cprog.Program(source) as prog:
            lines = [x for x in prog.run(["-n", "2"], stdin="\n") if re.match(r"[SEI]\d* |[SEI]\d*$", x)]
    except cprog.ProgramError as e:
        return [dict(kind="program", detail=f"{e}\n{shown}")]
    bad = []
    states = [values(x) for x in lines if x[0] == "S"]
    if len(states) != len(rec["log"]):
        return [dict(kind="log", detail=f"{len(states)} states instead of {len(rec['log'])}\n{shown}")]
    for k, (got, want) in enumerate(zip(states, rec["log"])):
        for (n, f), w in zip(fields.items(), want):
            if w != -1 and got[n] != w:
                bad.append(dict(kind="value", detail=f"state {k + 1}: {n} is {got[n]} instead of {w}\n{shown}"))
    each = iter([x for x in lines if x[0] == "E"])
    for ray in range(2):
        for i, names in extended:
            got = values(next(each, "E"))
            want = rec["log"][ray * (len(rec["line"]) + 1) + i]
            for (n, f), w in zip(fields.items(), want):
                if n in names and w != -1 and got.get(n) != w:
                    bad.append(dict(kind="extend", detail=f"EXTEND of {i}, ray {ray + 1}: {n} is {got.get(n)} instead of {w}\n{shown}"))
    for x in lines:
        if x[0] == "I" and "0" in x.split()[1:]:
            bad.append(dict(kind="id", detail=f"the instrument's variables by number: {x}\n{shown}"))
    return bad[:3]


INV = ("Whole", "Once", "SizesKnown", "InScope")
EVERY = '{"var", "body", "proto", "fn", "alias", "tag", "note", "line", "assert", "empty"}'


def constants(**k):
    c = dict(MaxItems="1", MaxDeclarators="1", MaxSteps="3", Kinds='{"var"}', Prims="{0}", Sizes="{2, 3}", Inits="0..3", Variants="{0}",
             Names="{1}", Sampling="FALSE")
    c.update(k)
    return c


def p21(check):
    t = check.thorough
    kw = dict(invariants=INV, properties=("Grows",), workers=8, timeout=500)
    c = constants(Prims="{0, 2, 6, 7}", MaxSteps="4" if t else "3", Sizes="{1, 3}")
    r = check.model("every type", tlc("CDecl", c, **kw))
    check.run("every type", replay, r.records, batch=60)
    c = constants(MaxItems="2", Kinds=EVERY, MaxSteps="1", Sizes="{3}", Inits="{0, 1, 2}", Variants="0..2", Names="1..2", Prims="{0, 2}")
    r = check.model("every pair", tlc("CDecl", c, **kw))
    check.run("every pair", replay, r.records[check.seed % 6::1 if t else 6], batch=60)
    for n, m in ((3, 4), (8, 4), (14, 5)) if t else ((3, 4), (8, 4)):
        c = constants(MaxItems=str(n), MaxDeclarators="3", MaxSteps=str(m), Kinds=EVERY, Prims="0..13", Sizes="{1, 2, 3, 4, 8, 10}", Inits="0..4",
                      Variants="0..40", Names="0..15", Sampling="TRUE")
        r = check.model(f"sampled, {n} items", tlc("CDecl", c, simulate=4000 if t else 1000, depth=80, seed=check.seed + n, **dict(kw, workers=4)),
                        exhaustive=False)
        check.run(f"sampled, {n} items", replay, r.records, batch=60)
        check.need(sum(len(x["vars"]) for x in r.records) > 1000, "sampled variables")
    c = constants(MaxItems="5", MaxDeclarators="3", MaxSteps="3", Kinds='{"var", "note", "proto"}', Prims="0..13", Sizes="{1, 2, 3, 4, 8, 10}", Inits="0..4",
                  Variants="0..40", Names="0..15", Sampling="TRUE")
    r = check.model("sampled private variables", tlc("CDecl", c, simulate=2000 if t else 250, depth=80, seed=check.seed, **dict(kw, workers=4)),
                    exhaustive=False)
    check.run("sampled private variables", replay_member, r.records, batch=10)
    inv = dict(invariants=("NothingLost", "OneEach", "RightlyRefused"), properties=("OwnOnly",), timeout=500)
    c = dict(NTypes="2", MaxInst="3", MaxDecls="1", Words="{<<1>>, <<1, 2>>}", Kinds="{1, 4}", Starts="{0}", Cuts="{FALSE}", Rays="2", Sampling="FALSE")
    r = check.model("every small set of user variables", tlc("UserVars", c, workers=8, **inv))
    k = max(1, len(r.records) // (3000 if t else 200))
    check.run("every small set of user variables", replay_user, r.records[check.seed % k::k])
    c.update(NTypes="3", MaxInst="4", MaxDecls="3", Words="{<<1>>, <<2>>, <<3>>, <<1, 1>>, <<1, 2>>, <<2, 3>>, <<1, 1, 2>>}", Kinds="1..12",
             Starts="{0, 0, 5, 7}", Cuts="BOOLEAN", Sampling="TRUE")
    refused = merged = 0
    for kinds in ("1..12", "{1}"):
        c.update(Kinds=kinds)
        r = check.model(f"sampled user variables of kinds {kinds}", tlc("UserVars", c, simulate=1500 if t else 120, depth=60, seed=check.seed, **inv),
                        exhaustive=False)
        check.run(f"sampled user variables of kinds {kinds}", replay_user, r.records)
        refused += sum(x["refused"] for x in r.records)
        merged += sum(not x["refused"] and len(x["fields"]) > 2 for x in r.records)
    check.need(refused > 25 and merged > 25, f"both refused and merged: {refused}, {merged}")


CHECKS = dict(P21=p21)
