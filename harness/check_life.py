"""P11: sections, parameters, private and per-particle variables of compiled programs follow spec/Lifecycle.tla."""
import json
import random

import offline  # noqa: F401
from common import tlc
import cprog

# literal strings by number: how they are written in C, and their bytes
STRINGS = [('""', ""), ('"abc"', "abc"), ('"a b, c"', "a b, c"), ('"50%d"', "50%d"), ('"q\\"q"', 'q"q'),
           ('"back\\\\slash"', "back\\slash"), ('"0"', "0"), ('"NULL"', "NULL"), ('"x /* y */ z // w"', "x /* y */ z // w"),
           ('"{1, 2}"', "{1, 2}"), ('"tab\\tend"', "tab\tend"), ('"q1"', "q1")]
USER = ["double u1;", "int u2;", "double u3[3];", "double *u4;"]


def hexed(s):
    return "-" + s.encode().hex()


def number(rng, v, kind):
    forms = [str(v), f"({v - 1}+1)", f"{v}*one", f"2*{v}-{v}" if v >= 0 else f"-{-v}"]
    if kind == "num":
        forms += [f"{v}.0", f"{v}e0", f"{2 * v}/2.0"]
    return rng.choice([f for f in forms if "one" not in f])


def vector(vs):
    return "{" + ", ".join(map(str, vs)) + "}" if vs else "NULL"


def default(rng, p):
    k = p["k"]
    if k.endswith("vec"):
        return vector(p["d"])
    if k == "str":
        return rng.choice(["NULL", "0", '""']) if p["d"][0] == 0 else STRINGS[p["d"][0]][0]
    return number(rng, p["d"][0], k)


TYPE = {"num": ["double ", ""], "int": ["int "], "str": ["string ", "char * "], "vec": ["vector ", "double * "],
        "ivec": ["int * "]}


def expression(rng, v):
    return rng.choice([f"{v}+2*qi", f"2*qi + {v}", f"(qi+qi) - ({-v})", f"{v}+qi*(3-1)"])


def given(rng, p, g):
    k, s, v = p["k"], g["s"], g["v"]
    if s == "lit":
        if k.endswith("vec"):
            return vector(v)
        return STRINGS[v[0]][0] if k == "str" else number(rng, v[0], k)
    if s == "ipar":
        return {"num": "qd", "int": "qi", "str": "qs"}[k]
    if s == "expr":
        return "{" + ", ".join(expression(rng, x) for x in v) + "}" if k.endswith("vec") else expression(rng, v[0])
    return {"num": "gnum", "int": "gnum", "str": "gstr", "vec": "gvec", "ivec": "givec"}[k]


def declare(j, q):
    """A private variable and the expressions of its elements, in the order of the model's."""
    n, i = f"w{j}", q["i"]
    one = i[-1]
    letters = "".join(map(chr, i)) if min(i) > 0 else ""
    return {"int": (f"int {n} = {i[0]};", [n]),
            "zero": (f"long {n};", [n]),
            "dbl": (f"double {n} = {i[0]}.0;", [n]),
            "list": (f"double {n}, *{n}p, {n}q = {i[-1]};", [n, f"{n}q"]),
            "arr": (f"double {n}[{len(i)}] = {{{', '.join(map(str, i))}}};", [f"{n}[{e}]" for e in range(len(i))]),
            "auto": (f"int {n}[] = {{{', '.join(map(str, i))}}};", [f"{n}[{e}]" for e in range(len(i))]),
            "call": (f"double {n}[2] = {{fmax({i[0]}, {i[0] - 1}), ({one})}};", [f"{n}[0]", f"{n}[1]"]),
            "two": (f"int {n}[2][2] = {{{{{i[0]}, {i[1]}}}, {{{i[2]}, {i[3]}}}}};" if len(i) == 4 else "",
                    [f"{n}[{a}][{b}]" for a in range(2) for b in range(2)]),
            "chars": (f'char {n}[8] = "{letters}";', [f"{n}[{e}]" for e in range(len(i))]),
            "word": (f'char {n}[] = "{letters}";', [f"{n}[{e}]" for e in range(len(i))]),
            "struct": (f"struct {{ int a; double b; }} {n} = {{{', '.join(map(str, i))}}};", [f"{n}.a", f"{n}.b"]),
            }[q["k"]]


def component(rng, t, ty, item):
    """The definition of a component type."""
    pars = []
    for j, p in enumerate(ty["pars"], 1):
        pars.append(rng.choice(TYPE[p["k"]]) + f"a{j}" + (f" = {default(rng, p)}" if p["has"] else ""))
    lengths = []
    for j, p in enumerate(ty["pars"], 1):
        if p["k"].endswith("vec"):
            lens = ["0"]
            for i in item["insts"]:
                g = i["give"][j - 1] if i["t"] == t else None
                lens.append(str(0 if g is None else len(p["d"]) if g["s"] == "dflt" else 3 if g["s"] == "glob" else len(g["v"])))
            lengths.append(f"static int len_T{t}_{j}[] = {{{', '.join(lens)}}};")
    show = []
    for j, p in enumerate(ty["pars"], 1):
        n = f"a{j}"
        show.append({"num": f'printf(" [%g]", {n});', "int": f'printf(" [%d]", {n});', "str": f'say_hex({n});',
                     "vec": f'say_vec({n}, len_T{t}_{j}[_comp->_index]);',
                     "ivec": f'say_ivec({n}, len_T{t}_{j}[_comp->_index]);'}[p["k"]])
    private = [declare(j, q) for j, q in enumerate(ty["priv"], 1)]
    for _, names in private:
        show.append('printf(" {");' + "".join(f'printf("%g ", (double) {n});' for n in names) + 'printf("}");')
    touch = " ".join(f"{names[0]} += 1;" for _, names in private)

    def section(ph, extra=""):
        return f'  {{ printf("N {ph} %ld", _comp->_index); {" ".join(show)} {extra} printf("\\n"); {"" if ph == "disp" else touch} }}\n'

    out = [f"DEFINE COMPONENT T{t}"]
    if pars:
        out.append(f"SETTING PARAMETERS ({', '.join(pars)})")
    say = """#ifndef SAY
#define SAY
void * _get_particle_var(char *, _class_particle *);
void say_hex(char * s) { printf(" [-"); while (s && *s) printf("%02x", (unsigned char) *s++); printf("]"); }
void say_vec(double * v, int n) { int i; printf(" ["); for (i = 0; i < n; i++) printf("%g ", v[i]); printf("%s]", v ? "" : "NULL"); }
void say_ivec(int * v, int n) { int i; printf(" ["); for (i = 0; i < n; i++) printf("%d ", v[i]); printf("%s]", v ? "" : "NULL"); }
#endif
"""
    out.append("SHARE %{\n" + say + "\n".join(lengths) + "\n%}")
    if ty["user"]:
        out.append("USERVARS %{\n" + "\n".join(USER[:ty["user"]]) + "\n%}")
    if private:
        out.append("DECLARE %{\n" + "\n".join(d for d, _ in private) + "\n%}")
    if "init" in ty["secs"]:
        change = ""
        if ty["pars"] and ty["pars"][0]["k"] in ("num", "int"):
            change = "a1 += 100;"
        elif ty["pars"] and ty["pars"][0]["k"].endswith("vec"):
            change = f"if (a1 && (void *) a1 != gvec && (void *) a1 != givec && len_T{t}_1[_comp->_index]) a1[0] += 100;"
        out.append("INITIALIZE %{\n" + section("init") + "  " + change + "\n%}")
    if "trace" in ty["secs"]:
        user = ""
        if ty["user"]:
            user = "int bad = 0; char nm[64]; double d; int k; double r[3]; double *ptr;"
            get = lambda j: f'sprintf(nm, "u{j}_%ld", _comp->_index);'
            read = {1: 'printf(" <%g>", *(double *) _get_particle_var(nm, _particle));',
                    2: 'printf(" <%d>", *(int *) _get_particle_var(nm, _particle));'}
            for j in range(1, min(ty["user"], 2) + 1):
                user += get(j) + read[j]
            for j in range(1, ty["user"] + 1):
                val = f"10*_comp->_index + {j}"
                user += get(j) + {1: f"d = {val}; bad |= particle_setvar_void(_particle, nm, &d);",
                                  2: f"k = {val}; bad |= particle_setvar_void(_particle, nm, &k);",
                                  3: f"r[0] = r[1] = r[2] = {val}; bad |= particle_setvar_void_array(_particle, nm, r, 3);",
                                  4: "ptr = (double *) _comp; *(double **) _get_particle_var(nm, _particle) = ptr;"}[j]
            user += 'printf(" set %d:", bad);'
            for j in range(1, ty["user"] + 1):
                user += get(j) + {1: read[1], 2: read[2],
                                  3: "{ double * q = (double *) _get_particle_var(nm, _particle); printf(\" <%g %g %g>\", q[0], q[1], q[2]); }",
                                  4: "printf(\" <%d>\", *(double **) _get_particle_var(nm, _particle) == ptr);"}[j]
        out.append("TRACE %{\n" + section("trace", user) + "%}")
    for s, word in (("save", "SAVE"), ("final", "FINALLY"), ("disp", "MCDISPLAY")):
        if s in ty["secs"]:
            out.append(word + " %{\n" + section(s) + "%}")
    out.append("END")
    return "\n".join(out)


def instrument(rng, item):
    ins = item["instr"]
    d = ins["d"]
    out = [f"DEFINE INSTRUMENT generated(int qi = {d['pi']}, {rng.choice(['double ', ''])}qd = {d['pd']}, "
           f"string qs = {STRINGS[d['ps']][0]})",
           "DECLARE %{ double gnum = 7; char * gstr = \"abc\"; double gvec[3] = {4, 5, 6}; int givec[3] = {4, 5, 6}; %}"]
    note = lambda ph: f'printf("N {ph} 0 [%d] [%g]", qi, qd); say_hex(qs); printf("\\n");'
    if "init" in ins["secs"]:
        out.append("INITIALIZE %{ " + note("init") + (" gnum = 3*qd; qi += 1;" if ins["bump"] else "") + " %}")
    out.append("TRACE")
    for i, inst in enumerate(item["insts"], 1):
        ty = item["types"][inst["t"] - 1]
        pars = [f"a{j} = {given(rng, p, g)}" for j, (p, g) in enumerate(zip(ty["pars"], inst["give"]), 1) if g["s"] != "dflt"]
        rng.shuffle(pars)
        out.append(f"COMPONENT c{i} = T{inst['t']}({', '.join(pars)}) AT (0, 0, {i}) ABSOLUTE")
    for s, word in (("save", "SAVE"), ("final", "FINALLY")):
        if s in ins["secs"]:
            out.append(word + " %{ " + note(s) + " %}")
    out.append("END")
    return "\n".join(x for x in out if x)


def g(v):
    return f"{v:g}"


def line(item, n):
    """The line which the program should print for an event of the model."""
    if n["ph"] == "name":
        return f"MCDISPLAY: component c{n['who']}"
    out = f"N {n['ph']} {n['who']}"
    if n["who"] == 0:
        return out + f" [{n['vals'][0][0]}] [{g(n['vals'][1][0])}] [{hexed(STRINGS[n['vals'][2][0]][1])}]"
    ty = item["types"][item["insts"][n["who"] - 1]["t"] - 1]
    for p, v in zip(ty["pars"], n["vals"]):
        if p["k"] == "str":
            out += f" [{hexed(STRINGS[v[0]][1])}]"
        elif p["k"].endswith("vec"):
            out += " [" + "".join(f"{g(x)} " for x in v) + ("]" if v else "NULL]")
        else:
            out += f" [{g(v[0])}]"
    for v in n["priv"]:
        out += " {" + "".join(f"{g(x)} " for x in v) + "}"
    if n["ph"] == "trace" and ty["user"]:
        out += "".join(f" <{x}>" for x in n["user"][:2]) + " set 0:"
        i = n["who"]
        out += "".join([f" <{10 * i + 1}>", f" <{10 * i + 2}>", f" <{10 * i + 3} {10 * i + 3} {10 * i + 3}>", " <1>"][:ty["user"]])
    return out


def replay(item):
    rng = random.Random(json.dumps(item, sort_keys=True))
    ins = item["instr"]
    text = instrument(rng, item)
    comps = {}
    for t, ty in enumerate(item["types"], 1):
        comps[f"T{t}"] = component(rng, t, ty, item)
    show = text + "\n" + "\n".join(comps[f"T{t}"] for t in sorted({i["t"] for i in item["insts"]}))
    args = []
    for k, n in (("pi", "qi"), ("pd", "qd"), ("ps", "qs")):
        if k in ins["given"]:
            v = ins["run"][k]
            args.append(f"{n}={STRINGS[v][1] if k == 'ps' else v}")
    rng.shuffle(args)
    flavor = rng.choice(["mcstas", "mcxtrace"])
    try:
        instr = cprog.parse(text, comps)
        with cprog.Program(cprog.generate(instr, flavor)) as prog:
            lines = prog.run(args + ["-n", str(item["rays"])] + ["-t"], stdin="\n")
    except cprog.ProgramError as error:
        return [dict(kind="program", detail=f"{error}\n{show}")]
    want = [line(item, n) for n in item["log"]]
    at = len([n for n in item["log"] if n["ph"] == "init"])
    want[at:at] = [line(item, n) for n in item["shown"]]
    lines = lines[:lines.index("PHASE display")]     # shown again after everything has been released
    got = [x.rstrip("\n") for x in lines if x.startswith(("N ", "MCDISPLAY: component"))]
    if got != want:
        k = next((k for k, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
        a, b = (want[k:k + 1] or ["nothing"])[0], (got[k:k + 1] or ["nothing"])[0]
        return [dict(kind="log", detail=f"event {k}: expected {a!r}, the program has {b!r} ({flavor}, arguments {args})\n{show}")]
    return []


INV = ("OncePerPhase", "InOrder", "OwnValues", "PrivateCounts", "FreshPerParticle")
ALL = '{"init", "trace", "save", "final", "disp"}'
PRIV = """{<<>>, <<[k |-> "int", i |-> <<3>>], [k |-> "arr", i |-> <<1, 2, 3>>]>>, <<[k |-> "chars", i |-> <<97, 98>>]>>,
 <<[k |-> "two", i |-> <<1, 2, 3, 4>>], [k |-> "zero", i |-> <<0>>]>>, <<[k |-> "dbl", i |-> <<-2>>], [k |-> "struct", i |-> <<5, 6>>]>>,
 <<[k |-> "call", i |-> <<4, 9>>]>>, <<[k |-> "word", i |-> <<65, 66, 67>>], [k |-> "auto", i |-> <<7, 8>>]>>, <<[k |-> "list", i |-> <<0, 4>>]>>}"""
BASE = dict(MaxTypes="1", MaxInst="2", MaxPars="1", Kinds='{"num", "int", "str", "vec", "ivec"}', Sources='{"dflt", "lit", "ipar", "expr", "glob"}',
            Values="{2, -3}", StrIds="{1, 4}", Vectors="{<<1, 2, 3>>}", SectionSets="{" + ALL + "}", Privates="{<<>>}", Users="{0}", Rays="1",
            Sampling="FALSE")


def p11(check):
    t = check.thorough
    pick = lambda recs, n: recs if len(recs) <= n else recs[check.seed % max(1, len(recs) // n)::max(1, len(recs) // n)]
    check.assume("the C runtime is a stand-in which calls init, raytrace, save, finally and display of the generated program")
    check.assume("arrays and pointers among per-particle variables are set before they are read, as the translator's warning asks")
    c = dict(BASE, Values="{2}", StrIds="{1}", Vectors="{<<1, 2, 3>>}")
    r = check.model("parameters of each kind", tlc("Lifecycle", c, spec="SpecFixed", invariants=INV, workers=8, timeout=400))
    check.run("parameters of each kind", replay, pick(r.records, 2000 if t else 120))
    c = dict(BASE, MaxTypes="3", MaxInst="5", MaxPars="4", Values="{0, 1, -3, 12}", StrIds="0..11", Vectors="{<<1, 2, 3>>, <<-5>>, <<0, 7>>}",
             SectionSets="SUBSET " + ALL, Privates=PRIV, Users="0..4", Rays="2", Sampling="TRUE")
    n = 4000 if t else 260
    r = check.model("sampled instruments", tlc("Lifecycle", c, invariants=INV, simulate=n // 4, depth=30, seed=check.seed, timeout=600), exhaustive=False)
    check.run("sampled instruments", replay, r.records)
    check.need(len(r.records) > n * 3 // 4, "sampled instruments")
    c = dict(c, MaxTypes="2", MaxInst="13", MaxPars="2")
    n = 600 if t else 40
    r = check.model("long instruments", tlc("Lifecycle", c, invariants=INV, simulate=n // 4, depth=40, seed=check.seed, timeout=600), exhaustive=False)
    check.run("long instruments", replay, r.records)


CHECKS = dict(P11=p11)
