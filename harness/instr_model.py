"""The tokens of spec/Instrument.tla: their text, their meaning, and how to read both off a real Instr."""
import math
import random
import re

import offline  # noqa: F401
import cprog

COMPS = {
    "Arm": "DEFINE COMPONENT Arm\nEND\n",
    "Det": """DEFINE COMPONENT Det
SETTING PARAMETERS (double len=1.5, int num=3, string txt="none", vector vec={1,2})
METADATA text m1 %{ of the type %}
TRACE
%{ SCATTER; %}
END
""",
}
COMPS["MCPL_output"] = COMPS["Writer"] = """DEFINE COMPONENT MCPL_output
SETTING PARAMETERS (string filename=0, int verbose=1)
DEPENDENCY "-DWRITER"
TRACE
%{ SCATTER; %}
END
"""
COMPS["MCPL_input"] = COMPS["Reader"] = COMPS["MCPL_output"].replace("MCPL_output", "MCPL_input").replace("WRITER", "READER")
for _k in ("Writer", "Reader"):
    COMPS[_k] = re.sub("MCPL_[a-z]+", _k, COMPS[_k])
COMPS["Slot"] = COMPS["Det"].replace("Det", "Slot").replace(
    "TRACE", 'MetaData "text/x-2" m2 %{ second of the type%}\nMETADATA text m1 %{ again of the type %}\nTRACE')
COMPS["Flg"] = COMPS["Det"].replace("Det", "Flg").replace("TRACE", 'DEPENDENCY "-DDEP9"\nTRACE')
COMPS["Cpu"] = COMPS["Det"].replace("Det", "Cpu").replace("TRACE", "NOACC\nTRACE")

VALUES = {  # (parameter, token): text, and a function of the environment (or exact text)
    ("len", 1): ("2.5", lambda e: 2.5), ("len", 2): ("pa", lambda e: e["pa"]),
    ("len", 3): ("2*pab+1", lambda e: 2 * e["pab"] + 1),
    ("len", 4): ("pa*(pab-1)/-2", lambda e: e["pa"] * (e["pab"] - 1) / -2),
    ("len", 5): ("sin(pab)", lambda e: math.sin(e["pab"])),
    ("len", 6): ("xpa+pa_2-pa", lambda e: -e["pa"]),
    ("txt", 4): ('"pa"', '"pa"'), ("txt", 5): ('"ps, pab"', '"ps, pab"'),
    ("num", 1): ("7", lambda e: 7), ("num", 2): ("pn", lambda e: e["pn"]),
    ("num", 3): ("3-(pn-5)", lambda e: 3 - (e["pn"] - 5)),
    ("txt", 1): ('"word"', '"word"'), ("txt", 2): ("ps", "ps"), ("txt", 3): ('"a b"', '"a b"'), ("txt", 7): ("NULL", "NULL"),
    ("txt", 8): ("PREVIOUS", None), ("txt", 9): ("MYSELF", None),
    ("vec", 1): ("{3, 4}", [3, 4]), ("vec", 2): ("{0.5,1,-2}", [0.5, 1, -2]),
    ("vec", 3): ("{pa, 3*-pab, 0.25}", [lambda e: e["pa"], lambda e: -3 * e["pab"], 0.25]),
    ("nopar", 1): ("1", None),
}
WHENS = {1: ("flag == 1", lambda e: e["flag"] == 1), 2: ("pa > 1", lambda e: e["pa"] > 1),
         3: ("(pn < 2 && flag > 0)", lambda e: e["pn"] < 2 and e["flag"] > 0),
         4: ("flag", lambda e: e["flag"]), 5: ("flag > pab/2", lambda e: e["flag"] > e["pab"] / 2)}
SPLITS = {1: ("", lambda e: 10), 2: ("3", lambda e: 3), 3: ("pn", lambda e: e["pn"]), 4: ("2*pa", lambda e: 2 * e["pa"])}
EXTENDS = {1: "flag = SCATTERED; int spare = 1;", 2: "flag = pab > 0;", 3: "\n  if (pa > 0) {\n    flag = 2; \n  }\n"}
JUMPS = {1: ("WHEN", "flag > 1", lambda e: e["flag"] > 1), 2: ("WHEN", "pn == 2", lambda e: e["pn"] == 2),
         4: ("WHEN", "pa < pab", lambda e: e["pa"] < e["pab"])}
MIME = {1: "text", 2: '"application/json"', 90: "text", 91: "text", 92: '"text/x-2"', 4: '"text/x; c=1"'}
MDTEXT = {1: "plain", 2: "{\"k\": \"v\",\n \"n\": [1, 2]}", 3: " spaced  ", 90: " of the type ",
          91: " again of the type ", 92: " second of the type",
          4: 'say "hi" \\n \'c\' 100%d //x /*y*/ \\', 6: "of pa, pab, pn and ps", 5: "a\tb\n\n \u00e9t\u00e9 \u2265 2\u00b5m\x0bface\n"}
BLOCKS = {
    "decl": {1: "double d1;", 2: "double twice(void) { return 2*pa; }", 3: "int spare3;", 5: "double t5[] = {1,2.5};"},
    "user": {1: "int flag;", 3: "double u3;"},
    "init": {1: "d1 = 1;", 2: "d1 = pa;", 4: "d1 = pab*2;\n  d1 += 1;"},
    "save": {1: "d1 = 2;", 2: "d1 = pa - 1;", 6: 'printf("%s\\n", ps);'},
    "fin": {1: "d1 = 3;", 4: "printf(\"%g\\n\", pab);"},
}
# names of parameters where they are not used (10 - 14) and where they are (15 - 19)
TRICKY = {10: "// pa, pab\n  /* pn */", 11: "/* pa\n pab // */ // pn /* ps", 12: "int pa_2 = 1, xpab;", 13: 'char * s13 = "pa + pab";',
          14: 'char * s14 = "\\\\\\" /* \\" pn //"; char * u14 = "*/ pa";', 15: "#define Q15 (pn)\n", 16: 'double d16 = sizeof("//") + pa;',
          17: "char c17 = '\"'; double d17 = 2*(pa); /* \" */", 18: "/* it's */ double d18 = pab; // it's",
          19: "double d19 = pa/pab; /* a */ /* b */"}
TRICKY_DECL = {16: 'double d16(void) { return sizeof("//") + pa; }', 17: "char c17 = '\"'; double d17(void) { return 2*(pa); } /* \" */",
               18: "/* it's */ double d18(void) { return pab; } // it's", 19: "double d19(void) { return pa/pab; } /* a */ /* b */"}
for _k, _v in TRICKY.items():
    EXTENDS[_k] = _v
    for _s in ("decl", "init", "save", "fin"):
        BLOCKS[_s][_k] = TRICKY_DECL.get(_k, _v) if _s == "decl" else _v
BLOCKS["user"].update({_k: TRICKY[_k] for _k in (10, 11, 12)})
BLOCKS["decl"][20] = "double d1, xpa, pa_2;"
SECTION = dict(decl="DECLARE", user="USERVARS", init="INITIALIZE", save="SAVE", fin="FINALLY")
ATTR = dict(decl="declare", user="user", init="initialize", save="save", fin="final")
DEFAULTS = {("double", 1): ("1.5", 1.5), ("double", 2): ("-2e-3", -0.002), ("int", 1): ("4", 4), ("int", 2): ("-1", -1),
            ("string", 1): ('"file.dat"', '"file.dat"'), ("string", 2): ('"a b"', '"a b"')}
UNITS = {1: "m", 2: "1/AA"}


def hdr(name, pars=(), dep=0, decl=0, user=1, init=0, save=0, fin=0, md=()):
    return dict(name=name, pars=list(pars), dep=dep, decl=decl, user=user, init=init, save=save, fin=fin, md=list(md))


def par(n, t="double", d=0, u=0):
    return dict(n=n, t=t, d=d, u=u)


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla(x)}" for k, x in v.items()) + "]"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    return str(v)


def tlaset(items):
    return "{" + ", ".join(tla(x) for x in items) + "}"


# ------------------------------------------------------------------------------------ text
def metadata_text(m):
    name = f'"{m["n"]}"' if " " in m["n"] else m["n"]
    return f"METADATA {MIME.get(m['v'], 'text')} {name} %{{{MDTEXT[m['v']]}%}}"


def header_text(h, rng):
    ps = []
    for p in h["pars"]:
        s = {"double": rng.choice(["", "double "]), "int": "int ", "string": rng.choice(["string ", "char* "])}[p["t"]]
        s += p["n"]
        if p["u"]:
            s += rng.choice(["/", " / "]) + f'"{UNITS[p["u"]]}"'
        if p["d"]:
            s += rng.choice(["=", " = "]) + DEFAULTS[p["t"], p["d"]][0]
        ps.append(s)
    out = [f"DEFINE INSTRUMENT {h['name']}({', '.join(ps)})"]
    for m in h["md"]:
        out.append(metadata_text(m))
    if h["dep"]:
        out.append(f'DEPENDENCY "-DDEP{h["dep"]}"')
    for k in ("decl", "user", "init"):
        if h[k]:
            out.append(f"{SECTION[k]}\n%{{{BLOCKS[k][h[k]]}%}}")
    out.append("TRACE")
    return "\n".join(out) + "\n"


def footer_text(h):
    return "".join(f"{SECTION[k]} %{{{BLOCKS[k][h[k]]}%}}\n" for k in ("save", "fin") if h[k]) + "END\n"


def ref_text(r, rng):
    if r["k"] == "abs":
        return rng.choice(["ABSOLUTE", "ABSOLUTE", "RELATIVE ABSOLUTE"])
    return "RELATIVE " + bare_ref(r, rng)


def bare_ref(r, rng):
    if r["k"] == "name":
        return r["s"]
    return rng.choice(["PREVIOUS", "PREVIOUS(1)", "PREVIOUS (1)"]) if r["n"] == 1 else f"PREVIOUS({r['n']})"


def coord_text(v, sym, rng, scale=1):
    if sym:
        t = "" if scale == 1 else f"{scale}*"
        return f"{v - scale}+{t}pn" if v >= scale else f"{t}pn-{scale - v}"
    return rng.choice([str(v), f"{v}.0", str(v)])


def jump_text(j, rng):
    target = {"name": j["s"], "myself": "MYSELF", "prev": "PREVIOUS", "next": "NEXT"}[j["f"]]
    if j["f"] in ("prev", "next") and j["n"]:
        target += f"({j['n']})"
    if j["k"] == 3:
        return f"JUMP {target} ITERATE {j['m']}"
    return f"JUMP {target} {JUMPS[j['k']][0]} {JUMPS[j['k']][1]}"


def comp_text(st, rng):
    s = []
    if st["rem"]:
        s.append("REMOVABLE")
    if st["cpu"]:
        s.append("CPU")
    if st["split"]:
        s.append(("SPLIT " + SPLITS[st["split"]][0]).strip())
    nm = st["nm"]
    name = {"id": nm["s"], "copyid": f"COPY({nm['s']})", "anon": rng.choice(["COPY", "MYSELF"])}[nm["k"]]
    ty = st["ty"]
    if ty["k"] == "type":
        kind = ty["s"]
    else:
        kind = "COPY({})".format(ty["s"] if ty["n"] == 0 and ty["s"] else bare_ref(dict(k="prev", n=ty["n"]), rng))
    pv = ", ".join(f"{p['p']}={VALUES[p['p'], p['v']][0]}" for p in st["pv"])
    s.append(f"COMPONENT {name} = {kind}" + (f"({pv})" if pv else rng.choice(["", "()"])))
    if st["when"]:
        s.append("WHEN " + WHENS[st["when"]][0])
    at = ", ".join(coord_text(v, st["sym"] == i + 1, rng) for i, v in enumerate(st["at"]))
    s.append(f"AT ({at}) {ref_text(st['aref'], rng)}")
    if not st["norot"]:
        rot = ", ".join(coord_text(90 * q, True, rng, 90) if st["sym"] == i + 4 else str(90 * q) for i, q in enumerate(st["rot"]))
        s.append(f"ROTATED ({rot}) {ref_text(st['rref'], rng)}")
    if st["grp"]:
        s.append(f"GROUP g{st['grp']}")
    if st["ext"]:
        s.append("EXTEND %{" + EXTENDS[st["ext"]] + "%}")
    s += [jump_text(j, rng) for j in st["jump"]]
    for m in st["md"]:
        s.append(metadata_text(m))
    return rng.choice([" ", "\n  "]).join(s)


def render(script, seed):
    """The instrument file, and the files it includes."""
    rng = random.Random(f"{seed}/{script}")
    files, stack = {}, []

    def close():
        h, text = stack.pop()
        text += footer_text(h)
        if stack:
            files[h["name"]] = text
            stack[-1][1] += f'%include "{h["name"]}{rng.choice([".instr", ""])}"\n'
        else:
            files["/main"] = text

    for op in script:
        if op["op"] == "file":
            stack.append([op["hdr"], header_text(op["hdr"], rng)])
        elif op["op"] == "end":
            close()
        else:
            stack[-1][1] += comp_text(op["st"], rng) + "\n"
    while stack:
        close()
    return files.pop("/main"), files


def state_script(res):
    """A source which states a finished instrument outright: no includes, no copies, every reference by name"""
    def first(tokens):
        return tokens[0] if tokens else 0
    h = hdr(res["name"], res["pars"], 0, *(first(res[k]) for k in ("decl", "user", "init", "save", "fin")), res["md"])
    out = [dict(op="file", hdr=h)]
    for c in res["comps"]:
        ref = {k: dict(k="name" if c[k] else "abs", s=c[k], n=0) for k in ("aref", "rref")}
        st = {k: c[k] for k in ("pv", "when", "split", "ext", "grp", "rem", "at", "sym", "rot", "jump", "md")}
        out.append(dict(op="comp", st=dict(st, cpu=c["cpu"] and c["type"] != "Cpu", nm=dict(k="id", s=c["name"]),
                                           ty=dict(k="type", s=c["type"], n=0), norot=False, **ref)))
    return out


def parse_files(text, includes):
    """The same, from files in a directory"""
    import shutil
    import tempfile
    from pathlib import Path
    from mccode_antlr.reader import Reader
    from mccode_antlr.reader.registry import LocalRegistry
    d = Path(tempfile.mkdtemp(prefix="verif-instr-"))
    try:
        for k, v in COMPS.items():
            (d / f"{k}.comp").write_text(v)
        for k, v in includes.items():
            (d / f"{k}.instr").write_text(v)
        (d / "top_file.instr").write_text(text)
        return Reader(registries=[LocalRegistry("verifdir", str(d)), cprog.runtime_registry()]).get_instrument(d / "top_file.instr")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def parse(text, includes):
    return cprog.parse(text, COMPS, instrs=includes)


# ------------------------------------------------------------------------- reading a real Instr
ENVS = [dict(pa=1.75, pab=-0.5, pn=1, flag=1, ps=0), dict(pa=0.25, pab=3.5, pn=1, flag=2, ps=0),
        dict(pa=0.25, pab=3.5, pn=2, flag=0, ps=0)]
FUNCS = {k: getattr(math, k) for k in ("sin", "cos", "sqrt", "exp", "tan", "atan2", "acos", "asin", "fabs")}


def evaluate(text, env):
    """The value of a C-like expression text (independent of the code under test)."""
    text = str(text).replace("&&", " and ").replace("||", " or ")
    text = re.sub(r"!(?!=)", " not ", text).strip()
    return eval(text, {"__builtins__": {}}, {**FUNCS, **env})     # noqa: S307  (our own tokens)


def same_value(expr, func):
    try:
        return all(math.isclose(float(evaluate(expr, e)), float(func(e)), rel_tol=1e-9, abs_tol=1e-12) for e in ENVS)
    except Exception:
        return False


def number(expr, env=None):
    return float(evaluate(expr, env or ENVS[0]))


class Diff:
    def __init__(self):
        self.items = []

    def __call__(self, cond, what):
        if not cond:
            self.items.append(what)

    def eq(self, got, want, what):
        if got != want:
            self.items.append(f"{what}: expected {want!r}, found {got!r}")


def check_value(d, where, p, tok, s, value):
    text, want = VALUES[p, tok]
    if tok in (8, 9):
        d.eq(str(value).strip('"'), s, f"{where}.{p}")
    elif callable(want):
        d(same_value(value, want), f"{where}.{p}: expected the value of {text}, found {value}")
    elif isinstance(want, list):
        got = re.sub(r"[{}\[\]()]", "", str(value)).split(",")
        try:
            for e in ENVS:
                d.eq([evaluate(x, e) for x in got], [x(e) if callable(x) else x for x in want], f"{where}.{p}")
        except Exception:
            d(False, f"{where}.{p}: expected {want}, found {value}")
    else:
        d.eq(str(value), want, f"{where}.{p}")


def check_component(d, c, inst, names, jumps=True, pose=True):
    w = f"component {c['name']}"
    d.eq(inst.name, c["name"], f"{w} name")
    d.eq(inst.type.name, c["type"], f"{w} type")
    d.eq([p.name for p in inst.parameters], [p["p"] for p in c["pv"]], f"{w} parameters set")
    for p, q in zip(c["pv"], inst.parameters):
        check_value(d, w, p["p"], p["v"], p["s"], q.value)
    for key, tokens, got in (("when", WHENS, inst.when), ("split", SPLITS, inst.split)):
        if c[key]:
            d(got is not None and same_value(got, tokens[c[key]][1]), f"{w} {key}: expected {tokens[c[key]][0] or 10}, found {got}")
        else:
            d(got is None, f"{w} {key}: not stated, found {got}")
    d.eq(inst.group, f"g{c['grp']}" if c["grp"] else None, f"{w} GROUP")
    d.eq([str(b).strip() for b in inst.extend], [EXTENDS[c["ext"]].strip()] if c["ext"] else [], f"{w} EXTEND")
    d.eq(bool(inst.removable), c["rem"], f"{w} REMOVABLE")
    d.eq(bool(inst.cpu), c["cpu"], f"{w} CPU")
    check_metadata(d, w, c["md"], inst.metadata, "Instance", c["name"])
    for which, vec, ref, (v, r), scale in (("AT", c["at"], c["aref"], inst.at_relative, 1),
                                           ("ROTATED", c["rot"], c["rref"], inst.rotate_relative, 90)):
        if vec is not None:
            for k, (a, b) in enumerate(zip(vec, v)):
                try:
                    ok = abs(number(b) - scale * a) < 1e-6
                except Exception:
                    ok = False
                d(ok, f"{w} {which}[{k}]: expected {scale * a}, found {b}")
        if ref is not None:
            d.eq(r.name if r is not None else "", ref, f"{w} {which} reference")
            d(r is None or any(r is x for x in names), f"{w} {which} reference {ref} is not this instrument's component")
    for which, at, (v, _), first, scale in (("AT", c["at"], inst.at_relative, 1, 1), ("ROTATED", c["rot"], inst.rotate_relative, 4, 90)):
        k = c.get("sym", 0) - first
        if 0 <= k < 3 and at is not None:
            d(abs(number(v[k], ENVS[2]) - scale * (at[k] + 1)) < 1e-6, f"{w} {which}[{k}] does not follow pn: {v[k]}")
    if jumps:
        d.eq(len(inst.jump), len(c["jump"]), f"{w} JUMPs")
        for j, r in zip(c["jump"], inst.jump):
            check_jump(d, w, j, r)


def check_jump(d, w, j, r):
    n = max(1, j["n"])
    if j["f"] == "name":
        d.eq(r.target, j["s"], f"{w} JUMP target")
    else:
        d.eq((r.relative_target, re.sub(r"[^A-Z]", "", r.target.upper())),
             {"prev": (-n, "PREVIOUS"), "next": (n, "NEXT"), "myself": (0, "MYSELF")}[j["f"]], f"{w} JUMP target")
    d.eq(bool(r.iterate), j["k"] == 3, f"{w} JUMP ITERATE")
    want = (lambda e: j["m"]) if j["k"] == 3 else JUMPS[j["k"]][2]
    d(same_value(r.condition, want), f"{w} JUMP condition {r.condition}")


def check_metadata(d, w, want, got, owner, name):
    d.eq([(m.name, m.mimetype.strip('"'), m.value, m.source.type_name, m.source.name) for m in got],
         [(m["n"], MIME.get(m["v"], "text").strip('"'), MDTEXT[m["v"]], owner, name) for m in want], f"{w} METADATA")


def check_groups(d, want, instr, where="GROUPs"):
    d.eq({k: list(g.ids) for k, g in instr.groups.items()}, {f"g{g['g']}": [i - 1 for i in g["ids"]] for g in want}, where)
    for k, g in instr.groups.items():
        d.eq(g.name, k, f"{where} name")
        d([m is instr.components[i] for i, m in zip(g.ids, g.members) if i < len(instr.components)] == [True] * len(g.ids),
          f"{where} {k}: members are not the instrument's components")


def check_parameters(d, want, got, where="parameters"):
    d.eq([p.name for p in got], [p["n"] for p in want], where)
    for p, q in zip(want, got):
        kind = "string" if q.value.is_str else "int" if q.value.data_type.name == "int" else "double"
        d.eq(kind, p["t"], f"{where} {p['n']} type")
        d.eq((q.unit or "").strip('"'), UNITS.get(p["u"], ""), f"{where} {p['n']} unit")
        d.eq(bool(q.value.has_value), bool(p["d"]), f"{where} {p['n']} has a default")
        if p["d"] and q.value.has_value:
            want_v = DEFAULTS[p["t"], p["d"]][1]
            if isinstance(want_v, str):
                d.eq(str(q.value), want_v, f"{where} {p['n']} default")
            else:
                d(same_value(q.value, lambda e: want_v), f"{where} {p['n']} default: expected {want_v}, found {q.value}")


def strip_code(text):
    return "\n".join(x.strip() for x in str(text).strip().splitlines())


def check_blocks(d, res, instr, joined=False):
    for k, attr in ATTR.items():
        want = [strip_code(BLOCKS[k][t]) for t in res[k]]
        got = [strip_code(b) for b in getattr(instr, attr)]
        if joined:
            want, got = "\n".join(want), "\n".join(got)
        d.eq(got, want, f"{SECTION[k]} blocks")


def check_instrument(res, instr, joined=False, included=True, jumps=True, groups=True):
    """Differences between the meaning the specification gives and the real instrument."""
    d = Diff()
    d.eq(instr.name, res["name"], "instrument name")
    check_parameters(d, res["pars"], instr.parameters)
    d.eq([c.name for c in instr.components], [c["name"] for c in res["comps"]], "components")
    for c, inst in zip(res["comps"], instr.components):
        check_component(d, c, inst, instr.components, jumps)
    if groups:
        check_groups(d, res["groups"], instr)
    check_blocks(d, res, instr, joined)
    d.eq([(m.name, m.mimetype.strip('"'), m.value) for m in instr.metadata],
         [(m["n"], MIME.get(m["v"], "text").strip('"'), MDTEXT[m["v"]]) for m in res["md"]], "instrument METADATA")
    flags, want = [str(f) for f in instr.flags], [f"-DDEP{n}" for n in res["deps"]]
    d.eq(" ".join(flags).split() if joined else flags, want, "DEPENDENCY flags")
    if included:
        d.eq(list(instr.included), res["incl"], "included")
    return d.items
