"""P16: component definitions made from others follow spec/CompDef.tla."""
import shutil
import zlib

import offline  # noqa: F401
from common import tlc, scratch

NAMES = ["Zeta", "Alpha", "Mid", "Base_1", "Deep", "alpha", "Yard"]
SECTIONS = dict(share="SHARE", user="USERVARS", declare="DECLARE", initialize="INITIALIZE", trace="TRACE", save="SAVE",
                final="FINALLY", display="MCDISPLAY")
TYPES = [("double ", "{}.5"), ("int ", "{}"), ("string ", '"t{}"'), ("", "{}e2"), ("vector ", "{{{},2}}"), ("double *", "{{1,{}}}"), ("int *", "{{{},4}}")]
BODY = dict(share="int sh_{0};", user="double u_{0};", declare="double d_{0};", initialize="init({0});", trace="trace({0});",
            save="save({0});", final="final({0});", display="display({0});")


def names_of(rec):
    shift = zlib.crc32(repr(rec["defs"]).encode()) % len(NAMES)
    return [NAMES[(i + shift) % len(NAMES)] for i in range(len(rec["defs"]))]


def par_type(i, n, kinds=len(TYPES)):
    return TYPES[(i * 3 + zlib.crc32(n.encode())) % kinds]


def par_default(i, n):
    """Whether the definition gives the parameter a default"""
    return (i + len(n)) % 3 != 0


def par_text(i, n, k):
    t, v = par_type(i, n)
    return f"{t}{n}={v.format(i)}" if par_default(i, n) else f"{t}{n}"


def body(i, s):
    return BODY[s].format(i)


def text(rec, names, i):
    d = rec["defs"][i - 1]
    out = [f"DEFINE COMPONENT {names[i - 1]}" + (f" COPY {names[d['base'] - 1]}" if d["base"] else "")]
    for kind, word in (("define", "DEFINITION"), ("setting", "SETTING"), ("output", "OUTPUT")):
        pars = [par_text(i, p["n"], kind) for p in d["pars"] if p["k"] == kind]
        if pars:
            out.append(f"{word} PARAMETERS ({', '.join(pars)})")
    if d["cat"] != "none":
        out.append(f"CATEGORY cat{i}" if d["cat"] == "word" else f'CATEGORY "cat{i}"')
    for m in sorted(d["md"]):
        out.append(f'METADATA "text/plain" {m} %{{\nfrom {i}\n%}}')
    if d["dep"]:
        out.append(f'DEPENDENCY "-DDEP{i}"')
    if d["noacc"]:
        out.append("NOACC")
    for s, word in SECTIONS.items():
        x = d["sec"][s]
        own = f"%{{\n  {body(i, s)}\n%}}"
        if x["k"] == "own":
            out.append(f"{word} {own}")
        elif x["k"] in ("copy", "ext"):
            out.append(f"{word} COPY {names[x['of'] - 1]}" + (f" EXTEND {own}" if x["k"] == "ext" else ""))
    return "\n".join(out) + "\nEND\n"


def expected(rec, names, i):
    """What the model says the definition is, in the terms of shown()"""
    r = rec["known"][i - 1][0]

    def par(p):
        t, v = par_type(p["by"], p["n"])
        kind = "str" if t == "string " else "int" if t.startswith("int") else "float"
        return p["n"], kind, "vector" if t in ("vector ", "double *", "int *") else "scalar", \
            value_text(v.format(p["by"])) if par_default(p["by"], p["n"]) else None
    out = {k: [par(p) for p in r["pars"][k]] for k in ("define", "setting", "output")}
    out.update({s: [body(b["d"], s) for b in r["sec"][s]] for s in SECTIONS})
    out["metadata"] = sorted((m["n"], f"from {m['by']}") for m in r["md"])
    out["category"] = f"cat{r['cat']}" if r["cat"] else "UNKNOWN"
    out["acc"] = r["acc"]
    out["flags"] = [f"-DDEP{k}" for k in r["deps"]]
    out["name"] = names[i - 1]
    return out


def value_text(v):
    if v.startswith("{"):
        return [float(x) for x in v[1:-1].split(",")]
    return v if v.startswith('"') else float(v)


def shown(comp):
    def default(p):
        v = p.value
        if not v.has_value:
            return None
        v = v.value if hasattr(v, "value") else v
        return [float(str(x)) for x in v] if isinstance(v, (list, tuple)) else v if isinstance(v, str) else float(v)

    def par(p):
        return p.name, p.value.data_type.name, p.value.shape_type.name, default(p)
    out = {k: [par(p) for p in getattr(comp, k)] for k in ("define", "setting", "output")}
    out.update({s: [b.source.strip() for b in getattr(comp, s)] for s in SECTIONS})
    out["metadata"] = sorted((m.name, str(m.value).strip()) for m in comp.metadata)
    out["category"], out["acc"], out["name"] = comp.category, comp.acc, comp.name
    out["flags"] = (comp.dependency or "").split()
    return out


def compare(rec, names, i, comp, say, when):
    want, got = expected(rec, names, i), shown(comp)
    for k in want:
        if want[k] != got[k]:
            say(k, f"{when}: {k} of {names[i - 1]} is {got[k]} instead of {want[k]}")


def sources(rec, names):
    return {f"{n}.comp": text(rec, names, i + 1) for i, n in enumerate(names)}


def registry(files, local):
    from mccode_antlr.reader.registry import InMemoryRegistry, LocalRegistry
    if not local:
        reg = InMemoryRegistry("defs")
        for n, t in files.items():
            reg.add(n, t)
        return reg, None
    d = scratch("verif-comp-")
    for n, t in files.items():
        (d / n).write_text(t)
    return LocalRegistry("defs", str(d)), d


def replay_reader(rec):
    from mccode_antlr.reader import Reader
    names, bad = names_of(rec), []
    files = sources(rec, names)
    say = lambda kind, what: bad.append(dict(kind=kind, detail=f"{what}\n" + "\n".join(files[f"{names[j]}.comp"] for j in range(len(names)))))
    reg, d = registry(files, len(repr(rec)) % 3 == 0)
    index = {n: i + 1 for i, n in enumerate(names)}
    try:
        reader, held = Reader(registries=[reg]), {}
        for step, i in enumerate(rec["uses"]):
            comp = reader.get_component(names[i - 1])
            if comp.name != names[i - 1]:
                say("name", f"use {step + 1}: asked for {names[i - 1]}, got {comp.name}")
            for n, c in reader.components.items():
                if n in held and held[n] is not c:
                    say("again", f"use {step + 1}: {n} was read again")
                held[n] = c
                if not rec["known"][index[n] - 1]:
                    say("read", f"use {step + 1}: {n} was read though nothing needs it")
                else:
                    compare(rec, names, index[n], c, say, f"use {step + 1}")
        want = {names[i] for i, k in enumerate(rec["known"]) if k}
        if set(reader.components) != want:
            say("read", f"{sorted(reader.components)} were read instead of {sorted(want)}")
        if reader.c_flags != [f"-DDEP{i}" for i in rec["flags"]]:
            say("collected", f"the collected flags are {reader.c_flags} instead of {rec['flags']}")
        # what is done to one definition is not done to another
        from mccode_antlr.common import ComponentParameter, Expr, MetaData
        read = sorted(held)
        k = len(repr(rec)) % len(read)
        held[read[k]].add_setting(ComponentParameter(name="late", value=Expr.float(1)))
        held[read[k]].TRACE(("file", 1, "late;"))
        held[read[k]].no_acc()
        held[read[k]].add_metadata(MetaData.from_component_tokens(source="late", mimetype="text/plain", name="late", value="late"))
        for n in read:
            if n != read[k]:
                compare(rec, names, index[n], held[n], say, f"after changing {read[k]}")
    except Exception as e:
        say("refused", f"refused: {e!r}")
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)
    return bad


def replay_instrument(rec):
    """The same order of first uses by the instances of an instrument."""
    from mccode_antlr.loader.loader import parse_mcstas_instr
    from mccode_antlr.instr import InstrVisitor
    from mccode_antlr.grammar import McInstr_parse
    from mccode_antlr.reader import Reader
    from antlr4 import InputStream
    names, bad = names_of(rec), []
    files = sources(rec, names)
    needs = lambda i: [p["n"] for k in ("define", "setting") for p in rec["known"][i - 1][0]["pars"][k] if not par_default(p["by"], p["n"])]
    lines = []
    for step, i in enumerate(rec["uses"]):
        given = []
        for k in ("define", "setting"):
            for p in rec["known"][i - 1][0]["pars"][k]:
                if not par_default(p["by"], p["n"]):
                    given.append(f"{p['n']}={par_type(p['by'], p['n'])[1].format(7)}")
        lines.append(f"COMPONENT c{step} = {names[i - 1]}({', '.join(given)}) AT (0,0,{step}) ABSOLUTE")
    main = "DEFINE INSTRUMENT main()\nDEPENDENCY \"-DMAIN\"\nTRACE\n" + "\n".join(lines) + "\nEND\n"
    say = lambda kind, what: bad.append(dict(kind=kind, detail=f"{what}\n{main}" + "\n".join(files.values())))
    reg, d = registry(files, len(repr(rec)) % 3 == 0)
    try:
        reader = Reader(registries=[reg])
        visitor = InstrVisitor(reader, "main.instr")
        instr = visitor.visitProg(McInstr_parse(InputStream(main), "prog"))
        instr.flags += tuple(reader.c_flags)
        for step, (i, c) in enumerate(zip(rec["uses"], instr.components)):
            compare(rec, names, i, c.type, say, f"instance {step + 1}")
        if len(instr.components) != len(rec["uses"]):
            say("instances", f"{len(instr.components)} instances")
        want = {"-DMAIN"} | {f"-DDEP{i}" for i in rec["flags"]}
        if set(instr.flags) != want or len(instr.flags) != len(want):
            say("collected", f"the flags are {instr.flags} instead of {sorted(want)}")
    except Exception as e:
        say("refused", f"refused: {e!r}")
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)
    return bad


def quoted(xs):
    return "{" + ", ".join(f'"{x}"' for x in xs) + "}"


INV = ("ReadingIsResolving", "Inherits", "FlagsOnce", "NeedsRead")


def constants(**k):
    c = dict(NDefs="3", Sections=quoted(["trace"]), SecKinds=quoted(["none", "own", "copy", "ext"]), ParNames="{}", ParKinds=quoted(["setting"]),
             MaxPars="0", MdNames="{}", Cats=quoted(["none"]), Accs="{FALSE}", Deps="{FALSE}", MaxUses="2", Sampling="FALSE")
    c.update(k)
    return c


def p16(check):
    check.assume("a copied definition restates a parameter within the kind of parameters the base has it in")
    check.assume("no definition copies itself, directly or through others")
    t = check.thorough
    props = ("Stable",)
    # every derivation of three definitions with one or two sections, every order of first use
    for label, k in (("sections", dict(Sections=quoted(["initialize", "trace"]), MaxUses="2")),
                     ("parameters", dict(Sections=quoted(["trace"]), SecKinds=quoted(["none", "own"]), ParNames=quoted(["p", "q"]),
                                         MaxPars="2", MaxUses="1", NDefs="2", ParKinds=quoted(["setting", "define", "output"]))),
                     ("headers", dict(Sections=quoted(["share"]), SecKinds=quoted(["none", "own", "ext"]), MdNames=quoted(["m"]),
                                      Cats=quoted(["none", "word", "quoted"]), Accs="BOOLEAN", Deps="BOOLEAN", MaxUses="1", NDefs="2"))):
        r = check.model(f"every {label}", tlc("CompDef", constants(**k), invariants=INV, properties=props, workers=8, heap="8g", timeout=400))
        step = max(1, len(r.records) // (20000 if t else 2500))
        check.run(f"every {label}, through Reader", replay_reader, r.records[check.seed % step::step], chunk=100)
        check.run(f"every {label}, through instruments", replay_instrument, r.records[(check.seed + 1) % step::step * (2 if step > 1 else 1)], chunk=100)
    everything = dict(Sections=quoted(SECTIONS), ParNames=quoted(["p", "q", "length", "w2"]), ParKinds=quoted(["setting", "define", "output"]),
                      MdNames=quoted(["m", "other"]), Cats=quoted(["none", "word", "quoted"]), Accs="BOOLEAN", Deps="BOOLEAN", Sampling="TRUE")
    for n, uses, pars in ((2, 2, 2), (4, 4, 3), (6, 6, 3)):
        c = constants(NDefs=str(n), MaxUses=str(uses), MaxPars=str(pars), **everything)
        r = check.model(f"sampled, {n} definitions",
                        tlc("CompDef", c, invariants=INV, properties=props, simulate=4000 if t else 500, depth=400, seed=check.seed + n,
                            timeout=400), exhaustive=False)
        check.run(f"sampled, {n} definitions, through Reader", replay_reader, r.records, chunk=20)
        check.run(f"sampled, {n} definitions, through instruments", replay_instrument, r.records, chunk=20)
        check.need(len(r.records) > 200, "sampled definitions")


CHECKS = dict(P16=p16)
