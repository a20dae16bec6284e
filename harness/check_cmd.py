"""P23: the command line translators follow spec/Command.tla."""
import ast
import contextlib
import io
import os
import re
import shutil
import subprocess
import sys
import zlib
from pathlib import Path

import offline  # noqa: F401
from common import tlc, scratch
from cprog import RUNTIME

NUMBER = dict(d1=11, d2=22, d3=33, cwd=44, home=55, base=66, seen=77, stored=88)
FOLDER = dict(d1="first dir", d2="second", d3="third/deep", cwd="work", home="home", base="base", seen="seen")
FANCY = dict(mcstas="McStas", mcxtrace="McXtrace")


def comp_text(kind, place):
    return f"DEFINE COMPONENT {kind} SETTING PARAMETERS (int v={NUMBER[place]})\nTRACE %{{ ; %}}\nEND\n"


def instr_text(rec, place, top):
    """The same instrument but for a number which says where it is; its text has all that is awkward within a C string"""
    body = "\n".join(f"COMPONENT c{i} = {k}() AT (0, 0, {i}) ABSOLUTE" for i, k in enumerate(rec["uses"]))
    search = f'SEARCH "{top / FOLDER["seen"]}"\n' if rec["search"] else ""
    return (f'/* "quoted" \\n back\\slash %s \ttab, µ ?\x3f= 0x41f */\nDEFINE INSTRUMENT Run(int where={NUMBER[place]}, string s="a\\tb")\n'
            f"{search}INITIALIZE %{{ /* \"x\" */ %}}\nTRACE\n{body}\nEND\n")


def stem(rec):
    return "Run.v1.2" if rec["dotted"] else "Run"


def words(rec, top):
    out = []
    for i, c in enumerate(rec["call"]):
        k, x = c["w"], c.get("x", "")
        if k == "file":
            s = stem(rec)
            out += [{"here": f"{s}.instr", "bare": "Run" if s == "Run" else f"{s}.instr", "dotted": f"../work/./{s}.instr",
                     "home": str(top / "home" / f"{s}.instr") if i % 2 else f"../home/{s}.instr", "h5": f"../home/{s}.h5"}[x]]
        elif k == "I":
            d = str(top / FOLDER[x]) if i % 2 else f"../{FOLDER[x]}"
            out += [["-I", d], ["--search-dir", d], [f"-I{d}"], [f"--search-dir={d}"]][i % 4]
        elif k == "o":
            f = {"named": "named.c", "away": "../away/of here.c", "nowhere": "../missing/x.c", "full": str(top / "away" / "full.c")}[x]
            out += [["-o", f], ["--output-file", f], [f"--output-file={f}"]][i % 3]
        else:
            out += [{"trace": ["-t", "--trace"], "portable": ["-p", "--portable"], "source": ["--source"] * 2, "nomain": ["--no-main"] * 2,
                     "verbose": ["--verbose"] * 2, "version": ["-v", "--version"], "unknown": ["--nothing", "-z"]}[k][i % 2]]
    return out


def snapshot(top):
    return {str(p.relative_to(top)): p.read_bytes() for p in top.rglob("*") if p.is_file()}


@contextlib.contextmanager
def called(flavor, argv, cwd, registry):
    import mccode_antlr.reader as reader
    name = f"{flavor.upper()}_REGISTRY"
    saved = sys.argv, os.getcwd(), getattr(reader, name)
    sys.argv = [flavor, *argv]
    os.chdir(cwd)
    # the flavor's own source is replaced wherever it is known
    known = [(m, k) for n, m in list(sys.modules.items()) if n.split(".")[0] == "mccode_antlr" for k, v in list(vars(m).items()) if v is saved[2]]
    for m, k in known:
        setattr(m, k, registry)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            yield out
    finally:
        sys.argv = saved[0]
        os.chdir(saved[1])
        for m, k in known:
            setattr(m, k, saved[2])


def translate(flavor, argv, cwd, registry):
    """None, or what went wrong"""
    from mccode_antlr.cli import commands
    with called(flavor, argv, cwd, registry):
        try:
            getattr(commands, flavor)()
        except SystemExit as e:
            return None if e.code in (0, None) else e
        except Exception as e:
            return e


def library(instr, flavor, **config):
    from mccode_antlr.compiler.c import instrument_source
    from mccode_antlr.translators import target
    gen = target.MCSTAS_GENERATOR if flavor == "mcstas" else target.MCXTRACE_GENERATOR
    with contextlib.redirect_stdout(io.StringIO()):
        return instrument_source(instr, gen, dict(dict(default_main=True, enable_trace=False, portable=False, include_runtime=True,
                                                       embed_instrument_file=False, verbose=False), **config))


def timeless(text):
    return [x for x in text.splitlines() if not re.match(r"\s*\* (Date|File|Instrument):", x) and "embedding" not in x and "end of" not in x]


def replay(rec):
    from mccode_antlr.reader import Reader
    from mccode_antlr.reader.registry import LocalRegistry
    top = scratch("verif-cmd-").resolve()
    bad, res = [], rec["result"]
    argv = words(rec, top)

    def say(kind, what):
        bad.append(dict(kind=kind, detail=f"{what}\n{rec['flavor']} {argv} with {rec['has']}, using {rec['uses']}, search {rec['search']}; expected {res}"[:1500]))

    try:
        for d in (*FOLDER.values(), "away"):
            (top / d).mkdir(parents=True)
        for place, kinds in rec["has"].items():
            for k in kinds:
                f = top / FOLDER[place] / (f"{k}.comp" if k != "R" else f"{stem(rec)}.instr")
                f.write_text(instr_text(rec, place, top) if k == "R" else comp_text(k, place))
        rt = top / "runtime"
        shutil.copytree(RUNTIME, rt)
        for f in rt.iterdir():
            shutil.move(f, top / "base" / f.name)
        rt.rmdir()
        base = LocalRegistry(rec["flavor"], str(top / "base"), priority=0)
        if any(c["w"] == "file" and c["x"] == "h5" for c in rec["call"]):
            from mccode_antlr.io import save_hdf5
            from mccode_antlr.reader.registry import InMemoryRegistry
            mem = InMemoryRegistry("gone", priority=500)
            for k in ("A", "B"):
                mem.add_comp(k, comp_text(k, "stored"))
            (top / "orig").mkdir()
            (top / "orig" / f"{stem(rec)}.instr").write_text(instr_text(dict(rec, search=False), "stored", top))
            save_hdf5(Reader(registries=[mem, base]).get_instrument(top / "orig" / f"{stem(rec)}.instr"), top / "home" / f"{stem(rec)}.h5")
        made = None if res["wrong"] else {"beside": f"home/{stem(rec)}.c", "here": f"work/{stem(rec)}.c", "named": "work/named.c", "away": "away/of here.c", "full": "away/full.c"}[res["out"]]
        if rec["old"]:
            for f in (f"home/{stem(rec)}.c", f"work/{stem(rec)}.c", "work/named.c", "away/of here.c"):
                (top / f).write_text("old")
        before = snapshot(top)
        error = translate(rec["flavor"], argv, top / "work", base)
        after = snapshot(top)
        touched = sorted(k for k in {*before, *after} if before.get(k) != after.get(k))
        if res["wrong"]:
            if error is None:
                say("accepted", f"the call goes well, writing {touched}")
            if touched:
                say("touched", f"a call which fails changes {touched}")
            return bad
        if error is not None:
            say("refused", f"{type(error).__name__}: {error}")
            return bad
        if touched != [made]:
            say("written", f"{touched} instead of {made}")
            return bad
        text = (top / made).read_text()
        program(rec, res, top, text, say)
        # what the library makes of the same instrument with the same options
        if res["instr"] == "stored":
            from mccode_antlr.io import load_hdf5
            instr = load_hdf5(top / "home" / f"{stem(rec)}.h5")
        else:
            order = [LocalRegistry(f"x{i}", str(top / FOLDER[c["x"]])) for i, c in enumerate(rec["call"]) if c["w"] == "I"]
            order.append(LocalRegistry("w", str(top / "work")))
            instr = Reader(registries=[*order, base]).get_instrument(top / FOLDER[res["instr"]] / f"{stem(rec)}.instr")
        want = library(instr, rec["flavor"], default_main=res["main"], enable_trace=res["trace"], portable=res["portable"], embed_instrument_file=res["source"])
        ours, theirs = timeless(text), timeless(want)
        if ours != theirs:
            say("library", next((f"line {i}: {a!r}, from the library {b!r}" for i, (a, b) in enumerate(zip(ours, theirs)) if a != b), "longer or shorter than from the library"))
        if zlib.crc32(repr(rec["call"]).encode()) % 8 == 0 and not bad:
            built(rec, res, top, text, say)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return bad


def source_of(rec, res, top):
    return top / "orig" / f"{stem(rec)}.instr" if res["instr"] == "stored" else top / FOLDER[res["instr"]] / f"{stem(rec)}.instr"


def program(rec, res, top, text, say):
    def expect(what, got, want):
        if got != want:
            say("program", f"{what}: {got!r} instead of {want!r}")
    flavor = rec["flavor"]
    for name, want in (("FLAVOR", flavor), ("MCCODE_STRING", FANCY[flavor]), ("FLAVOR_UPPER", flavor.upper())):
        expect(name, re.findall(rf'^\s*#define {name} "(.*)"', text, re.M), [want])
    for name, on in (("MC_USE_DEFAULT_MAIN", res["main"]), ("MC_TRACE_ENABLED", res["trace"]), ("MC_PORTABLE", res["portable"])):
        expect(name, bool(re.search(rf"^\s*#define {name}\s*$", text, re.M)), on)
    expect("main()", bool(re.search(r"^\s*int main\(", text, re.M)), res["main"])
    expect("runtime", (RUNTIME / f"{flavor}-r.c").read_text() in text, True)
    expect("where the instrument is from", re.findall(r'\{"where", [^"]*"(\d+)"', text), [str(NUMBER[res["instr"]])])
    expect("definitions", [int(x) for _, x in sorted(re.findall(r"^\s*_c(\d+)_var\._parameters\.v\s*=\s*(\d+)", text, re.M))], [NUMBER[p] for p in res["comps"]])
    line = re.search(r"^\s*char instrument_code\[\] = (\".*\");$", text, re.M)
    code = None if line is None else ast.literal_eval("b" + line.group(1)).decode()
    if res["source"]:
        expect("the embedded source", code, source_of(rec, res, top).read_text())
    else:
        expect("without the source", code is not None and "not embedded" in code and "INITIALIZE" not in code and f"--source option when running {flavor}" in code, True)


def built(rec, res, top, text, say):
    """The program, compiled: alone or with a main of our own"""
    d = top / "build"
    d.mkdir()
    (d / "a.c").write_text(text)
    (d / "b.c").write_text('#include <stdio.h>\nextern char instrument_name[], instrument_source[], instrument_code[]; extern int traceenabled, defaultmain;\n'
                           'int main(void) { printf("%s\\n%s\\n%d %d\\n%s", instrument_name, instrument_source, traceenabled, defaultmain, instrument_code); return 0; }\n')
    r = subprocess.run(["gcc", "-O0", "-w", "-o", "a.out", "a.c", *([] if res["main"] else ["b.c"]), "-lm"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    if r.returncode:
        say("compile", r.stdout.decode(errors="replace")[:600])
    elif not res["main"]:
        got = subprocess.run(["./a.out"], cwd=d, stdout=subprocess.PIPE, timeout=20).stdout.decode()
        want = f"Run\n{source_of(rec, res, top)}\n{int(res['trace'])} 0\n"
        if not got.startswith(want) or res["source"] and got != want + source_of(rec, res, top).read_text():
            say("embedded", f"the program says {got!r}, expected {want!r} and the source")


def replay_instrument(rec):
    """An instrument of Instrument.tla and all it needs as files: the program of the command is that of the library"""
    import instr_model as im
    from check_instr import source
    from mccode_antlr.reader.registry import LocalRegistry
    top = scratch("verif-cmdi-").resolve()
    bad = []
    main, files = source(rec)
    flavor = "mcstas"

    def say(kind, what):
        bad.append(dict(kind=kind, detail=f"{what}\n{main}\n{files}"[:3000]))

    try:
        shutil.copytree(RUNTIME, top / "base")
        for k, v in im.COMPS.items():
            (top / "base" / f"{k}.comp").write_text(v)
        (top / "work").mkdir()
        for k, v in files.items():
            (top / "work" / f"{k}.instr").write_text(v)
        (top / "work" / "top_file.instr").write_text(main)
        base = LocalRegistry(flavor, str(top / "base"), priority=0)
        error = translate(flavor, ["top_file.instr"], top / "work", base)
        made = top / "work" / "top_file.c"
        if (error is None) is not made.exists():
            say("touched", f"{type(error).__name__}: {error} but {'a' if made.exists() else 'no'} program")
        if rec["err"]:
            return bad + ([] if error is not None else [dict(kind="accepted", detail=f"translated, expected {rec['err']}\n{main}\n{files}")])
        try:
            want = timeless(library(im.parse_files(main, files), flavor))
        except Exception as e:
            want = None
            if error is None:
                say("accepted", f"translated, but the library fails: {type(e).__name__}: {e}")
        if want is not None and error is not None:
            say("refused", f"{type(error).__name__}: {error}")
        if want is not None and error is None:
            paths = lambda x: re.sub(r"/\S*/(\w+\.(?:instr|comp))", r"\1", x)
            ours, theirs = [[paths(x) for x in y] for y in (timeless(made.read_text()), want)]
            if ours != theirs:
                say("library", next((f"line {i}: {a!r}, from the library {b!r}" for i, (a, b) in enumerate(zip(ours, theirs)) if a != b), "longer or shorter than from the library"))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return bad


def word(w, x=None):
    return f'[w |-> "{w}"{"" if x is None else f", x |-> {chr(34)}{x}{chr(34)}"}]'


FILES = [word("file", x) for x in ("here", "bare", "dotted", "home", "h5")]
PLAIN = [word(x) for x in ("trace", "portable", "source", "nomain", "verbose")]
OUT = [word("o", x) for x in ("named", "away", "full", "nowhere")]
WRONG = [word(x) for x in ("version", "unknown")]


def constants(given, wrds, nwords, nuses, provided, flavors=("mcstas", "mcxtrace"), sampling=False):
    return dict(Dotted="BOOLEAN" if sampling else "{FALSE}", Given="{" + ", ".join(f'"{g}"' for g in given) + "}", Kinds='{"A", "B", "R"}', Words="{" + ", ".join(wrds) + "}", MaxWords=nwords, MaxUses=nuses,
                Flavors="{" + ", ".join(f'"{f}"' for f in flavors) + "}", Provided=provided, Sampling="TRUE" if sampling else "FALSE")


INV = ("Provides", "OneDefinition", "OrderFree")


def p23(check):
    check.assume("the flavor's own files are a stand-in, given as a local source of the lowest priority")
    check.assume("--no-runtime is outside the model: it names headers which only the real runtime has")
    t = check.thorough
    r = check.model("every short call", tlc("Command", constants([], FILES[:1] + FILES[3:4] + PLAIN + OUT[:1] + WRONG[:1], 3, 0, '{{"A", "R"}}'), invariants=INV, workers=8, timeout=400))
    step = 1 if t else 3
    check.run("every short call", replay, r.records[check.seed % step::step], chunk=40)
    r = check.model("every folder", tlc("Command", constants(["d1"], [FILES[0], FILES[3], word("I", "d1")], 2, 1, '{{}, {"A"}, {"A", "R"}}', flavors=("mcstas",)),
                                        invariants=INV, workers=8, timeout=400))
    step = 6 if t else 60
    check.run("every folder", replay, r.records[check.seed % step::step], chunk=40)
    for n, given in ((4, ["d1"]), (7, ["d1", "d2", "d3"])):
        wrds = FILES + PLAIN + OUT + [word("I", g) for g in given] + WRONG[:1]
        # most calls name one file
        r = check.model(f"sampled, {n} words", tlc("Command", constants(given, wrds, n, 3, 'SUBSET {"A", "B", "R"}', sampling=True), invariants=INV,
                                                   simulate=6000 if t else 450, depth=n + 3, seed=check.seed + n, timeout=400), exhaustive=False)
        check.run(f"sampled, {n} words", replay, r.records, chunk=40)
        check.need(sum(not x["result"]["wrong"] for x in r.records) > 100, "translations")
    import check_instr as ci
    for n in (3, 6):
        recs = ci.records(check, f"instruments of {n}", dict(ci.FULL, MaxComps=n, MaxFiles=n // 2, Depth=1, Headers=ci.im.tlaset(ci.INCHEADERS), BadRefs="TRUE"), sample=3000 if t else 500, seed=check.seed + n)
        check.run(f"instruments of {n} components", replay_instrument, recs)


CHECKS = dict(P23=p23)
