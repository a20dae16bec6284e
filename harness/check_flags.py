"""P19: the flags of an instrument, and what the compiler is told, follow spec/Flags.tla."""
import hashlib
import os
import re
import shutil
import zlib
from pathlib import Path

import offline  # noqa: F401
from common import tlc, scratch

TEXT = {1: "-lone", 2: "-DEN=2", 3: "-I/usr/in-c", 4: "-DF=(1)", 5: "me@home,", 6: "six", 7: "-seven", 8: '-DQ=\\"q\\"'}
ENV = {1: ["-value.1"], 2: ["-Lone", "-ltwo"], 3: []}
FILES = {1: "first_file.dat", 2: "second.h", 3: "Third-3.txt"}
KEYS = {1: "@NEXUSFLAGS@", 2: "@GSLFLAGS@", 3: "@FooFLAGS@", 4: "@MCCODE_LIB@", 5: "@UNKNOWN@"}
CONFIG = {"nexus": ["-DN=C:\\new\\1", "-lNeXus"], "gsl": ["-Lc:\\gsl"], "cc": ["-cc1", "-x", "c"], "acc": ["-a1", "-DOPENACC"], "mpi": ["-DUSE_MPI", "-lmpi"],
          "ld": ["-lm", "-lend"]}
CMDS = {1: "echo {t6}", 2: "echo {t7}{e2} {t6}", 3: "echo {e3}", 4: "echo {p1} {p2}", 8: "false", 9: "printf 'a\\nb\\n'"}
COMPILER = """#!/bin/sh
out=
prev=
for a in "$@"; do
  [ "$prev" = "-o" ] && out="$a"
  prev="$a"
done
printf '%s\\n' "$0" "$@" > "$out"
cat > "$out.c"
"""


def raw_piece(p):
    k, i = p["k"], p["i"]
    if k == "t":
        return TEXT[i]
    if k == "sp":
        return " "
    if k == "env":
        return f"ENV(VERIF_E{i})"
    if k == "path":
        return f"GETPATH({FILES[i]})"
    if k == "key":
        return KEYS[i]
    names = {f"t{j}": t for j, t in TEXT.items()}
    names.update({f"e{j}": f"ENV(VERIF_E{j})" for j in range(1, 5)})
    names.update({f"p{j}": f"GETPATH({f})" for j, f in FILES.items()})
    return f"CMD({CMDS[i].format(**names)})"


def raw(flag):
    return "".join(map(raw_piece, flag))


def atom(a, d):
    k, i = a
    if k == "sp":
        return " "
    if k == "e":
        return {1: ENV[1][0], 2: ENV[2][0], 3: ENV[2][1]}[i]
    if k == "p":
        return (d / "files" / ("" if i == 1 else "sub") / FILES[i]).as_posix()
    return {"t": TEXT, "nexus": dict(enumerate(CONFIG["nexus"], 1)), "gsl": {1: CONFIG["gsl"][0]}, "lib": {1: "-lfoo"}, "here": {1: "."},
            "k": KEYS}[k][i]


def texts(rec):
    """The definitions and the instruments"""
    flag = lambda d: f'DEPENDENCY "{raw(rec["pool"][d - 1])}"\n' if d else ""
    comps = {}
    for i, t in enumerate(rec["types"], 1):
        comps[f"Type{i}"] = f"DEFINE COMPONENT Type{i}" + (f" COPY Type{t['base']}" if t["base"] else "") + f"\n{flag(t['dep'])}TRACE %{{ %}}\nEND\n"
    main, instrs, current = [], {}, None
    for n, b in enumerate(rec["body"]):
        if b["incl"] and b["ty"] == 0:
            name = f"part{n}"
            main.append(f'%include "{name}.instr"')
            current = [f"DEFINE INSTRUMENT {name}()\n{flag(b['d'])}TRACE"]
            instrs[name] = current
            continue
        line = f"{'REMOVABLE ' if b['gone'] else ''}{'CPU ' if b['cpu'] else ''}COMPONENT c{n} = Type{b['ty']}() AT (0, 0, {n}) ABSOLUTE"
        (current if b["incl"] else main).append(line)
    text = "\n".join([f"DEFINE INSTRUMENT told()\n{flag(rec['own'])}TRACE", *main, "END\n"])
    return comps, {k: "\n".join(v + ["END\n"]) for k, v in instrs.items()}, text


class Place:
    """Files to be found, compilers which note what they are told, and a configuration which names them"""
    def __enter__(self):
        from mccode_antlr.config import config
        import mccode_antlr.compiler.check as check
        # whether the compilers can build an instrument is asked for once; these can
        check.simple_instr_compiles = lambda which: True
        self.dir = scratch("flags-").resolve()
        (self.dir / "files" / "sub").mkdir(parents=True)
        for i, f in FILES.items():
            (self.dir / "files" / ("" if i == 1 else "sub") / f).write_text("")
        # a source of files of similar names, which is asked first
        import pooch
        from mccode_antlr.reader.registry import ModuleRemoteRegistry
        name = f"near-{self.dir.name}"
        listing = self.dir / "near.txt"
        listing.write_text("".join(f"data/{f} {hashlib.sha256(b'').hexdigest()}\n" for f in (f"old_{FILES[1]}", f"a-{FILES[2]}.in")))
        self.cache = Path(pooch.os_cache(f"mccode_antlr/mccode_antlr-{name}"))
        self.near = ModuleRemoteRegistry(name, "https://example.invalid/y/", listing, version="v1.0", priority=50)
        for f in self.near.filenames():                 # what a download would have left
            path = Path(self.near.pooch.path) / f
            path.parent.mkdir(parents=True, exist_ok=True)
            path.write_text("")
        self.cc = {}
        for name in ("cc", "acc", "mpicc"):
            p = self.dir / f"the-{name}"
            p.write_text(COMPILER)
            p.chmod(0o755)
            self.cc[name] = str(p)
        config["cc"], config["acc"], config["mpi"]["cc"] = self.cc["cc"], self.cc["acc"], self.cc["mpicc"]
        for k, v in CONFIG.items():
            config["flags"][k] = " ".join(v)
        for i, v in ENV.items():
            os.environ[f"VERIF_E{i}"] = " ".join(v)
        os.environ.pop("VERIF_E4", None)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.rmtree(self.cache, ignore_errors=True)


def replay(recs):
    with Place() as place:
        return [b for r in recs for b in one(r, place)]


def one(rec, place):
    import cprog
    from mccode_antlr.reader.registry import LocalRegistry
    comps, instrs, text = texts(rec)
    bad = []
    raws, decoded = [raw(f) for f in rec["raw"]], ["".join(atom(a, place.dir) for a in f) for f in rec["decoded"]]
    funnel = ["-DFUNNEL"] if rec["funnel"] else []

    def say(kind, detail):
        bad.append(dict(kind=kind, detail=f"{detail}\n{text}\n" + "\n".join(instrs.values()) + "\n" + "\n".join(comps.values()) + f"\nthen {rec['more']}", item=rec))

    try:
        instr = cprog.parse(text, comps, extra=[place.near, LocalRegistry("files", str(place.dir / "files"))], instrs=instrs)
        added = [raw(rec["pool"][d - 1]) for d in rec["more"]]
        if len(rec["pool"]) % 2:
            instr.DEPENDENCY(*added)
        else:
            for a in added:
                instr.DEPENDENCY(a)
        for what, x in (("", instr), (" of the copy", instr.copy())):
            if list(x.unique_flags) != raws + funnel:
                say("flags", f"the flags{what} are {list(x.unique_flags)} instead of {raws + funnel}")
            try:
                got = list(x.decoded_flags())
            except Exception as e:
                if not rec["fails"]:
                    say("refused", f"{type(e).__name__}: {e}")
                continue
            if rec["fails"]:
                say("accepted", f"a command which fails is taken as {got}")
            elif got != decoded + funnel:
                say("decoded", f"the decoded flags{what} are {got} instead of {decoded + funnel}")
        if not bad and not rec["fails"] and zlib.crc32(repr(rec).encode()) % 3 == 0:
            told(rec, instr, place, raws + funnel, say, funnel)
    except Exception as e:
        say("error", f"{type(e).__name__}: {e}")
    return bad


def told(rec, instr, place, raws, say, funnel):
    """What the compiler is told"""
    from mccode_antlr.compiler.c import CBinaryTarget, compile_instrument
    from mccode_antlr.translators.target import MCSTAS_GENERATOR
    t = rec["target"]
    target = CBinaryTarget(mpi=t["mpi"], acc=t["acc"], count=2, nexus=t["nexus"])
    out = place.dir / "program.out"
    made = compile_instrument(instr, target, out, replace=True, generator=MCSTAS_GENERATOR,
                              config=dict(default_main=True, enable_trace=True, portable=True, include_runtime=True, embed_instrument_file=False, verbose=False))
    if made != out:
        say("program", f"the program is {made} instead of {out}")
    before = [w for part in rec["before"] for w in (["-D__GNUC__"] if part == "gnuc" else CONFIG[part[:-5]])]
    words = ["".join(atom(a, place.dir) for a in w) for w in rec["words"]]
    want = [place.cc[rec["cc"]], *before, "-o", str(out), "-", *CONFIG["ld"], *words, *funnel]
    got = out.read_text().splitlines()
    if got != want:
        say("command", f"the compiler is told {got} instead of {want}")
    source = Path(f"{out}.c").read_text()
    line = re.search(r"CFLAGS=(.*)", source)
    if line is None or line.group(1) != " ".join(raws):
        say("header", f"the source says {line and line.group(1)} instead of {' '.join(raws)}")
    again = out.stat().st_mtime_ns
    if compile_instrument(instr, target, out, replace=False, generator=MCSTAS_GENERATOR, config={}) != out or out.stat().st_mtime_ns != again:
        say("replaced", "a program which is there is compiled again")
    out.unlink()


INV = ("ReadWhatIsUsed", "NothingElse", "InOrder", "Apart")


def piece(k, n):
    return {f'[k |-> "{k}", i |-> {i}]' for i in n}


def constants(**k):
    c = dict(MaxFlags="2", MaxPieces="1", Pieces="{" + ", ".join(sorted(piece("t", [1, 8]))) + "}", NTypes="2", MaxItems="2", MaxMore="0", Incls="{TRUE}",
             Targets="{[mpi |-> FALSE, acc |-> FALSE, nexus |-> FALSE]}", Sampling="FALSE")
    c.update(k)
    return c


def p19(check):
    check.assume("a definition is used when it is read: also for an instance which an including instrument leaves out")
    check.assume("ENV, GETPATH and CMD are only written where they stand for something; parentheses within them are not nested")
    check.assume("the compilers are programs which note their arguments and input")
    t = check.thorough
    targets = "{" + ", ".join(f"[mpi |-> {str(m).upper()}, acc |-> {str(a).upper()}, nexus |-> {str(n).upper()}]"
                              for m in (False, True) for a in (False, True) for n in (False, True)) + "}"
    kw = dict(invariants=INV, workers=8, timeout=600, heap="6g")
    part = lambda r, n: r.records[check.seed % max(1, len(r.records) // n)::max(1, len(r.records) // n)]
    r = check.model("every place to state a flag", tlc("Flags", constants(), **kw))
    check.run("every place to state a flag", replay, part(r, 20000 if t else 3000), batch=25)
    every = (piece("t", [1, 2, 3, 4, 5, 8]) | piece("env", [1, 2, 3, 4]) | piece("path", [1, 2, 3]) | piece("key", [1, 2, 3, 4, 5]) | piece("cmd", [1, 2, 3, 4])
             | piece("sp", [0]))
    show = lambda s: "{" + ", ".join(sorted(s)) + "}"
    c = constants(MaxFlags="1", MaxPieces="2", Pieces=show(every | piece("cmd", [8, 9])), NTypes="1", MaxItems="1", Incls="{FALSE}")
    r = check.model("every pair of pieces", tlc("Flags", c, **kw))
    check.run("every pair of pieces", replay, part(r, 20000 if t else 2500), batch=25)
    c = constants(MaxFlags="1", MaxPieces="1", Pieces=show(piece("env", [2])), NTypes="1", MaxItems="1", Incls="{FALSE}", Targets=targets)
    r = check.model("every target", tlc("Flags", c, **kw))
    check.run("every target", replay, r.records, batch=4)
    c = constants(MaxFlags="4", MaxPieces="6", Pieces=show(every), NTypes="4", MaxItems="7", MaxMore="2", Targets=targets, Sampling="TRUE")
    r = check.model("sampled", tlc("Flags", c, simulate=4000 if t else 500, depth=70, seed=check.seed, **kw), exhaustive=False)
    check.run("sampled", replay, r.records, batch=25)
    check.need(len(r.records) > 100, "sampled flags")


CHECKS = dict(P19=p19)
