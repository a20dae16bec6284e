"""P14: ranges, scan points and the runs of a scan follow spec/Scan.tla."""
import atexit
import io
import os
import shutil
import subprocess
import sys
from contextlib import redirect_stdout, redirect_stderr
from decimal import Decimal
from pathlib import Path

import offline  # noqa: F401
from common import tlc, scratch

PROGRAM = Path(__file__).parent / "runtime" / "scanprog.c"


def text_of(cell):
    return cell["s"] if cell["t"] == "text" else str(Decimal(cell["n"]) / 10 ** cell["e"])


def number(n, e):
    """The number a caller writes in a program for n/10^e"""
    return n if e == 0 else float(Decimal(n) / 10 ** e)


def same(cell, got):
    """Whether a value stands for the cell: texts exactly, numbers up to rounding"""
    if cell["t"] == "text":
        return str(got) == cell["s"]
    want = number(cell["n"], cell["e"])
    if isinstance(got, bool):
        return False
    try:
        return abs(float(got) - want) <= 1e-9 * max(1.0, abs(want))
    except (TypeError, ValueError):
        return False


def written(p):
    """The value of a parameter as it is written on a command line"""
    if p["k"] == "range":
        a, s, b = (text_of(dict(t="num", n=p[k], e=p["e"])) for k in "asb")
        return f"{a}:{b}" if p["s"] == 10 ** p["e"] and (p["a"] + p["b"]) % 2 else f"{a}:{s}:{b}"
    return p["x"] if p["k"] == "text" else text_of(dict(t="num", n=p["a"], e=p["e"]))


def replay_range(rec):
    from mccode_antlr.run.range import MRange
    bad = []
    for p, vals in zip(rec["params"], rec["vals"]):
        say = lambda kind, what: bad.append(dict(kind=kind, detail=f"range {written(p)}: {what}; the model has {[text_of(v) for v in vals]}"))
        numbers = [number(p[k], p["e"]) for k in "abs"]
        for how, make in (("from numbers", lambda: MRange(*numbers)), ("from text", lambda: MRange.from_str(written(p)))):
            r = make()
            first, second = list(r), list(r)
            if len(first) != len(vals) or not all(same(v, g) for v, g in zip(vals, first)):
                say("iterated", f"iterating gives {first} ({how})")
            if first != second:
                say("again", f"iterating again gives {second} instead of {first} ({how})")
            try:
                n = len(r)
            except Exception as e:
                n = repr(e)
            if n != len(vals):
                say("count", f"its count is {n} ({how})")
            try:
                indexed = [r[i] for i in range(len(vals))]
            except Exception as e:
                indexed = [repr(e)]
            if len(indexed) != len(vals) or not all(same(v, g) for v, g in zip(vals, indexed)):
                say("indexed", f"indexing gives {indexed} ({how})")
            for i in (len(vals), len(vals) + 1, -len(vals) - 1):
                try:
                    say("beyond", f"index {i} gives {r[i]} ({how})")
                except (IndexError, ValueError):
                    pass
            if not (same(dict(t="num", n=p["a"], e=p["e"]), r.min) and same(dict(t="num", n=p["b"], e=p["e"]), r.max)):
                say("limits", f"its limits are {r.min} and {r.max} ({how})")
            if MRange.from_str(str(r)) != r or list(MRange.from_str(str(r))) != first:
                say("text", f"it is written {r}, which is a different range ({how})")
    return bad


_bin = {}


def program():
    if os.getpid() not in _bin:
        d = scratch("verif-scan-")
        subprocess.run(["cc", "-O0", "-o", str(d / "prog.out"), str(PROGRAM)], check=True, capture_output=True)
        _bin[os.getpid()] = d / "prog.out"
        atexit.register(shutil.rmtree, d, ignore_errors=True)
    return _bin[os.getpid()]


class Runs:
    """A place for one scan: the program in it, and what it was run with."""

    def __init__(self, rec):
        self.dir = scratch("verif-sc-")
        self.bin = self.dir / "my prog.out" if rec["grid"] else self.dir / "Prog.out"
        shutil.copy(program(), self.bin)
        self.log = self.dir / "log"
        self.old = os.getcwd()
        self.fail = rec["fail"]

    def __enter__(self):
        os.environ["SCAN_LOG"] = str(self.log)
        os.environ["SCAN_FAIL"] = str(self.fail)
        os.chdir(self.dir)
        return self

    def __exit__(self, *_):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)

    def clear(self):
        self.log.unlink(missing_ok=True)

    def seen(self):
        text = self.log.read_text() if self.log.exists() else ""
        return [r.split("\0")[:-1] for r in text.split("\1")[:-1]]


def take_apart(args):
    """Options, output directories and parameters of one run"""
    opts, dirs, pars, k = {}, [], [], 0
    while k < len(args):
        a = args[k]
        if a in ("--dir", "-d"):
            dirs.append(args[k + 1])
            k += 1
        elif a.startswith("--dir="):
            dirs.append(a[6:])
        elif a.startswith("-") and "=" in a:
            n, v = a.lstrip("-").split("=", 1)
            opts[n] = v
        elif a.startswith("-"):
            opts[a.lstrip("-")] = ""
        else:
            pars.append(tuple(a.split("=", 1)) if "=" in a else (a, None))
        k += 1
    return opts, dirs, pars


def judge(rec, seen, options, base, exact, say):
    """Compare the runs which happened with those of the model"""
    want = rec["runs"]
    if len(seen) != len(want):
        say("runs", f"{len(seen)} runs instead of {len(want)}: {seen[:4]}")
    used = []
    for r, (point, args) in enumerate(zip(want, seen)):
        opts, dirs, pars = take_apart(args)
        if opts != options:
            say("options", f"run {r + 1} has the options {opts} instead of {options}")
        if [n for n, _ in pars] != [p["nm"] for p in rec["params"]]:
            say("names", f"run {r + 1} has the parameters {pars}")
        else:
            for p, cell, (n, v) in zip(rec["params"], point, pars):
                if not same(cell, v) or (exact and p["k"] in ("one", "text") and v != written(p)):
                    say("value", f"run {r + 1} has {n}={v} instead of {text_of(cell)}")
        if len(dirs) != 1:
            say("directory", f"run {r + 1} has the output directories {dirs}")
        used += dirs[-1:]
    want_dirs = [str(base / str(i)) if rec["n"] > 1 else str(base) for i in range(len(want))] if base else []
    if base and [os.path.abspath(d) for d in used] != [os.path.abspath(d) for d in want_dirs[:len(used)]]:
        say("directory", f"the output directories are {used[:5]} instead of {want_dirs[:5]}")
    if len(set(used)) != len(used):
        say("directory", f"runs share an output directory: {used}")


OPTION = dict(ncount="-n", seed="-s", trace="-t", gravitation="-g", bufsiz="--bufsiz", format="--format", mesh="-m",
              directory="-d", dryrun="--dryrun", verbose="--verbose")
LONG = dict(OPTION, ncount="--ncount", seed="--seed", trace="--trace", gravitation="--gravitation", mesh="--mesh", directory="--directory")


def words(o):
    if o["v"] == "":
        return [OPTION[o["o"]] if o["f"] == "" else LONG[o["o"]]]
    if o["f"] == "=":
        return [f"{LONG[o['o']]}={o['v']}"]
    return [OPTION[o["o"]] if o["f"] == " " else LONG[o["o"]], o["v"]]


def command(rec, binary):
    argv, opts = [], {}
    for w in rec["cmd"]:
        if w["w"] == "file":
            argv.append(str(binary))
        elif w["w"] == "opt":
            argv += words(w["o"])
            opts[w["o"]["o"]] = w["o"]["v"]
        else:
            p = rec["params"][w["i"] - 1]
            v = written(p)
            pair = p["f"] == "sp" and "=" not in v and not v.startswith("-")
            argv += [p["nm"], v] if pair else [f"{p['nm']}={v}"]
    # what the model decides outside of the words
    if rec["grid"]:
        argv.append("--mesh")
    base = opts.get("directory")
    if base is None:
        base = "out put"
        argv += ["-d", base]
    return argv, {k: v for k, v in opts.items() if k not in ("mesh", "directory", "dryrun", "verbose")}, Path(base), "dryrun" in opts


def replay_cli(rec):
    from mccode_antlr.run.runner import mccode_run_cmd
    bad = []
    with Runs(rec) as runs:
        argv, options, base, dry = command(rec, runs.bin)
        say = lambda kind, what: bad.append(dict(kind=kind, detail=f"{what}\ncommand line {argv}"))
        old, sys.argv = sys.argv, ["mcrun", *argv]
        error, out = None, io.StringIO()
        try:
            with redirect_stdout(out), redirect_stderr(out):
                mccode_run_cmd("mcstas", None, {})
        except SystemExit as e:
            error = e
        except Exception as e:
            error = e
        finally:
            sys.argv = old
        if dry:
            if runs.seen():
                say("dry", "a dry run ran the program")
            if error is not None and rec["status"] == "ok":
                say("refused", f"refused: {error!r} {out.getvalue()[-300:]}")
            return bad
        unequal = rec["status"] == "refused" and all(rec["vals"])
        if rec["status"] == "ok" and error is not None:
            say("refused", f"refused: {error!r} {out.getvalue()[-300:]}")
        if error is None and (rec["status"] == "failed" or unequal):
            say("accepted", f"nothing is said about: {rec['status']}")
        judge(rec, runs.seen(), options, base, True, say)
    return bad


def given(p, longest, turn):
    """A parameter as the caller of the functions gives it"""
    from mccode_antlr.run.range import MRange, Singular
    if p["k"] == "range":
        return MRange(*(number(p[k], p["e"]) for k in "abs"))
    vals = [v["s"] if v["t"] == "text" else number(v["n"], v["e"]) for v in p["vals"]]
    if p["k"] == "list":
        return tuple(vals) if turn % 2 else vals
    if p["k"] == "plain":
        return vals[0]
    return Singular(vals[0], longest) if p["k"] == "times" else Singular(vals[0])


RUN_WITH = [{}, dict(seed=3, ncount=100), dict(n=7, s=2, trace=True), dict(gravitation=True, format="NeXus"),
            dict(ncount=None, trace=False, bufsiz=12, d="elsewhere")]
SEEN_AS = [{}, dict(seed="3", ncount="100"), dict(ncount="7", seed="2", trace=""), dict(gravitation="", format="NeXus"), dict(bufsiz="12")]


def replay_api(rec):
    from mccode_antlr.compiler.c import CBinaryTarget
    from mccode_antlr.run.range import parameters_to_scan
    from mccode_antlr.run.runner import mccode_run_scan, mccode_run
    bad = []
    longest = max([len(v) for v in rec["vals"]] + [1])
    turn = sum(p["a"] + p["m"] for p in rec["params"]) + len(rec["runs"])
    pars = {p["nm"]: given(dict(p, vals=v), longest, turn + i) for i, (p, v) in enumerate(zip(rec["params"], rec["vals"]))}
    before = repr(pars)
    say = lambda kind, what: bad.append(dict(kind=kind, detail=f"{what}\n{'grid' if rec['grid'] else 'line'} scan of {before}"))
    # the points
    points = None
    for k in range(2):
        try:
            n, names, scan = parameters_to_scan(pars, grid=rec["grid"])
            points = [tuple(x) for _, x in zip(range(rec["n"] + 3), scan)]
        except Exception as e:
            if rec["status"] != "refused":
                say("refused", f"the points are refused: {e!r}")
            break
        if rec["status"] == "refused":
            if points and all(rec["vals"]):
                say("accepted", f"values which do not belong together are taken: {points}")
            break
        if list(names) != [p["nm"] for p in rec["params"]]:
            say("names", f"the names are {names}")
        if n != rec["n"] or len(points) != rec["n"]:
            say("points", f"{len(points)} points, counted {n}, instead of {rec['n']}")
        for i, (want, got) in enumerate(zip(rec["runs"], points)):
            if len(want) != len(got) or not all(same(w, g) for w, g in zip(want, got)):
                say("point", f"point {i} is {got} instead of {[text_of(w) for w in want]}")
    if repr(pars) != before:
        say("changed", f"the parameters became {pars}")
    # the runs
    with Runs(rec) as runs:
        k = turn % len(RUN_WITH)
        base = Path("some where") / "b"
        error, result, out = None, None, io.StringIO()
        target = CBinaryTarget()
        try:
            with redirect_stdout(out), redirect_stderr(out):
                result = mccode_run_scan("prog", runs.bin, target, pars, str(base) if turn % 3 else base, rec["grid"], **RUN_WITH[k])
        except Exception as e:
            error = e
        if rec["status"] == "ok" and error is not None:
            say("refused", f"the scan is refused: {error!r}")
        if rec["status"] == "failed" and error is None:
            say("accepted", "a run which failed is ignored")
        judge(rec, runs.seen(), SEEN_AS[k], base, False, say)
        if result is not None and rec["status"] == "ok":
            results = result if rec["n"] > 1 else [result]
            if len(results) != rec["n"]:
                say("results", f"{len(results)} results")
            for i, (text, dats) in enumerate(results):
                if text != f"run {i + 1}\n".encode():
                    say("results", f"result {i} has the text {text}")
                if list(dats) != ["mon"] or dats["mon"].parameters.get("point") not in (i + 1, str(i + 1)):
                    say("results", f"result {i} has the data {[(k, d.parameters) for k, d in dats.items()]}")
        if repr(pars) != before:
            say("changed", f"the scan changed the parameters to {pars}")
        # the same through mccode_run, which chooses the directory in the one it is given
        if rec["status"] == "ok" and turn % 2 == 0:
            class Named:
                name = runs.bin.name
            runs.clear()
            try:
                with redirect_stdout(out), redirect_stderr(out):
                    mccode_run(Named, {}, pars, str(runs.dir), mesh=rec["grid"], ncount=5, seed=4, trace=True)
                judge(rec, runs.seen(), dict(ncount="5", seed="4", trace=""), None, False, say)
                for args in runs.seen():
                    if runs.dir not in Path(take_apart(args)[1][-1]).parents:
                        say("directory", f"not inside {runs.dir}: {args}")
            except Exception as e:
                say("refused", f"mccode_run refused: {e!r}")
    return bad


def tset(xs):
    return "{" + ", ".join(xs if all(isinstance(x, str) for x in xs) else map(str, xs)) + "}"


def quoted(xs):
    return tset(['"' + x.replace('"', '\\"') + '"' for x in xs])


def option(o, v="", f=""):
    return f'[o |-> "{o}", v |-> "{v}", f |-> "{f}"]'


OPTIONS = [option("ncount", "100", " "), option("ncount", "100", "="), option("seed", "7", "l"), option("trace"), option("trace", "", "l"),
           option("gravitation"), option("bufsiz", "50", " "), option("format", "McCode", "="), option("directory", "deep/er", " "),
           option("directory", "Out 2", "="), option("dryrun")]
TEXTS = ["abc", "007", "1e3", "1.50", "a b", "x=y", "NULL", "+3", "1_0", "Data.dat", "nan", "-1"]
NAMES = ["a", "A", "Ei", "n", "t", "par_1", "seed"]
INV = ("EveryPoint", "RightValues", "Combinations", "RangeLaws", "CommandOrder")


def constants(**k):
    c = dict(MaxParams="1", Names=quoted(["a"]), Starts="{0}", Stops="{2}", Steps="{1}", Exps="{0}", Texts=quoted(["abc"]),
             Kinds=quoted(["range"]), MaxLen="40", MaxPoints="40", Opts="{}", Forms=quoted(["eq"]), Fails="{0}", Grids="{FALSE}",
             RangesOnly="FALSE", Sampling="FALSE")
    c.update(k)
    return c


def p14(check):
    check.assume("the program which is run notes its arguments and makes its output directory; it stands for a compiled instrument")
    check.assume("values containing a colon are ranges; a range of one point is given as a single value")
    t = check.thorough
    span = "{" + ", ".join(str(i) for i in range(-14 if t else -12, 15 if t else 13)) + "}"
    c = constants(Starts="{-7, -3, -1, 0, 1, 2, 5}", Stops=span, Steps="{-7, -3, -2, -1, 1, 2, 3, 4, 7, 10}" if not t else "((-12)..12) \\ {0}",
                  Exps="{0, 1, 2, 3}", RangesOnly="TRUE")
    r = check.model("every short range", tlc("Scan", c, invariants=INV, workers=8, timeout=400))
    check.run("every short range", replay_range, r.records, chunk=400)
    c = constants(Starts="-3000..3000", Stops="-3000..3000", Steps="((-170)..170) \\ {0}", Exps="0..4", RangesOnly="TRUE", MaxLen="400",
                  Sampling="TRUE")
    r = check.model("long ranges", tlc("Scan", c, invariants=INV, simulate=20000 if t else 3000, depth=6, seed=check.seed, timeout=400),
                    exhaustive=False)
    check.run("long ranges", replay_range, r.records, chunk=100)
    # every small scan, with every failing run
    c = constants(MaxParams="2", Names=quoted(["a", "B"]), Starts="{0, 2}", Stops="{0, 2, 3}", Steps="{-1, 1, 2}", Exps="{1}",
                  Kinds=quoted(["range", "one", "list", "plain", "times"]), MaxLen="3", Fails="{0, 1, 3}", Grids="BOOLEAN")
    r = check.model("every small scan", tlc("Scan", c, invariants=INV, workers=8, timeout=400))
    recs = [x for x in r.records if x["fail"] <= max(len(x["runs"]), 1)]
    check.run("every small scan, by functions", replay_api, recs[check.seed % (1 if t else 4)::1 if t else 4], chunk=60)
    # every order of options and parameters of a short command line
    c = constants(MaxParams="2", Names=quoted(["a", "B"]), Starts="{0}", Stops="{1}", Steps="{1}", Kinds=quoted(["range", "text"]),
                  Forms=quoted(["eq", "sp"]), Opts=tset([OPTIONS[i] for i in (0, 3, 10)]) if not t else tset([OPTIONS[i] for i in (0, 3, 5, 9)]))
    r = check.model("every short command line", tlc("Scan", c, invariants=INV, workers=8, timeout=400))
    check.run("every short command line", replay_cli, r.records, chunk=60)
    for n, ln, pts in ((2, 12, 30), (4, 5, 40)) + (((6, 4, 64),) if t else ()):
        k = constants(MaxParams=str(n), Names=quoted(NAMES), Starts="-20..40", Stops="-20..40", Steps="((-12)..12) \\ {0}", Exps="0..3",
                      Texts=quoted(TEXTS), MaxLen=str(ln), MaxPoints=str(pts), Opts=tset(OPTIONS), Forms=quoted(["eq", "sp"]),
                      Fails="{0, 2, 5}", Grids="BOOLEAN", Sampling="TRUE")
        num = 12000 if t else 1500
        for label, kinds, f in (("functions", ["range", "one", "text", "list", "plain", "times"], replay_api),
                                ("command line", ["range", "one", "text"], replay_cli)):
            extra = dict(Opts="{}") if f is replay_api else {}
            r = check.model(f"sampled {label}, {n} parameters",
                            tlc("Scan", dict(k, Kinds=quoted(kinds), **extra), invariants=INV, simulate=num, depth=100, seed=check.seed + n,
                                timeout=400), exhaustive=False)
            recs = [x for x in r.records if x["fail"] <= max(len(x["runs"]), 1)]
            check.run(f"sampled {label}, {n} parameters", f, recs, chunk=40)
            check.need(sum(1 for x in recs if len(x["runs"]) > 3) > 20, f"scans of several points ({label})")


CHECKS = dict(P14=p14)
