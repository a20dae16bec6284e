"""P22: reading, combining and writing simulation descriptions follows spec/SimFile.tla."""
import copy
import math
import random
import re
import shutil
import zlib

import offline  # noqa: F401
from common import tlc, scratch

FLAG = {True: "yes", False: "no"}
NUMBER = r"(-?[0-9.]+(?:e[-+]?[0-9]+)?|nan)"


def heading(f, run):
    """The texts of the heading and of the instrument of a run's file"""
    h = f["head"]
    head = dict(description="McStas simulation description file for instrument " + ("main", "main", "main_2", "other")[h],
                Date=f"Thu Nov {run} 10:00:0{run} 2025", Program=("mcstas 3.5", "mcstas 3.5.1 (git)", "mcstas 3.5", "mcxtrace 3")[h])
    instr = dict(name=("main (main.instr)", "main", "main_2 (main_2.instr)", "other")[h], File="out" if h < 2 else "dir/main_2",
                 Source="main.instr" if h < 2 else "a: b.instr", Trace_enabled=h != 1, Default_main=h != 2, Embedded_runtime=h != 3)
    words = ("a(double) b(int)", "a(double)", "b(int) c(string)", "")[h]
    return head, instr, words


def simulation(f, run):
    v = f["v"]
    s = dict(name="out/mccode" if v == 1 else "mccode", Format="NeXus" if v == 2 else "McCode with text headers",
             URL="http://example.org" if v == 3 else "http://www.mccode.org", Creator="McStas 3.5" + (" beta" if v == 4 else ""),
             Instrument="main_2.instr" if v == 5 else "main.instr", Trace=v == 6, Gravitation=v == 7,
             Directory="out2" if v == 8 else "out", Seed=1000 + run)
    return s, [f"p{n}={n}.5" if n % 2 else f"p{n}=a: b={n}" for n in sorted(f["params"])]


def described(d, run):
    """The header entries of a detector, the same for all its repeats"""
    v, k = d["v"], d["k"]
    e = dict(type={0: "array_0d", 1: "array_0d", 2: "array_1d(20)", 3: "array_2d(4, 5)"}[k], Source="main (main.instr)", component=f"mon{d['c']}",
             position="0 0 1", title="A title: with (things)")
    if d["f"]:
        e["filename"] = f"file{d['f']}.dat"
    e["limits"] = {2: "-1 1", 3: "-1 1 -2 2"}.get(k, "0 0 0 0")
    e["variables"] = {2: "x I I_err N"}.get(k, "I I_err N")
    if v == 1:
        e["title"] = "A title"
    elif v == 2:
        e["position"] = "0 0 1.5"
    elif v == 3:
        e["Source"] = "other (other.instr)"
    elif v == 4:
        e["limits"] += "1"
    elif v == 5:
        e["variables"] = e["variables"].replace("I_err", "J_err")
    elif v == 6:
        e["type"] = {2: "array_1d(21)", 3: "array_2d(5, 4)"}.get(k, "array_0")
    return e


def extra(k):
    """The entries of the axes"""
    if k < 2:
        return [], "xylimits"
    rest = [("xvar", "x"), ("yvar", "y" if k == 3 else "(I,I_err)"), ("xlabel", "X [\\gm]"), ("ylabel", "Y: [cm]")]
    return rest + ([("zvar", "I"), ("zlabel", "Signal per bin")] if k == 3 else []), "xlimits" if k == 2 else "xylimits"


def results(d, scale):
    show = lambda x: f"{x:.0f}" if x == int(x) and abs(x) < 1e9 else repr(x)
    return f"{show(d['i'] * scale)} {show(math.sqrt(d['e']) * scale)} {d['n']}"


def datum(d, run, scale):
    e = described(d, run)
    mean = d["m"] / d["n"] if d["n"] else float(d["lo"])
    lines = [("Date", f"Thu Nov {run} 11:00:00 2025"), *[(x, e[x]) for x in ("type", "Source", "component", "position", "title")], ("Ncount", d["nc"])]
    if d["f"]:
        lines.append(("filename", e["filename"]))
    stats = f"X0={mean}; dX=0.5;" + (f" Y0={mean}; dY=0.25;" if d["k"] == 3 else "")
    lines.append(("statistics", "None" if d["none"] else stats))
    lines.append(("signal", "None" if d["none"] else f"Min={d['lo']}; Max={d['hi']}; Mean={mean};"))
    lines.append(("values", results(d, scale)))
    axes, limits = extra(d["k"])
    return lines + axes + [(limits, e["limits"]), ("variables", e["variables"])]


def text(f, run, scale, rng):
    head, instr, words = heading(f, run)
    sim, params = simulation(f, run)
    gap = rng.choice(["", "    "])
    out = [head["description"], f"Date: {gap}{head['Date']}", f"Program: {head['Program']}", "", f"begin instrument: {instr['name']}",
           f"  File: {instr['File']}", f"  Source: {instr['Source']}", f"  Parameters: {words}"]
    out += [f"  {k}: {FLAG[instr[k]]}" for k in ("Trace_enabled", "Default_main", "Embedded_runtime")] + ["end instrument", ""]
    out += [f"begin simulation: {sim['name']}"] + [f"  {k}: {sim[k]}" for k in ("Format", "URL", "Creator", "Instrument")]
    out += [f"  Ncount: {f['nc']}", f"  Trace: {FLAG[sim['Trace']]}", f"  Gravitation: {FLAG[sim['Gravitation']]}", f"  Seed: {sim['Seed']}",
            f"  Directory: {sim['Directory']}"] + [f"  Param: {p}" for p in params] + ["end simulation", ""]
    for d in f["d"]:
        out += ["begin data"] + [f"  {k}: {v}" for k, v in datum(d, run, scale)] + ["end data", ""]
    return "\n".join(out) + rng.choice(["", "\n"])


def close(a, b):
    return a == b or abs(a - b) <= 1e-11 * max(abs(a), abs(b))


def wrong(rec, p, got, scale):
    """How a combination differs from the model's"""
    out, runs = [], p["runs"]
    files = [rec["pool"][r - 1] for r in runs]
    texts = {("header", k): [heading(f, r)[0][k] for f, r in zip(files, runs)] for k in ("description", "Date", "Program")}
    texts.update({("instrument", k): [heading(f, r)[1][k] for f, r in zip(files, runs)] for k in ("name", "File", "Source")})
    texts.update({("simulation", k): [simulation(f, r)[0][k] for f, r in zip(files, runs)]
                  for k in ("name", "Format", "URL", "Creator", "Instrument", "Directory")})
    for (part, k), want in texts.items():
        have = getattr(getattr(got, part), k)
        missing = [w for w in want if w not in have]
        if missing:
            out.append(("text", f"{part} {k} is {have!r}, without {missing}"))
        elif not set(have.split(" + ")) <= set(want):
            out.append(("text", f"{part} {k} is {have!r}, of {want}"))
    for part, k, want in [("instrument", k, [heading(f, r)[1][k] for f, r in zip(files, runs)]) for k in ("Trace_enabled", "Default_main", "Embedded_runtime")] \
            + [("simulation", k, [simulation(f, r)[0][k] for f, r in zip(files, runs)]) for k in ("Trace", "Gravitation")]:
        if getattr(getattr(got, part), k) is not all(want):
            out.append(("flag", f"{part} {k} is {getattr(getattr(got, part), k)!r}, of {want}"))
    words = got.instrument.Parameters.split()
    if len(set(words)) != len(words) or set(words) != {w for f, r in zip(files, runs) for w in heading(f, r)[2].split()}:
        out.append(("parameters", f"the instrument has parameters {words}"))
    params = got.simulation.Params
    if len(set(params)) != len(params) or set(params) != {w for f, r in zip(files, runs) for w in simulation(f, r)[1]}:
        out.append(("run parameters", f"the simulation has parameters {params}"))
    if p["known"] and got.simulation.Ncount != p["nc"]:
        out.append(("rays", f"Ncount {got.simulation.Ncount} instead of {p['nc']}"))
    if len(set(runs)) == 1 and got.simulation.Seed != 1000 + runs[0]:
        out.append(("seed", f"Seed {got.simulation.Seed}"))
    if len(got.data) != len(p["d"]):
        return out + [("detectors", f"there are {[(x.component, x.filename) for x in got.data]}, not those of {p['d']}")]
    for d, g in zip(p["d"], got.data):
        e = described(d, 0)
        axes, limits = extra(d["k"])
        e[limits] = e.pop("limits")
        for k, v in [*e.items(), *axes]:
            if getattr(g, k) != v:
                out.append(("entry", f"{k} of {d} is {getattr(g, k)!r} instead of {v!r}"))
        if g.Ncount != d["nc"]:
            out.append(("detector rays", f"Ncount of {d} is {g.Ncount}"))
        try:
            i, err, n = [float(x) for x in g.values.split()]
        except ValueError:
            out.append(("values", f"values of {d} are {g.values!r}"))
            continue
        if not (close(i, d["i"] * scale) and close(err, math.sqrt(d["e"]) * scale) and n == d["n"]):
            out.append(("values", f"values of {d} are {g.values!r} instead of {results(d, scale)!r}"))
        if d["none"]:
            if g.signal != "None" or g.statistics != "None":
                out.append(("unknown", f"{d} has signal {g.signal!r} and statistics {g.statistics!r} though it is not known for all"))
            continue
        m = re.fullmatch(f"Min={NUMBER}; Max={NUMBER}; Mean={NUMBER};", g.signal)
        s = re.fullmatch(f"X0={NUMBER}; dX={NUMBER};" + (f" Y0={NUMBER}; dY={NUMBER};" if d["k"] == 3 else ""), g.statistics)
        if not m or not s:
            out.append(("signal", f"{d} has signal {g.signal!r} and statistics {g.statistics!r}"))
            continue
        if (float(m[1]), float(m[2])) != (d["lo"], d["hi"]):
            out.append(("range", f"{d} has signal {g.signal!r}"))
        means = [float(m[3]), float(s[1])] + ([float(s[3])] if d["k"] == 3 else [])
        if d["n"] and not all(close(x, d["m"] / d["n"]) for x in means):
            out.append(("mean", f"{d} has signal {g.signal!r} and statistics {g.statistics!r} instead of {d['m'] / d['n']}"))
    return out


def state(o):
    return repr((vars(o.header), vars(o.instrument), vars(o.simulation), [vars(x) for x in o.data]))


def spaced(o):
    """The same with single spaces between the parameters of the instrument"""
    o = copy.deepcopy(o)
    o.instrument.Parameters = " ".join(o.instrument.Parameters.split())
    return o


def replay(rec):
    from mccode_antlr.loader import read_mccode_sim, combine_mccode_sims, write_combined_mccode_sims
    seed = zlib.crc32(repr(rec["pool"]).encode())
    rng = random.Random(seed)
    scale = (1.0, 1.0, 1e-9, 0.1)[seed % 4]
    d, bad = scratch("verif-sim-"), []
    texts = [text(rec["pool"][i], i + 1, scale, rng) for i in range(rec["files"])]
    log = [(o["k"], o["q"], o["ok"]) for o in rec["log"]]
    say = lambda kind, what: bad.append(dict(kind=kind, detail=f"{what}\noperations {log}\n" + "\n".join(texts)))
    try:
        objs, paths = [], []
        for i, t in enumerate(texts):
            paths.append(d / f"in{i}.sim")
            paths[-1].write_text(t)
            objs.append(read_mccode_sim(paths[-1] if i % 2 else str(paths[-1])))
            for kind, w in wrong(rec, rec["pool"][i], objs[-1], scale):
                say("read " + kind, f"file {i + 1}: {w}")
        before = [state(o) for o in objs]
        for step, op in enumerate(rec["log"]):
            k, q = op["k"], [x - 1 for x in op["q"]]
            out, result, error = d / f"out{step}.sim", None, None
            try:
                if k == "list":
                    result = combine_mccode_sims([objs[x] for x in q])
                elif k == "write":
                    objs[q[0]].save(out if step % 2 else str(out))
                    result = read_mccode_sim(out)
                    if state(result) != state(spaced(objs[q[0]])):
                        say("written", f"operation {step + 1}: reading what was written gives {state(result)[:600]} instead of {state(objs[q[0]])[:600]}")
                else:
                    files = []
                    for n, x in enumerate(q):
                        f = d / f"part{step}_{n}.sim"
                        if x < rec["files"]:
                            f = paths[x]
                        else:
                            objs[x].save(f)
                        files.append(f)
                    write_combined_mccode_sims(files, out)
                    result = read_mccode_sim(out)
            except Exception as e:
                error = e
            if op["ok"] and error is not None:
                say("refused", f"operation {step + 1} is refused: {error!r}")
                break
            if not op["ok"] and error is None:
                say("accepted", f"operation {step + 1} combines what does not belong together")
            if not op["ok"] and k == "merge" and out.exists():
                say("partial", f"operation {step + 1} is refused, but there is a file")
            if op["ok"]:
                objs.append(result)
                before.append(state(result))
                for kind, w in wrong(rec, rec["pool"][len(objs) - 1], result, scale):
                    say(kind, f"operation {step + 1}: {w}")
            for n, o in enumerate(objs):
                if state(o) != before[n]:
                    say("changed", f"operation {step + 1} changed result {n + 1} from {before[n][:600]} to {state(o)[:600]}")
                    before[n] = state(o)
            for f, t in zip(paths, texts):
                if f.read_text() != t:
                    say("files", f"operation {step + 1} changed {f.name}")
    except Exception as e:
        say("refused", f"reading is refused: {e!r}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad


INV = ("SumOfRuns", "EveryDetectorOnce", "NoMixing", "Rays")
KINDS = '{"list", "write", "merge"}'


def detectors(*s):
    return "{" + ", ".join(f"[c |-> {c}, f |-> {f}, k |-> {k}]" for c, f, k in s) + "}"


def constants(**k):
    c = dict(NFiles="2", Detectors=detectors((1, 1, 2)), MaxData="1", Variants="{0}", Descs="{0}", Params="{}", Heads="{0}", Odds="{FALSE}",
             Values="{2}", MaxOps="1", OpKinds=KINDS, Sampling="FALSE")
    c.update(k)
    return c


def p22(check):
    check.assume("files have the entries McStas writes; the widths (dX, dY) of a combination and its number of rays when the simulations differ are not claimed")
    t = check.thorough
    some = detectors((1, 0, 0), (1, 1, 1), (1, 1, 2), (1, 1, 3), (2, 1, 2), (1, 2, 2))
    c = constants(Detectors=some, Variants="0..6", OpKinds='{"list", "merge"}' if t else '{"list"}')
    r = check.model("every pair of detectors", tlc("SimFile", c, invariants=INV, properties=("Unaltered",), workers=8, timeout=400))
    step = 1 if t else 8
    check.run("every pair of detectors", replay, r.records[check.seed % step::step], chunk=100)
    c = constants(Descs="0..8", Params="{1, 2}", Heads="{0, 3}", MaxData="0", OpKinds='{"list", "merge"}' if t else '{"list"}')
    r = check.model("every pair of simulations", tlc("SimFile", c, invariants=INV, properties=("Unaltered",), workers=8, timeout=400))
    step = max(1, len(r.records) // (60000 if t else 6000))
    check.run("every pair of simulations", replay, r.records[check.seed % step::step], chunk=100)
    c = constants(Heads="0..3" if t else "{0, 3}", Detectors=detectors((1, 1, 2), (2, 0, 0)), MaxOps="2", MaxData="1")
    r = check.model("every short history", tlc("SimFile", c, invariants=INV, properties=("Unaltered",), workers=8, heap="8g", timeout=400))
    step = max(1, len(r.records) // (60000 if t else 5000))
    check.run("every short history", replay, r.records[check.seed % step::step], chunk=100)
    for odds in ("{TRUE}", "{FALSE}"):
        c = constants(Values="{0, 1, 3}", OpKinds='{"list"}', Sampling="TRUE", Odds=odds)
        r = check.model(f"results, alike {odds}", tlc("SimFile", c, invariants=INV, properties=("Unaltered",), simulate=6000 if t else 300, depth=10,
                                                      seed=check.seed, timeout=600), exhaustive=False)
        check.run(f"results, alike {odds}", replay, r.records, chunk=100)
    many = detectors((1, 0, 0), (2, 0, 0), (3, 1, 1), (3, 2, 2), (3, 3, 3), (4, 4, 3), (4, 5, 2), (5, 1, 2), (6, 1, 1))
    for n, ops in ((2, 4), (4, 6), (6, 10)) if t else ((2, 4), (4, 6)):
        for variants in ("{0}", "{0, 1, 2, 3, 4, 5, 6}"):
            c = constants(NFiles=str(n), Detectors=many, MaxData="5", Variants=variants, Descs="0..8", Params="1..4", Heads="0..3", Odds="{TRUE, TRUE, FALSE}",
                          Values="0..40", MaxOps=str(ops), Sampling="TRUE")
            r = check.model(f"sampled, {n} files, variants {variants}", tlc("SimFile", c, invariants=INV, properties=("Unaltered",),
                            simulate=4000 if t else 700, depth=60, seed=check.seed + n, timeout=600), exhaustive=False)
            check.run(f"sampled, {n} files, variants {variants}", replay, r.records, chunk=30)
            check.need(variants != "{0}" or sum(1 for x in r.records if len(x["pool"]) > n + 1) > 100, "sampled combinations")


CHECKS = dict(P22=p22)
