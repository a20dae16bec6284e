"""P20: reading, combining and writing result files follows spec/DatFile.tla."""
import math
import random
import shutil
import zlib

import offline  # noqa: F401
from common import tlc, scratch

KIND = {0: "array_0d", 1: "array_1d({nx})", 2: "array_2d({nx}, {ny})"}


def header(p, run, scale):
    """The header of the file of one run: entries, parameters, variables. Variants each change one thing."""
    s, v = p["s"], p["v"]
    h = {"Format": "McCode with text headers", "URL": "http://www.mccode.org", "Creator": "McStas 3.5: mine", "Instrument": "main.instr",
         "Ncount": str(p["nc"]), "Trace": "no", "Gravitation": "no", "Seed": str(12 * 10 ** (run % 3) + run), "Directory": f"out{run}",
         "Date": f"Mon Nov {run} 12:0{run}:00 2025", "type": KIND[s["k"]].format(**s), "Source": "main (main.instr)",
         "component": "mon", "position": "0 0 1", "title": "A title: with #1", "filename": f"mon{run % 2}.dat",
         "statistics": f"X0={run}; dX=1;", "signal": f"Min=0; Max={run};", "values": f"{run} 2 3"}
    params = {"a": "1", "Seed_1": "5", "values_x": "0.5", "text": "a=b: c"}
    names = ["I", "I_err", "N"]
    if s["k"] == 0:
        h.update(yvar="(I,I_err)", ylabel="Intensity", xlimits="0 0")
    elif s["k"] == 1:
        names = ["x"] + names
        h.update(xvar="t", yvar="(I,I_err)", xlabel="Time [\\gms]", ylabel="Intensity [n/s]", xlimits="-1 1")
    else:
        h.update(xvar="x", yvar="y", xlabel="X position [cm]", ylabel="Y position [cm]", zvar="I", zlabel="Signal", xylimits="-1 1 -2 2")
    if v == 1:
        h["title"] = "Another title"
    elif v == 2:
        params["a"] = "2"
    elif v == 3:
        params["Seed_1"] = "6"
    elif v == 4:
        names[-3 if s["k"] else 0] = "J"
    elif v == 5:
        h["xylimits" if s["k"] == 2 else "xlimits"] = "-1 1 -2 3" if s["k"] == 2 else "-1 2"
    elif v == 6:
        h["component"] = "mon2"
    elif v == 7:
        h["ylabel"] = "Other [m]"
    elif v == 8:
        params["values_x"] = "0.25"
    elif v == 9:
        params["more"] = "1"
        del params["text"]
    elif v == 10:
        h["Instrument"] = "other.instr"
    h["variables"] = " ".join(names)
    if run % 2:
        h["Extra entry"] = "kept"
    return h, params, names


def numbers(p, scale):
    """The columns of the file by variable, in the order of the bins"""
    i = [b["i"] * scale for b in p["d"]]
    e = [math.sqrt(b["e"]) * scale for b in p["d"]]
    return i, e, [float(b["n"]) for b in p["d"]]


def text(p, run, scale, rng):
    h, params, names = header(p, run, scale)
    h.pop("Extra entry", None)
    s = p["s"]
    sep = rng.choice([" ", " ", "  "])
    show = lambda x: repr(x) if rng.random() < 0.7 or x != int(x) else f"{x:.0f}"
    lines, done = [], False
    for k, v in h.items():
        if k == "Date":
            lines += [f"# Param: {a}={b}" for a, b in params.items()]
        lines.append(f"# {k}: {v}")
    cols = numbers(p, scale)
    if s["k"] == 0:
        lines.append(sep.join(show(c[0]) for c in cols))
    elif s["k"] == 1:
        for x in range(s["nx"]):
            lines.append(sep.join([show(float(x - 1))] + [show(c[x]) for c in cols]))
    else:
        for label, name, c in zip(("Data", "Errors", "Events"), names, cols):
            lines.append(f"# {label} [{h['component']}/{h['filename']}] {name}:")
            for y in range(s["ny"]):
                lines.append(sep.join(show(c[y * s["nx"] + x]) for x in range(s["nx"])) + (" " if rng.random() < 0.3 else ""))
        if rng.random() < 0.3:
            lines.append("")
    return "\n".join(lines) + ("\n" if rng.random() < 0.8 else "\n\n")


def close(a, b):
    return a == b or abs(a - b) <= 1e-11 * max(abs(a), abs(b))


def wrong(rec, p, got, scale, exact):
    """How a result differs from the model's"""
    runs = p["runs"]
    h, params, names = header(rec["pool"][runs[0] - 1], runs[0], scale)
    out = []
    want = numbers(p, scale)
    s = p["s"]
    kind = type(got).__name__
    if kind != f"DatFile{s['k']}D":
        out.append(("kind", f"a {kind}"))
    shape = {0: (3,), 1: (4, s["nx"]), 2: (3, s["ny"], s["nx"])}[s["k"]]
    if tuple(got.data.shape) != shape:
        return out + [("shape", f"shape {got.data.shape} instead of {shape}")]
    if list(got.variables) != names:
        out.append(("variables", f"variables {got.variables} instead of {names}"))
    flat = [list(map(float, got.data[k].reshape(-1))) if s["k"] else [float(got.data[k])] for k in range(len(names))]
    for n, w, g in zip(names[-3:], want, flat[-3:]):
        if not all(close(a, b) for a, b in zip(w, g)):
            out.append(("bins", f"{n} is {g} instead of {w}"))
        named = got[n]
        if not all(close(a, float(b)) for a, b in zip(w, named.reshape(-1) if s["k"] else [named])):
            out.append(("by name", f"[{n!r}] is {named} instead of {w}"))
    if s["k"] == 1 and flat[0] != [float(x - 1) for x in range(s["nx"])]:
        out.append(("axis", f"the positions are {flat[0]}"))
    if got.parameters != params:
        out.append(("parameters", f"parameters {got.parameters} instead of {params}"))
    if str(got.metadata.get("Ncount")) != str(p["nc"]):
        out.append(("total", f"Ncount {got.metadata.get('Ncount')} instead of {p['nc']}"))
    h.pop("Extra entry", None)
    several = ("Seed", "Directory", "Date", "filename")
    for k, v in h.items():
        if k in several and len(runs) > 1:
            for r in runs:
                e = header(rec["pool"][r - 1], r, scale)[0][k]
                if f" {e} " not in f" {got.metadata.get(k)} ":
                    out.append(("entry", f"{k} is {got.metadata.get(k)!r}, without {e!r} of run {r}"))
        elif k == "Ncount" or k in ("statistics", "signal", "values") and len(runs) > 1:
            pass
        elif got.metadata.get(k) != v:
            out.append(("entry", f"{k} is {got.metadata.get(k)!r} instead of {v!r}"))
    return out


def state(obj):
    return repr((type(obj).__name__, obj.metadata, obj.parameters, obj.variables, obj.data.tolist()))


def replay(rec):
    from mccode_antlr.loader.datfile import read_mccode_dat, combine_mccode_dats, write_combined_mccode_dats
    seed = zlib.crc32(repr(rec["pool"]).encode())
    rng = random.Random(seed)
    scale = (1.0, 1.0, 1e-9, 0.1)[seed % 4]
    d, bad = scratch("verif-dat-"), []
    texts = [text(rec["pool"][i], i + 1, scale, rng) for i in range(rec["files"])]
    log = [(o["k"], o["q"], o["ok"]) for o in rec["log"]]
    say = lambda kind, what: bad.append(dict(kind=kind, detail=f"{what}\noperations {log}\n" + "\n".join(texts)))
    try:
        objs, paths = [], []
        for i, t in enumerate(texts):
            paths.append(d / f"in{i}.dat")
            paths[-1].write_text(t)
            objs.append(read_mccode_dat(paths[-1] if i % 2 else str(paths[-1])))
        for i, o in enumerate(objs):
            for kind, w in wrong(rec, rec["pool"][i], o, scale, True):
                say("read " + kind, f"file {i + 1}: {w}")
        before = [state(o) for o in objs]
        for step, op in enumerate(rec["log"]):
            k, q = op["k"], [x - 1 for x in op["q"]]
            out, result, error = d / f"out{step}.dat", None, None
            try:
                if k == "add":
                    result = objs[q[0]] + objs[q[1]]
                elif k == "list":
                    result = combine_mccode_dats([objs[x] for x in q])
                elif k == "write":
                    objs[q[0]].to_filename(out)
                    result = read_mccode_dat(out)
                else:
                    files = []
                    for n, x in enumerate(q):
                        f = d / f"part{step}_{n}.dat"
                        if x < rec["files"]:
                            f = paths[x]
                        else:
                            objs[x].to_filename(str(f))
                        files.append(f)
                    write_combined_mccode_dats(files, out)
                    result = read_mccode_dat(out)
            except Exception as e:
                error = e
            if op["ok"] and error is not None:
                say("refused", f"operation {step + 1} is refused: {error!r}")
                break
            if not op["ok"] and error is None:
                say("accepted", f"operation {step + 1} combines what does not belong together")
            if op["ok"]:
                objs.append(result)
                before.append(state(result))
                for kind, w in wrong(rec, rec["pool"][len(objs) - 1], result, scale, False):
                    say(kind, f"operation {step + 1}: {w}")
            for n, o in enumerate(objs):
                if state(o) != before[n]:
                    say("changed", f"operation {step + 1} changed result {n + 1} from {before[n][:300]} to {state(o)[:300]}")
                    before[n] = state(o)
            if k == "write":
                try:
                    objs[q[0]].to_filename(out)
                    say("overwritten", f"operation {step + 1}: the file which is there is written again")
                except RuntimeError:
                    pass
            for f, t in zip(paths, texts):
                if f.read_text() != t:
                    say("files", f"operation {step + 1} changed {f.name}")
    except Exception as e:
        say("refused", f"reading is refused: {e!r}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad


def shapes(*s):
    return "{" + ", ".join(f"[k |-> {k}, nx |-> {x}, ny |-> {y}]" for k, x, y in s) + "}"


INV = ("SumOfRuns", "Grouping", "NoMixing")
KINDS = '{"add", "list", "write", "merge"}'


def constants(**k):
    c = dict(NFiles="2", Shapes=shapes((0, 1, 1)), Variants="{0}", Odds="{FALSE}", Values="{1, 2}", MaxOps="1", OpKinds=KINDS, Sampling="FALSE")
    c.update(k)
    return c


def p20(check):
    check.assume("files have the header entries McStas writes; statistics, signal and values of a combined file are not claimed")
    check.assume("one of two files which combine has no header entry the other lacks")
    t = check.thorough
    every = shapes((0, 1, 1), (1, 1, 1), (1, 3, 1), (1, 4, 1), (2, 1, 1), (2, 2, 1), (2, 1, 2))
    c = constants(Shapes=every, Variants="0..10", Values="{3}", OpKinds='{"add", "merge"}' if t else '{"add"}')
    r = check.model("every pair of kinds", tlc("DatFile", c, invariants=INV, properties=("Unaltered",), workers=8, timeout=400))
    check.run("every pair of kinds", replay, r.records[check.seed % (1 if t else 8)::1 if t else 8], chunk=100)
    c = constants(Shapes=shapes((0, 1, 1)), Values="{2}", MaxOps="3" if t else "2")
    r = check.model("every short history", tlc("DatFile", c, invariants=INV, properties=("Unaltered",), workers=8, heap="8g", timeout=400))
    step = max(1, len(r.records) // (40000 if t else 4000))
    check.run("every short history", replay, r.records[check.seed % step::step], chunk=100)
    many = shapes(*[(0, 1, 1)] * 1, *[(1, n, 1) for n in (1, 2, 3, 4, 5, 8)], *[(2, x, y) for x in (1, 2, 3, 4) for y in (1, 2, 3, 4)])
    for n, ops in ((2, 4), (4, 7), (6, 12)) if t else ((2, 4), (4, 7)):
        c = constants(NFiles=str(n), Shapes=many, Variants="0..10", Odds="{TRUE, TRUE, FALSE}", Values="0..60", MaxOps=str(ops), Sampling="TRUE")
        r = check.model(f"sampled, {n} files", tlc("DatFile", c, invariants=INV, properties=("Unaltered",), simulate=5000 if t else 1500,
                                                   depth=60, seed=check.seed + n, timeout=400), exhaustive=False)
        check.run(f"sampled, {n} files", replay, r.records, chunk=30)
        check.need(sum(1 for x in r.records if len(x["pool"]) > n + 1) > 100, "sampled combinations")


CHECKS = dict(P20=p20)
