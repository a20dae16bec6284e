"""P25: generating programs follows spec/Generate.tla: histories of translators, edits and copies, against fresh processes."""
import contextlib
import difflib
import io
import json
import os
import re
import shutil
import subprocess
import sys
from pathlib import Path

import offline  # noqa: F401
from common import tlc, scratch

HERE = Path(__file__).resolve().parent
CONFIGURED = re.compile(r"Version macro \(configured\): (.*)\n\s*configured <(.*)> <(.*)> <(.*)> <(.*)> \*/")


def version(rec, i, n, form):
    v = rec["instr"][i - 1]
    return dict(feats=sorted(v["feats"]), rt=v["rt"], edits=v["edits"][:n], form=form)


def asked(rec):
    """the versions of instruments and programs a history is about"""
    import gen_build  # noqa: F401
    made, out = [], []
    for op in rec["log"]:
        if op["op"] == "make":
            made.append((op["i"], op["f"]))
        elif op["op"] in ("translate", "save", "contents"):
            i, f = made[op["k"] - 1]
            out.append(version(rec, i, op["n"], f))
    return out


def key(v):
    return json.dumps(v, sort_keys=True)


def reference(versions, seed):
    lines = sorted({key(v) for v in versions})
    env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=str(HERE))
    res = subprocess.run([sys.executable, str(HERE / "gen_child.py")], input="".join(x + "\n" for x in lines).encode(), env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    got = res.stdout.decode().splitlines()
    if len(got) != len(lines):
        raise RuntimeError("the process for comparison ended: " + res.stderr.decode()[-500:])
    return {k: json.loads(g) for k, g in zip(lines, got)}


def differ(a, b):
    return "\n".join(list(difflib.unified_diff(a.splitlines(), b.splitlines(), "expected", "found", lineterm="", n=0))[:14])


def history(rec, ref, where, bad):
    import gen_build

    def wrong(kind, detail, n):
        bad.append(dict(kind=kind, detail=f"{detail}\nhistory: {json.dumps(rec['log'][:n + 1])}\ninstruments: {rec['instr']}", signature=f"{kind}", item=rec))
    things = [gen_build.read(sorted(x["feats"]), x["rt"]) for x in rec["instr"]]
    apart = [gen_build.read(sorted(x["feats"]), x["rt"], "again") for x in rec["instr"]]
    count, trans = [0] * len(things), []
    for n, op in enumerate(rec["log"]):
        kind, program, said = op["op"], None, io.StringIO()
        try:
            with contextlib.redirect_stdout(said):
                if kind == "make":
                    trans.append((gen_build.visitor(things[op["i"] - 1], op["f"]), op["i"], op["f"]))
                elif kind == "edit":
                    i = op["i"] - 1
                    gen_build.edit(things[i], op["e"], count[i], apart[i] if op["e"] == 4 else None)
                    count[i] += 1
                elif kind == "translate":
                    program = trans[op["k"] - 1][0].translate(reprocess=op["again"]).getvalue()
                elif kind == "save":
                    file = where / "out.c"
                    file.write_text("old\n" * 3)
                    trans[op["k"] - 1][0].save(filename=str(file) if op["file"] else None, close=op["close"], reprocess=op["again"])
                    if op["file"]:
                        program = file.read_text()
                    elif not op["close"]:
                        program = trans[op["k"] - 1][0].contents()
                elif kind == "contents":
                    program = trans[op["k"] - 1][0].contents()
                elif kind == "text":
                    str(things[op["i"] - 1])
                elif kind == "copy":
                    twin = things[op["i"] - 1].copy()
                    for e in (1, 2, 3, 5, 6):
                        gen_build.edit(twin, e, 90)
                    gen_build.visitor(twin, 3).contents()
                elif kind == "hdf5":
                    from mccode_antlr.io import save_hdf5, load_hdf5
                    save_hdf5(things[op["i"] - 1], str(where / "a.h5"))
                    gen_build.visitor(load_hdf5(str(where / "a.h5")), 1).contents()
                    (where / "a.h5").unlink()
                elif kind == "flags":
                    things[op["i"] - 1].decoded_flags()
        except Exception as e:
            wrong(f"{kind}-fails", f"{kind} raises {type(e).__name__}: {e}", n)
            return
        if program is not None:
            _, i, f = trans[op["k"] - 1]
            want = ref[key(version(rec, i, op["n"], f))]
            if "error" in want:
                wrong("reference", f"a fresh process does not translate {version(rec, i, op['n'], f)}: {want['error']}", n)
                return
            if gen_build.plain(program) != want["program"]:
                wrong("program", f"the program is not that of the instrument with {op['n']} additions:\n" + differ(want["program"], gen_build.plain(program)), n)
                return
            got = CONFIGURED.search(program)
            flavor, (_, number, macro) = gen_build.FLAVOR[gen_build.FORM[f][0]], gen_build.RUNTIME[rec["instr"][i - 1]["rt"]]
            if not got or got.groups() != (str(macro), number, *flavor):
                wrong("configured", f"the runtime library is of version {number} for {flavor}; the program states {got and got.groups()}", n)
                return
            if kind == "translate" and op["again"] and said.getvalue() != want["said"]:
                wrong("printed", "what translating prints:\n" + differ(want["said"], said.getvalue()), n)
                return
    for i, thing in enumerate(things):
        fresh = gen_build.build(version(rec, i + 1, count[i], None))
        thing.registries = fresh.registries                # a translator includes the libraries' in those which it uses
        thing.determine_groups()
        fresh.determine_groups()
        if str(thing) != str(fresh):
            wrong("text", "the instrument's text is not what it would be without translating:\n" + differ(str(fresh), str(thing)), len(rec["log"]))
        if thing != fresh:
            wrong("changed", "the instrument is not equal to the same one which was not translated", len(rec["log"]))
        if [x.name for x in thing.component_types()] != [x.name for x in fresh.component_types()]:
            wrong("types", f"component types {[x.name for x in thing.component_types()]} instead of {[x.name for x in fresh.component_types()]}", len(rec["log"]))


def replay(recs):
    bad = []
    if not isinstance(recs, list):
        recs = [recs]
    ref = reference([v for rec in recs for v in asked(rec)], 1 + len(recs[0]["log"]) + 7 * len(recs[0]["instr"][0]["feats"]))
    where = scratch("verif-gen-")
    try:
        for rec in recs:
            history(rec, ref, where, bad)
    finally:
        shutil.rmtree(where, ignore_errors=True)
    return bad


def p25(check):
    check.assume("edits are ones a translator need not look at again, other than code; the time stated in a program is not compared")
    t = check.thorough
    num = lambda xs: "{" + ", ".join(map(str, xs)) + "}"
    tset = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"

    def constants(n, feats, most, rts, forms, edits, maxedits, trans, nops, ops, sampling):
        return dict(NInstr=n, Features=num(feats), Most=most, Runtimes=num(rts), Forms=num(forms), Edits=num(edits), MaxEdits=maxedits, NTrans=trans, MaxOps=nops,
                    Ops=tset(ops), Sampling="TRUE" if sampling else "FALSE")
    inv, props = ("Past", "Anew"), ("Kept", "Same")
    every = ["make", "translate", "save", "contents", "edit"]
    r = check.model("every short history", tlc("Generate", constants(1, [1], 1, [1], [1], [1, 2], 1, 1, 4, every, False), invariants=inv, properties=props, workers=8, timeout=400))
    step = 9 if t else 61
    check.run("every short history", replay, r.records[check.seed % step::step], batch=20)
    for label, ops, n in (("one after another", ["make", "contents", "aside"], 10), ("histories", every + ["aside", "translate", "edit"], 16)):
        c = constants(2, range(1, 10), 5, [1, 2, 3], [1, 2, 3, 4], range(1, 7), 4, 4, n, ops, True)
        r = check.model(f"sampled, {label}", tlc("Generate", c, invariants=inv, properties=props, simulate=300 if t else 25, depth=n + 5, seed=check.seed + n, timeout=400), exhaustive=False)
        check.run(f"sampled, {label}", replay, r.records, batch=12, limit=300)


CHECKS = dict(P25=p25)
