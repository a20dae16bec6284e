"""P24: the management command follows spec/Manage.tla."""
import json
import os
import re
import shutil
import subprocess
import sys
import zlib
from pathlib import Path

import offline
from common import tlc, scratch

NOBODY = 65534
CHILD = Path(__file__).resolve().parent / "manage_child.py"
KEYS = {1: "cc", 2: "flags.ld", 3: "mpi.run", 4: "new.entry", 5: "extra"}
# values as they are written; the environment reads them as YAML, so that it only has plain ones
TEXTS = {1: "icx -g", 2: "-O2: ~ b", 3: "# no", 4: "yes", 5: "1.50", 6: "", 7: "µ 'x' \"y\"", 8: "-lm", 9: "${HOME} %s\\n"}
ENVIRONMENT = {1: "CC", 2: "MCCODEANTLR_FLAGS__LD", 3: "MCCODEANTLR_MPI__RUN", 5: "MCCODEANTLR_EXTRA"}
ODD = {"odd1": "..", "odd2": "../keep", "odd3": "TOP/keep", "odd4": ".", "odd5": "a/v1", "odd6": "a/../../keep"}
AGREE = ["y", "yes", "Y", "YES", "Yes"]
REFUSE = {"no": ["n", "no", "", "N"], "other": ["yep", "y es", "1", "true", "yn", " "], "end": None}
VERSIONS = {"v1": "v1.0.0", "v2": "v2.0.0", "v3": "dev"}


def defaults():
    import yaml
    from pathlib import Path
    d = Path(offline.REPO) / "src" / "mccode_antlr" / "config"
    c = {**yaml.safe_load((d / "config_default.yaml").read_text())}
    p = yaml.safe_load((d / "platforms.yaml").read_text())["Linux"]

    def merge(a, b):
        for k, v in b.items():
            if isinstance(v, dict) and isinstance(a.get(k), dict):
                merge(a[k], v)
            else:
                a[k] = v
        return a
    return merge(c, p)


def at(d, key):
    for k in key.split("."):
        if not isinstance(d, dict) or k not in d:
            return None
        d = d[k]
    return d


def odd(n, top):
    return ODD[n].replace("TOP", str(top)) if n in ODD else VERSIONS.get(n, n)


def user():
    """Arguments for a process without rights, where there can be one"""
    as_nobody = dict(user=NOBODY, group=NOBODY, extra_groups=[])
    try:
        r = subprocess.run([sys.executable, "-c", f"open({str(CHILD)!r}).read(); open({offline.REPO + '/src/mccode_antlr/cli/management.py'!r}).read(); import confuse"],
                           cwd="/", stderr=subprocess.DEVNULL, **as_nobody)
        return as_nobody if r.returncode == 0 else {}
    except (OSError, subprocess.SubprocessError):
        return {}


USER = None


def replay(rec):
    import yaml
    global USER
    if USER is None:
        USER = user()
    top = scratch("verif-manage-").resolve()
    bad, spoken = [], []
    given = defaults()
    seed = zlib.crc32(repr(rec["log"]).encode())

    def say(kind, what):
        bad.append(dict(kind=kind, detail=f"{what}\ncache {rec['first']}, environment {rec['env']}\n" + "\n".join(spoken)[:1500]))

    def text(k, v):
        return None if v == -1 else at(given, KEYS[k]) if v == 0 else TEXTS[v]

    def values(pairs):
        return {int(k): v for k, v in (pairs.items() if isinstance(pairs, dict) else enumerate(pairs, 1))}

    try:
        root = top / "cache" / "mccode_antlr"
        for n in rec["first"]["have"]:
            (root / ("" if n == "root" else n)).mkdir(parents=True, exist_ok=True)
        for e in rec["first"]["cache"]:
            d = root / e["name"] / VERSIONS[e["version"]]
            (d / "sub").mkdir(parents=True, exist_ok=True)
            (d / "file.txt").write_text("x")
            (d / "sub" / "other").write_text("y")
        for d in ("keep", "config", "else", "cache/keep", "cache/other-program/v1.0.0"):
            (top / d).mkdir(parents=True, exist_ok=True)
            (top / d / "precious").write_text("z")
        (root / "a-file").write_text("")                  # not a cache
        for d, _, files in os.walk(top):
            for x in (d, *(os.path.join(d, f) for f in files)):
                os.chown(x, USER.get("user", -1), USER.get("group", -1))
        env = {k: v for k, v in os.environ.items() if k != "CC" and not k.startswith(("MCCODEANTLR", "XDG"))}
        env.update(HOME=str(top), XDG_CACHE_HOME=str(top / "cache"), XDG_CONFIG_HOME=str(top / "config"), MCCODEANTLRDIR=str(top / "config"),
                   PYTHONDONTWRITEBYTECODE="1")
        for k, v in values(rec["env"]).items():
            if v != -1:
                env[ENVIRONMENT[k]] = TEXTS[v]
        processes = [[]]
        for i, op in enumerate(rec["log"]):
            r = seed + i
            call, answer = None, ""
            if op["op"] == "remove":
                call = ["cache", "remove", *([odd(op["n"], top)] if op["n"] else []), *([odd(op["v"], top)] if op["v"] else []), *([["-f", "--force"][r % 2]] if op["force"] else [])]
                if op["a"] == "yes":
                    answer = AGREE[r % len(AGREE)] + "\n"
                elif REFUSE[op["a"]]:
                    answer = REFUSE[op["a"]][r % len(REFUSE[op["a"]])] + "\n"
            elif op["op"] == "list":
                call = ["cache", "list", *([odd(op["n"], top)] if op["n"] else []), *([["-l", "--long"][r % 2]] if op["long"] else [])]
            elif op["op"] == "get":
                call = ["config", "get", KEYS[op["k"]]] + (["-v"] if r % 3 == 0 else [])
            elif op["op"] == "show":
                call = ["config", "list", *([op["p"]] if op["p"] else [])] if not op["p"].startswith("get") else ["config", *op["p"].split()]
            elif op["op"] == "set":
                call = ["config", "set", KEYS[op["k"]], *(["--"] if TEXTS[op["v"]].startswith("-") else []), TEXTS[op["v"]]]
            elif op["op"] == "save":
                call = ["config", "save", *([str(top / "else")] if op["elsewhere"] else [])] + (["-v"] if r % 2 else [])
            elif op["op"] == "start":
                processes.append([])
            if call:
                processes[-1].append((op, call, answer))
        left = set()
        for calls in processes:
            if not calls:
                continue
            job = dict(src=f"{offline.REPO}/src", top=str(top), calls=[(c, a) for _, c, a in calls])
            r = subprocess.run([sys.executable, "-s", str(CHILD)], input=json.dumps(job), text=True, env=env, cwd=top, **USER,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            if r.returncode:
                say("process", f"ends with {r.returncode}: {r.stderr[-600:]}")
                return bad
            for (op, call, answer), got in zip(calls, json.loads(r.stdout)):
                spoken.append(f"{' '.join(call)} [{answer.strip()}]: {got['error'] or got['out'][:200]!r}")
                if got["escaped"]:
                    say("outside", f"{call} removes {got['escaped']}, which is not within the cache")
                judge(op, call, got, top, text, values, given, say, yaml)
                if op["op"] == "save" and op["elsewhere"] and not (top / "else" / "config.yaml").is_file():
                    say("saved", "nothing is written at the place given")
                if bad:
                    return bad
        real = {str(p.relative_to(root)) for p in root.glob("*") if p.is_dir()} | {str(p.relative_to(root)) for p in root.glob("*/*") if p.is_dir()}
        want = {n for n in rec["have"] if n != "root"} | {f"{e['name']}/{VERSIONS[e['version']]}" for e in rec["left"]}
        if real != want or root.exists() != ("root" in rec["have"]):
            say("cache", f"what is left is {sorted(real)} instead of {sorted(want)}")
        for e in rec["left"]:
            if not all((root / e["name"] / VERSIONS[e["version"]] / f).is_file() for f in ("file.txt", "sub/other")):
                say("cache", f"files of {e} are lost")
        for d in ("keep", "config", "else", "cache/keep", "cache/other-program/v1.0.0"):
            if not (top / d / "precious").is_file():
                say("outside", f"{d} is lost")
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return bad


def judge(op, call, got, top, text, values, given, say, yaml):
    kind = op["op"]
    if kind in ("remove", "list"):
        refused = kind == "remove" and not op["force"] and op["a"] == "end"
        if op["fails"] and got["error"] is None:
            say("accepted", f"{call} goes well")
        elif not op["fails"] and not refused and got["error"] is not None:
            say("refused", f"{call}: {got['error']}")
        elif kind == "list" and not op["fails"]:
            lines = got["out"].splitlines()
            want = sorted(VERSIONS.get(x, x) for x in op["is"])
            shown = [x.strip() for x in lines[1:] if x.strip()]
            place = top / "cache" / "mccode_antlr" / op["n"]
            if shown != [str(place / w) if op["long"] else w for w in want]:
                say("list", f"{call} shows {shown}, there are {want}")
            m = re.match(r"(\d+) known caches? for (.+):$", lines[0] if lines else "")
            if m is None or int(m.group(1)) != len(want) or m.group(2) != (op["n"] or "mccode_antlr"):
                say("list", f"{call} says {lines[:1]} of {want}")
        return
    if got["error"] is not None:
        say("error", f"{call}: {got['error']}")
        return
    if kind == "get":
        want = text(op["k"], op["is"])
        try:
            shown = yaml.safe_load(got["out"])
        except yaml.YAMLError as e:
            shown = f"no YAML: {e}"
        if want is None:
            if isinstance(shown, dict) or "-v" not in call and got["out"].strip():
                say("get", f"{call} says {got['out']!r} of a key which has no value")
        elif shown != {KEYS[op["k"]]: want}:
            say("get", f"{call} says {got['out']!r}, the value is {want!r}")
    elif kind == "show":
        shown = yaml.safe_load(got["out"]) or {}
        for k, v in values(op["is"]).items():
            name = KEYS[k]
            here = k in op["keys"]
            want = text(k, v) if here else None
            if at(shown, name) != want:
                say("show", f"{call} shows {at(shown, name)!r} for {name}, expected {want!r}")
        if op["p"] in ("", "get"):
            for name in given:
                if name not in shown:
                    say("show", f"{call} does not show {name}")


PATTERNS = {"": KEYS, "get": KEYS, "get flags": [2], "get new": [4], "cc": [1], "flags": [2], "^m": [3], "e": [4, 5], "nothing": [], "^(cc|new)$": [1, 4], "r": [5]}


def p24(check):
    check.assume("configuration values are texts; unset is outside the model")
    t = check.thorough
    num = lambda xs: "{" + ", ".join(map(str, xs)) + "}"
    tset = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"

    def constants(ops, nops, sampling, odd=list(ODD), names=("a", "b", "c d"), versions=tuple(VERSIONS), answers=("yes", "no", "other", "end"), keys=KEYS, values=TEXTS):
        return dict(Names=tset(names), Versions=tset(versions), Odd=tset(odd), Answers=tset(answers), Keys=num(keys), Default=num(set(keys) & {1, 2, 3}),
                    EnvKeys=num(set(keys) & {1, 2, 3}), Values=num(values), EnvValues=num(set(values) & {1, 8}), Ops=tset(ops), MaxOps=nops, Sampling="TRUE" if sampling else "FALSE",
                    Patterns="{" + ", ".join(f'[p |-> "{p}", keys |-> {num(set(k) & set(keys))}]' for p, k in PATTERNS.items()) + "}")
    inv = ("SavedStays", "Within")
    props = ("OnlyRemoved", "NothingElse")
    r = check.model("every removal", tlc("Manage", constants(["remove"], 1, False, names=("a",), versions=("v1", "v2"), keys=[4], values=[1]), invariants=inv, properties=props, workers=8, timeout=400))
    step = 1 if t else 11
    check.run("every removal", replay, r.records[check.seed % step::step], chunk=20)
    r = check.model("every short history", tlc("Manage", constants(["get", "set", "save", "start"], 5, False, names=(), versions=(), keys=[2], values=[1, 5]), invariants=inv, properties=props, workers=8, timeout=400))
    step = 5 if t else 90
    check.run("every short history", replay, r.records[check.seed % step::step], chunk=20)
    for label, ops, n in (("cache", ["remove", "remove", "list", "start"], 5), ("configuration", ["get", "set", "save", "start", "show"], 9), ("both", ["remove", "list", "get", "set", "save", "start", "show"], 12)):
        c = constants(ops, n, True)
        r = check.model(f"sampled, {label}", tlc("Manage", c, invariants=inv, properties=props, simulate=700 if t else 45, depth=n + 3, seed=check.seed + n, timeout=400), exhaustive=False)
        check.run(f"sampled, {label}", replay, r.records, chunk=20)


CHECKS = dict(P24=p24)
