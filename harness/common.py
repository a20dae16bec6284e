"""Shared machinery: running TLC, replaying behaviours in parallel, verdicts and evidence."""
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
TLA_JAR = os.environ.get("TLA2TOOLS", "/opt/veriftools/tla/tla2tools.jar")
CORES = min(8, os.cpu_count() or 4)


class CheckError(RuntimeError):
    """The machinery itself failed (not a verdict about the code)."""


# ---------------------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.records = []
        self.output = ""
        self.wall = 0.0


_CLASSPATH = None


def _classpath():
    global _CLASSPATH
    if _CLASSPATH is None:
        jars = sorted(str(p) for p in Path(TLA_JAR).parent.glob("*.jar"))
        _CLASSPATH = ":".join([TLA_JAR] + [j for j in jars if j != TLA_JAR])
    return _CLASSPATH


def tlc(module, constants=None, spec="Spec", invariants=(), properties=(), constraint=None,
        view=None, postcondition=None, simulate=None, depth=None, seed=1, workers=4, timeout=600,
        symmetry=None, heap="4g", env=None, expect_ok=True, limit=None, init_next=None,
        action_constraint=None):
    """Run TLC on spec/<module>.tla and collect the JSON values it prints with Emit.

    ``simulate`` = number of behaviours to sample (with ``depth``); otherwise breadth-first
    exhaustive search. Constants are given as a dict of TLA+ text.
    """
    work = Path(tempfile.mkdtemp(prefix="verif-tlc-"))
    try:
        for f in SPEC.glob("*.tla"):
            shutil.copy(f, work / f.name)
        cfg = []
        if init_next:
            cfg += [f"INIT {init_next[0]}", f"NEXT {init_next[1]}"]
        else:
            cfg.append(f"SPECIFICATION {spec}")
        if constants:
            cfg.append("CONSTANTS")
            cfg += [f"  {k} <- MC_{k}" for k in constants]
        cfg += [f"INVARIANT {i}" for i in invariants]
        cfg += [f"PROPERTY {p}" for p in properties]
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if action_constraint:
            cfg.append(f"ACTION_CONSTRAINT {action_constraint}")
        if view:
            cfg.append(f"VIEW {view}")
        if symmetry:
            cfg.append(f"SYMMETRY {symmetry}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        cfg.append("CHECK_DEADLOCK FALSE")
        (work / "run.cfg").write_text("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Dtlc2.TLC.stopAfter=%d" % int(timeout),
               "-cp", _classpath(), "tlc2.TLC", "-metadir", str(work / "meta"), "-noGenerateSpecTE",
               "-config", "run.cfg", "-workers", str(workers)]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-seed", str(seed)]
        if depth:
            cmd += ["-depth", str(depth)]
        body = "".join(f"MC_{k} == {v}\n" for k, v in (constants or {}).items())
        (work / "MC.tla").write_text(f"---- MODULE MC ----\nEXTENDS {module}\n{body}====\n")
        cmd.append("MC.tla")
        start = time.time()
        res = TlcResult()
        try:
            proc = subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                  timeout=timeout + 60, env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired as err:
            raise CheckError(f"TLC timed out on {module}: {(err.output or b'')[-2000:]!r}")
        text = proc.stdout.decode(errors="replace")
        res.wall = time.time() - start
        other = []
        for line in text.splitlines():
            if line.startswith('"@@'):
                if limit is None or len(res.records) < limit:
                    res.records.append(json.loads(_untla(line)))
            else:
                other.append(line)
        res.output = "\n".join(other)
        m = None
        for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states", res.output):
            pass
        if m:
            res.generated, res.distinct = (int(g.replace(",", "")) for g in m.groups())
        else:
            for m in re.finditer(r"The number of states generated: ([\d,]+)", res.output):
                res.generated = res.distinct = int(m.group(1).replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", res.output)
        if m:
            res.depth = int(m.group(1))
        res.ok = proc.returncode == 0
        if expect_ok and not res.ok:
            raise CheckError(f"TLC failed on {module} (exit {proc.returncode}):\n{res.output[-6000:]}")
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _untla(line):
    """The TLA+ string literal TLC printed for "@@" \\o json -> the JSON text."""
    return json.loads(line)[2:]


# --------------------------------------------------------------------------- parallel replay
class Hang(BaseException):
    pass


def _alarm(_sig, _frame):
    raise Hang()


_FUNC = None
_LIMIT = 60


def _call(item):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(_LIMIT)
    try:
        devnull = open(os.devnull, "w")
        out, sys.stdout = sys.stdout, devnull
        err, sys.stderr = sys.stderr, devnull
        try:
            return _FUNC(item)
        finally:
            sys.stdout, sys.stderr = out, err
            devnull.close()
    except Hang:
        return [dict(kind="hang", detail=f"no answer within {_LIMIT} s", item=item)]
    except CheckError:
        raise
    except Exception as error:                                         # the real code raised
        return [dict(kind="exception", detail=f"{type(error).__name__}: {error}",
                     trace=traceback.format_exc()[-3000:], item=item)]
    finally:
        signal.alarm(0)


def replay(func, items, limit=60, workers=CORES, chunk=None):
    """Apply ``func`` to every behaviour; returns (number replayed, [mismatch, ...]).

    ``func`` returns a list of mismatches (dicts with at least kind and detail)."""
    global _FUNC, _LIMIT
    _FUNC, _LIMIT = func, limit
    items = list(items)
    if not items:
        return 0, []
    if len(items) < 4 or workers == 1:
        results = [_call(i) for i in items]
    else:
        ctx = mp.get_context("fork")
        chunk = chunk or max(1, min(50, len(items) // (workers * 4)))
        with ctx.Pool(workers) as pool:
            results = pool.map(_call, items, chunksize=chunk)
    bad = []
    for item, res in zip(items, results):
        for r in res or ():
            r.setdefault("item", item)
            bad.append(r)
    return len(items), bad


# ------------------------------------------------------------------------------- the verdict
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.time()
        self.states = self.transitions = 0
        self.replayed = 0
        self.samples = 0
        self.parts = {}
        self.bad = []
        self.assumptions = []
        self.exhaustive = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def model(self, name, result, exhaustive=True):
        self.states += result.distinct
        self.transitions += result.generated
        self.parts[f"tlc:{name}"] = dict(generated=result.generated, distinct=result.distinct,
                                         depth=result.depth, emitted=len(result.records),
                                         mode="exhaustive" if exhaustive else "simulation",
                                         wall_s=round(result.wall, 2))
        return result

    def run(self, name, func, items, limit=60, workers=CORES, chunk=None, batch=None):
        """batch: func takes that many behaviours at once, and gives the mismatches of all"""
        start = time.time()
        if batch:
            items = list(items)
            n = len(items)
            _, bad = replay(func, [items[i:i + batch] for i in range(0, n, batch)], limit, workers, 1)
        else:
            n, bad = replay(func, items, limit, workers, chunk)
        self.replayed += n
        self.parts[f"replay:{name}"] = dict(behaviours=n, mismatches=len(bad), wall_s=round(time.time() - start, 2))
        for b in bad:
            b["part"] = name
        self.bad += bad
        if os.environ.get("VERIF_STOP") and self.violated():
            raise CheckError("stopped at the first violation")
        return bad

    def violated(self):
        known = load_known(self.prop)
        return any(match_known(known, b) is None for b in self.bad)

    def need(self, cond, what):
        """Guards against a vacuous run: the machinery must have exercised something."""
        if not cond:
            raise CheckError(f"{self.prop}: nothing exercised: {what}")

    def assume(self, text):
        self.assumptions.append(text)

    def finish(self):
        known = load_known(self.prop)
        new, old = [], {}
        for b in self.bad:
            k = match_known(known, b)
            if k is None:
                new.append(b)
            else:
                old.setdefault(k["id"], (k, []))[1].append(b)
        for k, hits in old.values():
            print(f"KNOWN-FINDING: property={self.prop} {k['what']} ({len(hits)} behaviours)")
        replay_path = None
        shown = []
        if new:
            d = VERIF / "replay"
            d.mkdir(exist_ok=True)
            replay_path = d / f"{self.prop}-{self.tier}.json"
            new.sort(key=lambda b: len(json.dumps(b.get("item"), default=str)))
            shown = new[:20]
            replay_path.write_text(json.dumps(dict(property=self.prop, total=len(new), mismatches=shown),
                                              indent=1, default=str))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.replayed,
                                samples=self.samples or self.replayed, parts=self.parts),
                  wall_s=round(time.time() - self.start, 2), assumptions=self.assumptions,
                  violations=[dict(part=b.get("part"), kind=b.get("kind"), detail=str(b.get("detail"))[:2000])
                              for b in shown])
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
        for name, part in self.parts.items():
            print(f"  {name}: {part}")
        if new:
            for b in shown[:3]:
                print(f"  mismatch [{b.get('part')}] {b.get('kind')}: {str(b.get('detail'))[:1500]}")
            print(f"VIOLATION property={self.prop} replay={replay_path}")
            return 1
        print(f"OK property={self.prop} states={self.states} replayed={self.replayed} "
              f"wall={ev['wall_s']}s")
        return 0


def load_known(prop):
    path = VERIF / "known_findings.jsonl"
    known = []
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == prop and k.get("status") == "known":
                    known.append(k)
    return known


def match_known(known, bad):
    """A finding is identified by a signature the replay function computed from the failing input."""
    sig = bad.get("signature")
    for k in known:
        if sig is not None and sig == k.get("signature"):
            return k
    return None


def scratch(prefix="verif-"):
    return Path(tempfile.mkdtemp(prefix=prefix))


def main(checks):
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check = Check(prop, tier, seed)
    try:
        checks[prop](check)
    except Exception:
        if not check.violated():
            raise
        import traceback
        traceback.print_exc()                              # what was found before counts all the same
    return check.finish()
