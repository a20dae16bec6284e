"""P09 and P10: compiled programs follow spec/Raytrace.tla."""
import json
import random
from collections import defaultdict

import offline  # noqa: F401
from common import tlc, scratch
import cprog
import shutil

ACT_BODY = """
TRACE
%{
  int o;
  verif_log(_comp->_index, _particle);
  printf("FL %d\\n", (int)_particle->flag);
  o = verif_next();
  if (o == 1 || o == 4) { x += 1; t += 1; }
  if (o == 2) { double h = VX; x += 2; t += 2; VX = VY; VY = VZ; VZ = h; p *= 2; }
  if (o == 2 || o == 5 || o == 6) SCATTER;
  if (o == 3 || o == 6) ABSORB;
  if (o == 4 || o == 5) RESTORE_PARTICLE;
%}
END
"""


def comps_for(flavor):
    v = "v" if flavor == "mcstas" else "k"
    restore = ("RESTORE_NEUTRON(INDEX_CURRENT_COMP, x, y, z, vx, vy, vz, t, sx, sy, sz, p);" if flavor == "mcstas"
               else "RESTORE_XRAY(INDEX_CURRENT_COMP, x, y, z, kx, ky, kz, phi, t, Ex, Ey, Ez, p);")
    restore = restore.replace("INDEX_CURRENT_COMP", "_comp->_index")
    body = ACT_BODY.replace("RESTORE_PARTICLE;", restore)
    for c in "XYZ":
        body = body.replace(f"V{c}", f"{v}{c.lower()}")
    return {
        "Act": f"DEFINE COMPONENT Act SETTING PARAMETERS (int id=0)\n{body}",
        "Bct": f"DEFINE COMPONENT Bct SETTING PARAMETERS (int id=0)\n{body}",
        "Hold": "DEFINE COMPONENT Hold SETTING PARAMETERS (int id=0)\nEND\n",
    }


def name(i):
    return f"c{i}"


def jump_forms(i, t):
    forms = [name(t)]
    d = t - i
    if d == 0:
        forms.append("MYSELF")
    elif d < 0:
        forms.append(f"PREVIOUS({-d})")
        if d == -1:
            forms.append("PREVIOUS")
    else:
        forms.append(f"NEXT({d})")
        if d == 1:
            forms.append("NEXT")
    return forms


def render(cfg, rng, funnel=False, copies=False):
    """The instrument text stating the components of ``cfg``."""
    out = ["DEFINE INSTRUMENT generated(int one=1, int two=2, int quarter=90)",
           "USERVARS %{ int flag; %}", "TRACE"]
    ref = lambda i: "ABSOLUTE" if i == 0 else f"RELATIVE {name(i)}"
    written = {}   # the JUMP targets each component has, as they were written
    for i, c in enumerate(cfg, 1):
        s = []
        if funnel and rng.random() < 0.4:
            s.append("CPU")
        if c["split"]:
            s.append(rng.choice([f"SPLIT {c['split']}", f"SPLIT {c['split'] - 1}*one+1"]))
        kind = rng.choice(["Act", "Bct"]) if c["act"] else "Hold"
        # a component can also be stated as a copy of one which has nothing that this one does not
        others = [k for k in range(1, i) if cfg[k - 1]["act"] == c["act"]
                  and all(c[a] or not cfg[k - 1][a] for a in ("when", "grp", "ext", "jump"))]
        src = None
        if others and (copies or rng.random() < 0.4):
            src = rng.choice(others)
            kind = f"COPY({name(src)})"
        same = lambda a: src is not None and cfg[src - 1][a] == c[a] and rng.random() < 0.7
        s.append(f"COMPONENT {name(i)} = {kind}(id={i})")
        if same("when"):
            pass
        elif c["when"] == 1:
            s.append(rng.choice(["WHEN (flag == 1)", "WHEN (flag == one)", "WHEN flag"]))
        elif c["when"] == 2:
            s.append(rng.choice(["WHEN (flag == 0)", "WHEN (!flag)", "WHEN (flag < one)"]))
        aref = c["aref"]
        aref_text = ref(aref)
        if aref and aref == i - 1 and rng.random() < 0.4:
            aref_text = rng.choice(["RELATIVE PREVIOUS", "RELATIVE PREVIOUS(1)"])
        elif aref and rng.random() < 0.3:
            aref_text = f"RELATIVE PREVIOUS({i - aref})"
        s.append("AT ({}, {}, {}) {}".format(*c["at"], aref_text))
        if c["rref"] != -1:
            ang = [{0: "0", 1: rng.choice(["90", "quarter", "45*two"]), 2: rng.choice(["180", "two*quarter"]),
                    3: rng.choice(["270", "-90", "-quarter"])}[q] for q in c["rot"]]
            s.append("ROTATED ({}, {}, {}) {}".format(*ang, ref(c["rref"])))
        if c["grp"] and not same("grp"):
            s.append(f"GROUP g{c['grp']}")
        if c["ext"] and not same("ext"):
            s.append("EXTEND %{ flag = " + {1: "1", 2: "SCATTERED ? 1 : 0", 3: "0"}[c["ext"]] + "; %}")
        targets = [rng.choice(jump_forms(i, j["to"])) for j in c["jump"]]
        inherit = src is not None and c["jump"] and [(j["k"], j["n"]) for j in c["jump"]] == \
            [(j["k"], j["n"]) for j in cfg[src - 1]["jump"]] and \
            all(w in jump_forms(i, j["to"]) for w, j in zip(written[src], c["jump"]))
        written[i] = written[src] if inherit else targets
        for j, target in zip(() if inherit else c["jump"], targets):
            cond = {1: "WHEN (flag == 1)", 2: "WHEN (flag == 0)", 3: f"ITERATE {j['n']}"}[j["k"]]
            s.append(f"JUMP {target} {cond}")
        out.append(" ".join(s))
    out.append("END")
    return "\n".join(out) + "\n"


def logs(lines):
    """The runs of a program: list of (events, leftover choices, exhausted)."""
    runs, cur = [], None
    for line in lines:
        w = line.split()
        if not w:
            continue
        if w[0] == "RUN":
            cur = []
        elif w[0] == "EV" and cur is not None:
            cur.append([int(w[1])] + [float(v) for v in w[2:]])
        elif w[0] == "FL" and cur:
            cur[-1].append(int(w[1]))
        elif w[0] == "END":
            runs.append((cur, int(w[1]), int(w[2])))
            cur = None
    return runs


def expected(log):
    return [[e["i"], *e["p"], *e["v"], 0, e["t"], e["num"] / e["den"], e["flag"]] for e in log]


def close(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(abs(p - q) < 2e-4 for p, q in zip(x, y))
                                     for x, y in zip(a, b))


def explain(exp, got):
    for k in range(max(len(exp), len(got))):
        if k >= len(exp) or k >= len(got) or not close([exp[k]], [got[k]]):
            return f"event {k + 1}: expected {exp[k] if k < len(exp) else None}, program logged {got[k] if k < len(got) else None}"
    return "logs differ"


def poses_of(lines):
    out = {}
    for line in lines:
        w = line.split()
        if w and w[0] == "POSE":
            v = [float(x) for x in w[2:]]
            out[w[1]] = (v[:3], v[3:])
    return out


def replay_config(item):
    """One instrument, all of its scripts."""
    cfg, runs, flavor, seed = item["cfg"], item["runs"], item["flavor"], item["seed"]
    rng = random.Random(f"{seed}/{json.dumps(cfg, sort_keys=True)}")
    funnel = item.get("funnel", False)
    text = render(cfg, rng, funnel, item.get("copies", False))
    bad = []
    try:
        instr = cprog.parse(text, comps_for(flavor))
        with cprog.Program(cprog.generate(instr, flavor), defines=["FUNNEL"] if funnel else []) as prog:
            lines = prog.run(stdin="".join("".join(map(str, r["script"])) + "\n" for r in runs))
    except cprog.ProgramError as error:
        return [dict(kind="program", detail=str(error) + "\n" + text, item=dict(cfg=cfg, text=text))]
    got = logs(lines)
    if len(got) != len(runs):
        return [dict(kind="runs", detail=f"{len(got)} runs completed of {len(runs)}\n{text}")]
    for run, (events, left, exhausted) in zip(runs, got):
        exp = expected(run["log"])
        if not close(exp, events) or left or exhausted:
            bad.append(dict(kind="trace", detail=f"script {run['script']}: {explain(exp, events)} "
                            f"(unused choices {left}, missing {exhausted})\n{text}",
                            item=dict(cfg=cfg, script=run["script"], expected=exp, got=events, text=text)))
            if len(bad) > 3:
                break
    if item.get("pinned"):
        for b in bad:
            got = [(e[0], e[3], e[8], e[9]) for e in b["item"].get("got", ())]
            b["signature"] = f"{item['pinned']}:{got}"
    poses = poses_of(lines)
    for i, pose in enumerate(runs[0]["poses"], 1):
        want = (pose["p"], [v for row in pose["r"] for v in row])
        have = poses.get(name(i))
        if have is None or any(abs(a - b) > 2e-4 for w, h in zip(want, have) for a, b in zip(w, h)):
            bad.append(dict(kind="pose", detail=f"component {name(i)}: expected {want}, program has {have}\n{text}"))
    return bad


ALL_ROTS = "{<<x, y, z>> : x \\in 0..3, y \\in 0..3, z \\in 0..3}"
FLOW = dict(MaxComps=2, Ats="{<<0,0,1>>}", Rots="{<<0,0,0>>}", Whens="{0,1,2}", Splits="{0,2,3}",
            Exts="{0,1,2,3}", JumpKinds="{1,2,3}", Outcomes="0..6", Arms="{FALSE,TRUE}", Groups="TRUE",
            Refs='"prev"', MaxLog=24, CfgFile='""', Sampling="TRUE")
COORD = dict(MaxComps=2, Ats="{<<0,0,0>>,<<0,0,1>>,<<2,0,0>>,<<0,3,1>>,<<1,-2,3>>}", Rots=ALL_ROTS, Whens="{0,1}",
             Splits="{0,2}", Exts="{0,2}", JumpKinds="{1,3}", Outcomes="{0,1,2,4}", Arms="{FALSE,TRUE}",
             Groups="TRUE", Refs='"any"', MaxLog=16, CfgFile='""', Sampling="TRUE")
INVARIANTS = ["TypeOK", "WeightBounded", "GroupExclusive", "GroupSameEntry"]


def configs(check, base, sizes, seed):
    """Sampled instruments of each size, drawn by TLC from the build phase of the specification."""
    seen, out = set(), []
    for n, count in sizes:
        res = tlc("Raytrace", dict(base, MaxComps=n), spec="SpecBuild", simulate=int(count * 1.6) + 5, depth=n + 2,
                  seed=seed + n, workers=1)
        check.model(f"build-{n}", res, exhaustive=False)
        k = 0
        for r in res.records:
            key = json.dumps(r["cfg"], sort_keys=True)
            if key not in seen and k < count:
                seen.add(key)
                out.append(r["cfg"])
                k += 1
    return out


def behaviours(check, base, cfgs, per_cfg, seed, label):
    """Schedules of the given instruments, from the run phase of the specification."""
    work = scratch("verif-cfg-")
    try:
        f = work / "cfgs.ndjson"
        f.write_text("".join(json.dumps(dict(cfg=c)) + "\n" for c in cfgs))
        res = tlc("Raytrace", dict(base, CfgFile=json.dumps(str(f))), simulate=per_cfg * len(cfgs), depth=80,
                  seed=seed, workers=1, timeout=900, invariants=["TypeOK", "GroupSameEntry"])
        check.model(f"run-{label}", res, exhaustive=False)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return res.records


def grouped(records, seed, flavor=None):
    by = defaultdict(dict)
    for r in records:
        by[json.dumps(r["cfg"], sort_keys=True)].setdefault(json.dumps(r["script"]), r)
    items = []
    for k, runs in by.items():
        runs = [dict(script=r["script"], log=r["log"], poses=r["poses"]) for r in runs.values()]
        fl = flavor or ("mcxtrace" if len(items) % 3 == 2 else "mcstas")
        items.append(dict(cfg=json.loads(k), runs=runs, flavor=fl, seed=seed))
    return items


def check_flow(check, base, exhaustive, sizes, per_cfg):
    res = tlc("Raytrace", dict(base, Sampling="FALSE", **exhaustive), invariants=INVARIANTS, workers=8, timeout=800)
    check.model("exhaustive", res)
    items = grouped(res.records, check.seed)
    keep = 300 if not check.thorough else 3000
    rng = random.Random(check.seed)
    if len(items) > keep:
        items = rng.sample(items, keep)
    for it in items:
        it["runs"] = it["runs"][:200]
    check.samples += sum(len(i["runs"]) for i in items)
    check.run("small instruments, all schedules", replay_config, items, limit=120)
    cfgs = configs(check, base, sizes, check.seed)
    recs = behaviours(check, base, cfgs, per_cfg, check.seed, "sampled")
    items = grouped(recs, check.seed)
    check.samples += sum(len(i["runs"]) for i in items)
    check.run("larger instruments, sampled schedules", replay_config, items, limit=120)
    check.need(len(items) > 20, "sampled instruments")


FUNNEL = dict(FLOW, Splits="{0}", JumpKinds="{}", Ats=COORD["Ats"], Rots="{<<0,0,0>>,<<1,0,0>>,<<0,1,3>>,<<2,3,1>>}",
              Refs='"any"')


def check_funnel(check, sizes, per_cfg):
    """The alternative event loop (-DFUNNEL, used when any component is CPU): the same flow, without JUMP and SPLIT."""
    cfgs = configs(check, FUNNEL, sizes, check.seed + 100)
    items = grouped(behaviours(check, FUNNEL, cfgs, per_cfg, check.seed + 1, "funnel"), check.seed)
    for it in items:
        it["funnel"] = True
    check.samples += sum(len(i["runs"]) for i in items)
    check.run("FUNNEL event loop, sampled schedules", replay_config, items, limit=120)
    check.need(len(items) > 20, "FUNNEL instruments")


def pinned(check):
    """A configuration the sampled instruments leave out: a JUMP from within a SPLIT region to its start."""
    c = dict(act=True, when=0, split=0, grp=0, ext=0, jump=[], at=[0, 0, 1], aref=0, rot=[0, 0, 0], rref=-1)
    cfg = [dict(c, split=2), dict(c, aref=1, jump=[dict(k=3, to=1, n=2)])]
    items = grouped(behaviours(check, dict(FLOW, Outcomes="{0}"), [cfg], 1, 1, "jump-in-split"), 1, "mcstas")
    check.need(len(items) == 1, "pinned configuration")
    items[0]["pinned"] = "jump-in-split"
    check.run("pinned: JUMP inside SPLIT", replay_config, items)


def p09(check):
    check.assume("TRACE bodies follow the outcome alphabet of Raytrace.tla; the McCode C runtime is replaced by a stand-in")
    check.assume("JUMPs into or out of a GROUP and from inside a SPLIT region are outside the modelled instruments")
    if check.thorough:
        check_flow(check, FLOW, dict(MaxComps=3, Whens="{0,1}", Exts="{0,2}", Splits="{0,2}", JumpKinds="{1,3}",
                                     Outcomes="{0,2,3}", MaxLog=4, Arms="{FALSE}"),
                   [(3, 500), (4, 800), (5, 800), (6, 500), (8, 200)], 40)
        check_funnel(check, [(3, 300), (5, 500), (7, 300)], 40)
    else:
        check_flow(check, FLOW, dict(MaxComps=2, MaxLog=4, Outcomes="{0,2,3,4}", Whens="{0,1}", Exts="{0,1,2}",
                                     Splits="{0,2}", JumpKinds="{1,3}"),
                   [(3, 60), (4, 120), (5, 120), (6, 40)], 25)
        check_funnel(check, [(3, 60), (5, 100)], 20)
    pinned(check)


def p10(check):
    check.assume("rotations are multiples of 90 degrees and displacements integers, where the model is exact")
    small = dict(MaxComps=2, Rots="{<<0,0,0>>,<<1,0,0>>,<<0,1,3>>}", Ats="{<<0,0,0>>,<<1,0,2>>}", Whens="{0}", Splits="{0}",
                 Exts="{0}", JumpKinds="{1}", Outcomes="{1}", MaxLog=3)
    if check.thorough:
        check_flow(check, COORD, dict(small, Rots=ALL_ROTS), [(3, 800), (4, 800), (5, 800), (6, 400), (8, 200)], 12)
    else:
        check_flow(check, COORD, small, [(3, 100), (4, 120), (5, 80), (6, 40)], 8)


CHECKS = dict(P09=p09, P10=p10)
