"""P01 - P07, P17, P18: instruments mean and keep what spec/Instrument.tla says."""
import json

import offline  # noqa: F401
from common import tlc
import cprog
import instr_model as im
from instr_model import hdr, par, tlaset

H0 = hdr("main", [par("pa", d=1), par("pab", u=1), par("pn", "int", 1)], md=[])
BASE = dict(MaxComps=2, MaxFiles=0, Depth=0, Names='{"c1","c2"}', Types='{"Det"}', Headers=tlaset([H0]),
            Values="{<<>>}", Whens="{0}", Splits="{0}", Exts="{0}", Grps="{0}", Rems="{FALSE}", Cpus="{FALSE}",
            Ats="{<<0,0,1>>}", Rots="{}", Syms="{0}", RefKinds='{"name","prev"}', BadRefs="FALSE",
            NameKinds='{"id"}', TypeKinds='{"type"}', JumpKinds="{}", JumpForms="{}", Mds="{<<>>}",
            Extra='"none"', Sampling="FALSE")


def pv(*items):
    return [dict(p=p, v=v) for p, v in items]


def md(*items):
    return [dict(n=n, v=v) for n, v in items]


VALUES = [pv(), pv(("len", 1)), pv(("len", 2), ("txt", 1)), pv(("len", 3)), pv(("num", 2), ("len", 4)), pv(("len", 5), ("num", 1)),
          pv(("txt", 2)), pv(("vec", 1)), pv(("vec", 3)), pv(("num", 3), ("vec", 2), ("txt", 3)), pv(("txt", 7))]
HEADERS = [hdr("main", [par("pa", d=1), par("pab", u=1), par("pn", "int", 1)], decl=1, init=2, md=md(("m1", 1))),
           hdr("main", [par("pn", "int", 2, 1), par("ps", "string", 1), par("pa")], dep=1, decl=1, init=4, save=6, fin=4),
           hdr("main", [par("ps", "string", 0), par("pab", d=2, u=2), par("pn", "int", 0), par("pa", d=1)], decl=2, save=1,
               md=md(("m1", 2), ("m2", 3))),
           hdr("main", [], decl=3, fin=1, save=2)]
FULL = dict(BASE, MaxComps=4, Names='{"c1","c2","c3","c4","c5"}', Types='{"Det","Slot","Arm","Cpu"}', Headers=tlaset(HEADERS),
            Values=tlaset(VALUES), Whens="0..4", Splits="0..3", Exts="0..3", Grps="0..2", Rems="{FALSE,TRUE}", Cpus="{FALSE,TRUE}",
            Ats="{<<0,0,0>>,<<0,0,1>>,<<2,0,0>>,<<0,3,1>>,<<1,-2,3>>}",
            Rots="{<<0,0,0>>,<<1,0,0>>,<<0,1,3>>,<<2,3,1>>,<<0,0,2>>}", Syms="0..6",
            RefKinds='{"name","prev"}', TypeKinds='{"type","copy"}', NameKinds='{"id","copyid","anon"}',
            JumpKinds="{1,2,3}", JumpForms='{"name","prev","next","myself"}',
            Mds=tlaset([[], md(("m1", 1)), md(("m2", 2)), md(("m1", 2), ("m2", 3)), md(("m1", 1), ("m1", 3))]), Sampling="TRUE")
INVARIANTS = ["UniqueNames", "RefsEarlier", "NothingRemovableIncluded", "PosesConsistent", "SplitKeepsPoses", "SecondSelfContained", "PartsTile"]


def records(check, name, consts, sample=None, seed=None, limit=None):
    res = tlc("Instrument", dict(BASE, **consts), invariants=INVARIANTS, workers=1 if sample else 8, timeout=800,
              simulate=sample, depth=40 if sample else None, seed=seed or check.seed)
    check.model(name, res, exhaustive=not sample)
    seen, out = set(), []
    for r in res.records:
        key = json.dumps(r["script"], sort_keys=True)
        if key not in seen:
            seen.add(key)
            out.append(r)
    if limit and len(out) > limit:
        import random
        out = random.Random(check.seed).sample(out, limit)
    return out


def source(rec):
    return im.render(rec["script"], 1)


def shown(rec):
    main, files = source(rec)
    return main + "".join(f"--- {k}.instr\n{v}" for k, v in files.items())


def replay_parse(rec):
    main, files = source(rec)
    try:
        instr = (im.parse_files if len(main) % 4 == 0 else im.parse)(main, files)
    except RuntimeError as error:
        if rec["err"]:
            return []
        return [dict(kind="refused", detail=f"refused: {error}\n{shown(rec)}")]
    if rec["err"]:
        return [dict(kind="accepted", detail=f"should be refused ({rec['err']}) but is read as "
                     f"{[(c.name, c.type.name, c.at_relative[1], c.rotate_relative[1]) for c in instr.components]}\n{shown(rec)}")]
    return [dict(kind="meaning", detail=f"{x}\n{shown(rec)}") for x in im.check_instrument(rec["res"], instr)[:3]]


def p01(check):
    check.assume("expressions are compared by value at fixed assignments of the names in them")
    t = check.thorough
    small = records(check, "references", dict(MaxComps=3 if t else 2, Names='{"c1","c2","c3"}', BadRefs="TRUE", TypeKinds='{"type","copy"}',
                                              Types='{"Det","Gone"}' if t else '{"Det"}', Rots="{<<1,0,0>>}"),
                    limit=40000 if t else 4000)
    if not t:
        small += records(check, "references-3", dict(MaxComps=3, Names='{"c1","c2","c3"}', BadRefs="TRUE"), limit=2000)
    check.run("every reference form", replay_parse, small)
    small = records(check, "modifiers", dict(MaxComps=2, Whens="{0,1}", Splits="{0,2}", Exts="{0,1}", Grps="{0,1}",
                                             Rems="{FALSE,TRUE}", Cpus="{FALSE,TRUE}", RefKinds='{"prev"}',
                                             JumpKinds="{1}" if t else "{}", JumpForms='{"name"}'), limit=20000 if t else 5000)
    check.run("every modifier combination", replay_parse, small)
    for n in (3, 4, 6) + ((9,) if t else ()):
        recs = records(check, f"sampled-{n}", dict(FULL, MaxComps=n, BadRefs="TRUE", Types='{"Det","Slot","Arm","Cpu","Gone"}',
                                                   Values=tlaset(VALUES + [pv(("nopar", 1)), pv(("txt", 8)), pv(("txt", 9))])),
                       sample=8000 if t else 700, seed=check.seed + n)
        check.run(f"sampled, {n} components", replay_parse, recs)
        check.need(sum(1 for r in recs if not r["err"]) > 50 and sum(1 for r in recs if r["err"]) > 20, "sampled sources")


INCHEADERS = HEADERS + [hdr("sub", [par("pa", d=2), par("ps", "string", 2)], dep=2, decl=2, init=1, save=2, fin=1, md=md(("m1", 3), ("m2", 1))),
                        hdr("deep", [par("px"), par("pn", "int", 2)], decl=1, user=3, init=4, save=1, md=md(("m2", 2))),
                        hdr("other", [par("pab", d=1, u=1)], dep=3, fin=4), hdr("twice", [par("pa"), par("pa")])]


def p02(check):
    t = check.thorough
    three = [HEADERS[0], INCHEADERS[4], INCHEADERS[5]]
    small = records(check, "every position and removable subset",
                    dict(MaxComps=3 if t else 2, MaxFiles=2, Depth=2, Names='{"c1","c2","c3","c4"}', Headers=tlaset(three),
                         Rems="{FALSE,TRUE}", RefKinds='{"prev"}', BadRefs="FALSE", Ats="{<<0,0,1>>}"), limit=40000 if t else 5000)
    check.run("every include position", replay_parse, small)
    for n, depth in ((4, 1), (6, 2)) + (((9, 3),) if t else ()):
        recs = records(check, f"sampled-{n}-{depth}",
                       dict(FULL, MaxComps=n, MaxFiles=depth + 1, Depth=depth, Headers=tlaset(INCHEADERS), BadRefs="TRUE",
                            NameKinds='{"id","copyid","anon"}', Values=tlaset(VALUES + [pv(("txt", 8))])),
                       sample=8000 if t else 1500, seed=check.seed + n)
        recs = [r for r in recs if sum(1 for o in r["script"] if o["op"] == "file") > 1]
        check.run(f"sampled, {n} components, includes {depth} deep", replay_parse, recs)
        check.need(sum(1 for r in recs if not r["err"]) > 50, "sampled sources")


def apply_change(instr, op):
    from mccode_antlr.instr.jump import Jump
    from mccode_antlr.common import Expr, MetaData
    inst, ch = instr.components[op["i"] - 1], op["ch"]
    if ch["k"] == "par":
        for p in ch["pv"]:
            inst.set_parameter(p["p"], im.VALUES[p["p"], p["v"]][0], overwrite=True)
    elif ch["k"] == "when":
        inst.WHEN(im.WHENS[ch["n"]][0])
    elif ch["k"] == "ext":
        inst.EXTEND(im.EXTENDS[ch["n"]])
    elif ch["k"] == "split":
        inst.SPLIT(im.SPLITS[ch["n"]][0] or "10")
    elif ch["k"] == "group":
        inst.GROUP(f"g{ch['n']}")
    elif ch["k"] == "jump":
        made = []
        for j in ch["jump"]:
            n = max(1, j["n"])
            target, rel = {"name": (j["s"], 0), "myself": ("MYSELF", 0), "prev": ("PREVIOUS" + (f"_{n}" if j["n"] else ""), -n),
                           "next": ("NEXT" + (f"_{n}" if j["n"] else ""), n)}[j["f"]]
            made.append(Jump(target, rel, j["k"] == 3, Expr.parse(str(j["m"]) if j["k"] == 3 else im.JUMPS[j["k"]][1])))
        inst.JUMP(*made)
    else:
        for m in ch["md"]:
            inst.add_metadata(MetaData.from_instance_tokens(inst.name, im.MIME.get(m["v"], "text").strip('"'), f"m{m['n'][1:]}",
                                                            im.MDTEXT[m["v"]]))


def replay_changes(rec):
    if rec["err"]:
        return []
    main, files = im.render([o for o in rec["script"] if o["op"] != "change"], 1)
    instr = im.parse(main, files)
    changes = [o for o in rec["script"] if o["op"] == "change"]
    for op in changes:
        apply_change(instr, op)
    d = im.Diff()
    for c, inst in zip(rec["res"]["comps"], instr.components):
        im.check_component(d, c, inst, instr.components)
    return [dict(kind="change", detail=f"{x}\nafter {changes}\n{main}") for x in d.items[:3]]


def copied_flows(check, count, per):
    """Compiled instruments whose components are chains of copies, against spec/Raytrace.tla"""
    import random
    import check_trace as ct
    rng = random.Random(check.seed)
    cfgs, seen = [], set()
    while len(cfgs) < count:
        cfg, n = [], rng.choice([2, 3, 3, 4, 5])
        rel = None
        for i in range(1, n + 1):
            if cfg and rng.random() < 0.6:
                c = dict(cfg[-1])
            else:
                c = dict(act=True, when=rng.choice([0, 0, 1, 2]), split=0, grp=0, ext=rng.choice([0, 1, 2, 3]), jump=[],
                         at=[0, 0, 1], aref=0, rot=[0, 0, 0], rref=-1)
                rel = [(rng.choice([1, 2, 3, 3]), rng.choice([-2, -1, -1, 0, 1]), 2) for _ in range(rng.choice([0, 1, 1, 2]))]
            c["aref"] = i - 1
            c["jump"] = [dict(k=k if d <= 0 else min(k, 2), to=i + d, n=m if k == 3 and d <= 0 else 0) for k, d, m in rel]
            cfg.append(c)
        if any(not 1 <= j["to"] <= n for c in cfg for j in c["jump"]) or not any(c["jump"] or c["when"] for c in cfg):
            continue
        key = json.dumps(cfg)
        if key not in seen:
            seen.add(key)
            cfgs.append(cfg)
    items = ct.grouped(ct.behaviours(check, dict(ct.FLOW, Outcomes="{0,2,3}"), cfgs, per, check.seed, "copies"), check.seed)
    for it in items:
        it["copies"] = True
    check.samples += sum(len(i["runs"]) for i in items)
    check.need(len(items) > 20, "compiled instruments with copies")
    check.run("compiled chains of copies", ct.replay_config, items, limit=120)


def p03(check):
    t = check.thorough
    copies = dict(FULL, TypeKinds='{"copy"}')
    small = records(check, "chains of copies", dict(MaxComps=3, Names='{"c1","c2","c3"}', TypeKinds='{"copy"}', RefKinds='{"prev"}',
                                                    Values=tlaset([pv(), pv(("len", 1)), pv(("len", 3), ("txt", 1))]),
                                                    Whens="{0,1}" if t else "{0}", Exts="{0,1}", JumpKinds="{3}" if t else "{}",
                                                    JumpForms='{"prev"}', NameKinds='{"id"}'), limit=30000 if t else 4000)
    check.run("every chain of copies", replay_parse, small)
    for n in (3, 5) + ((8,) if t else ()):
        recs = records(check, f"copies-{n}", dict(copies, MaxComps=n), sample=8000 if t else 1200, seed=check.seed + n)
        check.run(f"sampled chains, {n} components", replay_parse, recs)
        check.need(sum(1 for r in recs if not r["err"]) > 50, "sampled chains")
        recs = records(check, f"changes-{n}", dict(copies, MaxComps=n, Extra='"change"'), sample=8000 if t else 1200, seed=check.seed + 10 + n)
        check.run(f"sampled chains, then changes, {n} components", replay_changes, recs)
        check.need(sum(1 for r in recs if not r["err"]) > 50, "sampled changes")
    copied_flows(check, 600 if t else 60, 40 if t else 25)


FLAGGED = {  # definitions with flags of their own, one by copying
    "Lib": im.COMPS["Det"].replace("Det", "Lib").replace("TRACE", 'DEPENDENCY "-DLIB -lm"\nTRACE'),
    "Lib2": "DEFINE COMPONENT Lib2 COPY Lib\nDEPENDENCY \"-DLIB2\"\nEND\n",
}


def meanings(rec):
    """The real instrument of a script which is not refused, and its source"""
    main, files = im.render([o for o in rec["script"] if o["op"] != "change"], 1)
    instr = im.parse(main, files)
    for op in rec["script"]:
        if op["op"] == "change":
            apply_change(instr, op)
    return instr


def replay_text(rec):
    if rec["err"]:
        return []
    instr = meanings(rec)
    bad = []
    text = str(instr)
    try:
        again = im.parse(text, {})
    except RuntimeError as error:
        return [dict(kind="unreadable", detail=f"the written text is refused: {error}\n{text}")]
    found = im.check_instrument(rec["res"], again, joined=True, included=False, groups=not changed(rec))
    bad += [dict(kind="meaning", detail=f"{x}\nwritten as\n{text}") for x in found[:3]]
    twice = str(again)
    if body(twice) != body(text):
        bad.append(dict(kind="unstable", detail=f"written again as\n{twice}\nfirst\n{text}"))
    return bad


def changed(rec):
    return any(o["op"] == "change" for o in rec["script"])


def body(text):
    """Without the leading comment, which names source files"""
    return text[text.index("*/"):]


def replay_flags(order):
    """Repeated writing and reading with component flags"""
    main = "DEFINE INSTRUMENT f()\n" + ('DEPENDENCY "-DOWN"\n' if order[0] else "") + "TRACE\n" + \
        "".join(f"COMPONENT c{i} = {k} AT (0,0,{i}) ABSOLUTE\n" for i, k in enumerate(order[1:])) + "END\n"
    comps = {**im.COMPS, **FLAGGED}
    want = [["-DOWN"]] * order[0] + [{"Lib": ["-DLIB", "-lm"], "Lib2": ["-DLIB", "-lm", "-DLIB2"]}[k] for k in order[1:] if k in FLAGGED]
    want = {x for y in want for x in y}
    text, bad = main, []
    for _ in range(3):
        instr = cprog.parse(text, comps)
        got = " ".join(instr.flags).split()
        if set(got) != want:
            bad.append(dict(kind="flags", detail=f"flags {instr.flags}, expected {want}\n{main}"))
        last, text = text, str(instr)
        if last is not main and body(last) != body(text):
            bad.append(dict(kind="unstable", detail=f"{last}\n{text}"))
    return bad


def p04(check):
    t = check.thorough
    check.assume("several DEPENDENCY statements are written as one, and several code blocks of a section as one")
    small = records(check, "attributes", dict(MaxComps=2, Whens="{0,1}", Splits="{0,2}", Exts="{0,3}", Grps="{0,1}", Rots="{<<0,0,0>>}" if t else "{}",
                                              Rems="{FALSE,TRUE}", Cpus="{FALSE,TRUE}", RefKinds='{"prev"}',
                                              JumpKinds="{1}" if t else "{}", JumpForms='{"name"}'), limit=20000 if t else 4000)
    check.run("every attribute combination", replay_text, small)
    full = dict(FULL, BadRefs="FALSE", Headers=tlaset(INCHEADERS[:-1]))
    for n, extra in ((3, "none"), (5, "none"), (4, "change")) + (((9, "none"),) if t else ()):
        recs = records(check, f"sampled-{n}-{extra}", dict(full, MaxComps=n, Extra=f'"{extra}"', MaxFiles=1 if extra == "none" else 0, Depth=1),
                       sample=8000 if t else 1000, seed=check.seed + n)
        check.run(f"sampled, {n} components ({extra})", replay_text, recs)
        check.need(sum(1 for r in recs if not r["err"]) > 50, "sampled sources")
    import itertools
    orders = [(o, *k) for o in (0, 1) for n in (1, 2, 3) for k in itertools.product(("Lib", "Lib2", "Det"), repeat=n)]
    check.run("component flags", replay_flags, orders)


# ------------------------------------------------------------------------------ P05: assembly
def assembler():
    from mccode_antlr.assembler import Assembler
    return Assembler("main", registries=[cprog.memory_registry(im.COMPS), cprog.runtime_registry()])


def coordinate(v, sym, rng, scale=1):
    """A number, the text of one, or an expression"""
    from mccode_antlr.common import Expr
    text = im.coord_text(v, sym, rng, scale)
    k = rng.randrange(4)
    if sym:
        return text if k < 2 else Expr.parse(text)
    return [text, v, float(v), Expr.parse(text)][k]


def placement(a, vec, sym, ref, rng, scale=1):
    v = tuple(coordinate(scale * x, sym == i + (4 if scale > 1 else 1), rng, scale) for i, x in enumerate(vec))
    comps = a.instrument.components
    if ref["k"] == "abs":
        return rng.choice([v, (v, "ABSOLUTE"), (v, None), (v, "absolute"), list(v)])
    if ref["k"] == "prev":
        if ref["n"] > len(comps):
            return v, "nothing"
        return v, rng.choice((["PREVIOUS"] if ref["n"] == 1 else []) + [comps[-ref["n"]], comps[-ref["n"]].name])
    found = [c for c in comps if c.name == ref["s"]]
    return v, rng.choice([ref["s"], ref["s"], *found])


def value_of(p, v, rng):
    """A parameter's value as text, or as the object it stands for"""
    from mccode_antlr.common import Expr
    text = im.VALUES[p, v][0]
    k = rng.randrange(3)
    if k == 1 and p in ("len", "num"):
        return Expr.parse(text)
    if k == 2 and (p, v) in ((("len", 1)), ("num", 1)):
        return float(text) if p == "len" else int(text)
    return text


def parameter_of(p, rng):
    from mccode_antlr.common import InstrumentParameter
    text = im.header_text(dict(hdr("x", [p]), md=[]), rng)
    text = text[text.index("(") + 1:text.index(")\n")]
    return text if rng.random() < 0.5 else InstrumentParameter.parse(text)


def pair_of(p):
    """The same parameter as a keyword argument, where that says it all"""
    if not p["d"]:
        return None
    text = im.DEFAULTS[p["t"], p["d"]][0]
    value = {"double": float, "int": int, "string": str}[p["t"]](text)
    if p["u"]:
        return [(value, im.UNITS[p["u"]]), dict(value=value, unit=im.UNITS[p["u"]])][p["d"] % 2]
    return value


def call(a, op, rng):
    from mccode_antlr.common import Expr
    kind = op["op"]
    if kind == "pars":
        if len(op["ps"]) == 1 and (op["ignore"] or rng.random() < 0.5):
            a.parameter(parameter_of(op["ps"][0], rng), ignore_repeated=op["ignore"])
            return
        cut = next((i for i in range(len(op["ps"]) + 1) if all(pair_of(p) is not None for p in op["ps"][i:])
                    and len({p["n"] for p in op["ps"][i:]}) == len(op["ps"][i:])))
        cut = rng.choice([cut, len(op["ps"])])
        a.parameters(*[parameter_of(p, rng) for p in op["ps"][:cut]], **{p["n"]: pair_of(p) for p in op["ps"][cut:]})
    elif kind == "code":
        method = dict(decl=a.declare, user=a.user_vars, init=a.initialize, save=a.save, fin=a.final)[op["s"]]
        if op["s"] == "user" and op["ens"]:
            method = a.ensure_user_var
        if op["s"] == "decl" and op["b"] == 4 and op["ens"]:
            a.declare_array("double", "t4", [1, 2.5])
            return
        method(im.BLOCKS[op["s"]][op["b"]])
    elif kind == "md":
        for m in op["md"]:
            a.metadata(m["n"], im.MIME.get(m["v"], "text").strip('"'), im.MDTEXT[m["v"]])
    elif kind == "dep":
        a.instrument.DEPENDENCY(f"-DDEP{op['n']}")
    elif kind == "comp":
        st, kw, later = op["st"], {}, []
        pv = st["pv"]
        if pv and rng.random() < 0.6:
            kw["parameters"] = {p["p"]: value_of(p["p"], p["v"], rng) for p in pv}
            pv = []
        if st["when"] and rng.random() < 0.5:
            kw["when"] = Expr.parse(im.WHENS[st["when"]][0])
        elif st["when"]:
            later.append(dict(k="when", n=st["when"]))
        if st["grp"] and rng.random() < 0.5:
            kw["group"] = f"g{st['grp']}"
        elif st["grp"]:
            later.append(dict(k="group", n=st["grp"]))
        if st["split"]:
            later.append(dict(k="split", n=st["split"]))
        if st["ext"]:
            later.append(dict(k="ext", n=st["ext"]))
        if st["jump"]:
            later.append(dict(k="jump", jump=st["jump"]))
        if st["md"]:
            later.append(dict(k="md", md=st["md"]))
        if st["rem"] and rng.random() < 0.5:
            kw["removable"] = True
        if st["cpu"] and rng.random() < 0.5:
            kw["cpu"] = True
        at = placement(a, st["at"], st["sym"], st["aref"], rng)
        if st["at"] == [0, 0, 0] and st["aref"]["k"] == "abs" and not st["sym"] and rng.random() < 0.5:
            at = None
        rot = None if st["norot"] else placement(a, st["rot"], st["sym"], st["rref"], rng, 90)
        if op["err"] == "parameter" and "parameters" not in kw:
            kw["parameters"] = {p["p"]: value_of(p["p"], p["v"], rng) for p in pv}
            pv = []
        name = im_name(st["nm"])
        got = a.component(name, st["ty"]["s"], at, rot, **kw)
        if pv:
            got.set_parameters(**{p["p"]: value_of(p["p"], p["v"], rng) for p in pv})
        if st["rem"]:
            got.REMOVABLE()
        if st["cpu"]:
            got.CPU()
        for ch in later:
            apply_change(a.instrument, dict(i=len(a.instrument.components), ch=ch))
    elif kind == "set":
        inst = a.instrument.components[op["i"] - 1]
        values = {p["p"]: value_of(p["p"], p["v"], rng) for p in op["pv"]}
        if op["over"] and op["err"]:
            inst.set_parameter("nopar", 1, overwrite=True)
        elif op["over"]:
            for k, v in values.items():
                inst.set_parameter(k, v, overwrite=True)
        else:
            inst.set_parameters(**values)
    elif kind == "badwhen":
        a.instrument.components[op["i"] - 1].WHEN(rng.choice(["1", "0", "2.5"]))
    else:
        apply_change(a.instrument, op)


def im_name(nm):
    return nm["s"]


def assembled(script):
    """The real Assembler after the calls of a script, and what went wrong on the way"""
    import random
    rng = random.Random(f"1/{script}")
    a, bad = assembler(), []
    for op in script[1:]:
        try:
            call(a, op, rng)
        except Exception as error:
            if not op["err"]:
                bad.append(dict(kind="refused", detail=f"{op} raised {type(error).__name__}: {error}"))
        else:
            if op["err"]:
                bad.append(dict(kind="accepted", detail=f"{op} should be refused ({op['err']})"))
    return a, bad


def plain(text):
    """Numbers written as integers where they are"""
    import re
    return re.sub(r"(?<![\w.])(\d+)\.0*(?![\d\w.])", r"\1", text)


def program_text(instr):
    """The generated program, without what names source files and lines"""
    import re
    text = plain(cprog.generate(instr))
    return [x.strip() for x in text.splitlines() if x.strip() and not re.match(r"\s*(//|/\*|\*|#line|SIG_MESSAGE)", x)]


def replay_assemble(rec):
    a, bad = assembled(rec["script"])
    res = rec["res"]
    loose = dict(res, deps=[])
    flags, a.instrument.flags = a.instrument.flags, ()
    ours = program_of(a.instrument)      # groups are those of the program
    found = im.check_instrument(loose, a.instrument, included=False)
    a.instrument.flags = flags
    want = sorted(f"-DDEP{n}" for n in set(res["deps"]))
    if sorted(set(flags)) != want or [f for f in flags if f == "-DDEP9"] != ["-DDEP9"] * (9 in res["deps"]):
        found.append(f"flags {flags}, expected {want}")
    bad += [dict(kind="meaning", detail=f"{x}\nafter {rec['script']}") for x in found[:3]]
    if bad:
        return bad
    if any(len(res[k]) > 1 for k in ("decl", "user", "init", "save", "fin")):
        return bad
    main, files = im.render(im.state_script(res), 1)
    other = im.parse(main, files)
    other.source, other.flags = a.instrument.source, flags
    texts = [plain(body(str(x))).splitlines() for x in (a.instrument, other)]
    if texts[0] != texts[1]:
        bad.append(dict(kind="text", detail=f"assembled, writes {differ(*texts)}, read from\n{main}"))
    theirs = program_of(other)
    if ours != theirs:
        bad.append(dict(kind="program", detail=f"first difference of the programs {differ(ours, theirs)}\n{main}"))
    return bad


def differ(a, b):
    return next(((x, y) for x, y in zip(a, b) if x != y), (len(a), len(b)))


def program_of(instr):
    try:
        return program_text(instr)
    except Exception as error:
        return [f"{type(error).__name__}: {error}"]


ASMPARS = [[par("pa", d=1)], [par("pab", u=1)], [par("pn", "int", 1)], [par("ps", "string", 1)], [par("pn", "int", 2, 1), par("pab", d=2, u=2)],
           [par("pa", d=2), par("ps", "string", 2)], [par("pa"), par("pn", "int"), par("pa", d=1)],
           [par("px"), par("py0", d=1, u=1), par("pz0", "string", 0)]]
ASMCODE = [dict(s=s, b=b) for s in im.BLOCKS for b in im.BLOCKS[s]]


def asm_records(check, name, consts, sample=None, seed=None, limit=None):
    base = dict(FULL, Headers=tlaset([hdr("main", user=0)]), TypeKinds='{"type"}', NameKinds='{"id"}', BadRefs="TRUE", Rems="{FALSE,TRUE}",
                Types='{"Det","Slot","Arm","Cpu","Gone","Flg"}', FlagTypes='{"Flg"}', Deps="{1,2}", Pars=tlaset(ASMPARS), Blocks=tlaset(ASMCODE),
                MaxCalls=6, Values=tlaset(VALUES + [pv(("nopar", 1)), pv(("len", 1), ("nopar", 1))]))
    res = tlc("Assemble", dict(base, **consts), spec="AsmSpec", invariants=INVARIANTS, properties=["RefusedChangesNothing", "OnlyAdds"],
              workers=1 if sample else 8, timeout=800, simulate=sample, depth=60 if sample else None, seed=seed or check.seed)
    check.model(name, res, exhaustive=not sample)
    out = list({json.dumps(r["script"], sort_keys=True): r for r in res.records}.values())
    if limit and len(out) > limit:
        import random
        out = random.Random(check.seed).sample(out, limit)
    return out


def p05(check):
    t = check.thorough
    check.assume("calls state the same thing as numbers, texts or expression objects; generated programs are compared without comments and #line")
    few = dict(Sampling="FALSE", MaxComps=2, MaxCalls=4 if t else 3, Names='{"c1","c2"}', Types='{"Det","Flg","Gone"}', Values=tlaset([pv(), pv(("len", 1), ("nopar", 1))]),
               Whens="{0}", Splits="{0}", Exts="{0}", Grps="{0}", Rems="{FALSE}", Cpus="{FALSE}", Ats="{<<0,0,1>>}", Rots="{}",
               Syms="{0}", RefKinds='{"name"}', JumpKinds="{}", Mds="{<<>>}", Deps="{}", Blocks="{}",
               Pars=tlaset([[par("pa", d=1)], [par("pn", "int"), par("pa", d=2)]]))
    recs = asm_records(check, "refused calls", few, limit=20000 if t else 3000)
    check.run("every refused call", replay_assemble, recs)
    blocks = [dict(s="user", b=b) for b in (1, 3, 12)] + [dict(s="decl", b=3), dict(s="init", b=2), dict(s="save", b=1)]
    recs = asm_records(check, "code", dict(few, MaxComps=0, MaxCalls=5 if t else 4, Pars="{}", Blocks=tlaset(blocks)), limit=20000 if t else 3500)
    check.run("every order of code", replay_assemble, recs)
    for n, c in ((4, 6), (6, 14)) + (((9, 25),) if t else ()):
        recs = asm_records(check, f"sampled-{c}", dict(MaxComps=n, MaxCalls=c), sample=8000 if t else 1200, seed=check.seed + c)
        check.run(f"sampled, {c} calls", replay_assemble, recs)
        check.need(sum(1 for r in recs if r["res"]["comps"]) > 50, "sampled calls")


# --------------------------------------------------------------------------- P06: the binary store
SKIP = {"pooch", "_hash"}


def structure(x, seen=None, path="", depth=0):
    """An object as nested plain values: (path, value) of every leaf; other components are named only"""
    import enum
    import numbers
    from pathlib import Path
    seen = seen or ()
    kind = type(x).__name__
    if x is None or isinstance(x, (str, bytes)):
        yield path, x
    elif isinstance(x, enum.Enum):
        yield path, x.name
    elif isinstance(x, Path):
        yield path, str(x)
    elif isinstance(x, numbers.Number) or kind in ("bool_", "bool"):
        yield path, float(x)
    elif isinstance(x, dict):
        yield path + ".keys", list(x)
        for k, v in x.items():
            yield from structure(v, seen, f"{path}[{k}]", depth + 1)
    elif isinstance(x, (list, tuple)):
        yield path + ".len", (kind, len(x))
        for i, v in enumerate(x):
            yield from structure(v, seen, f"{path}[{i}]", depth + 1)
    elif isinstance(x, (set, frozenset)):
        yield path, sorted(map(str, x))
    elif kind == "Instance" and any(p.endswith(q) for p in (path,) for q in ("relative[1]",)) or kind == "Instance" and ".members[" in path:
        yield path, x.name
    else:
        yield path + ".class", kind
        names = sorted(set(getattr(x, "__dict__", {})) | {s for c in type(x).__mro__ for s in getattr(c, "__slots__", ())})
        # what is private counts by the property which shows it
        names = sorted({n.lstrip("_") for n in names if not n.startswith("_") or isinstance(getattr(type(x), n.lstrip("_"), None), property)})
        for n in names:
            if n not in SKIP and hasattr(x, n):
                yield from structure(getattr(x, n), seen, f"{path}.{n}", depth + 1)


def differences(a, b):
    a, b = dict(structure(a)), dict(structure(b))
    return [f"{k}: saved {a.get(k, 'nothing')!r}, loaded {b.get(k, 'nothing')!r}" for k in [*a, *(k for k in b if k not in a)]
            if a.get(k, "nothing") != b.get(k, "nothing")]


def stored(obj, d):
    from mccode_antlr.io import load_hdf5, save_hdf5
    path = d / "stored.h5"
    save_hdf5(obj, path)
    return load_hdf5(path)


def pieces(instr):
    yield from instr.parameters
    yield from instr.metadata
    for c in instr.components:
        yield from (c.type, c.orientation, c.at_relative[0], c.rotate_relative[0], c.parameters, c.extend, c.jump, c.metadata)
        yield from (x for x in (c.split, c.when) if x is not None)
    for x in (instr.declare, instr.user, instr.initialize, instr.save, instr.final):
        yield from x


def replay_store(rec):
    import random
    import shutil
    import tempfile
    from pathlib import Path
    if rec["err"]:
        return []
    rng = random.Random(f"{rec['script']}")
    bad, d = [], Path(tempfile.mkdtemp(prefix="verif-h5-"))
    say = lambda kind, what: bad.append(dict(kind=kind, detail=f"{what}\n{main}"))
    main, files = im.render([o for o in rec["script"] if o["op"] != "change"], 1)
    try:
        instr = (im.parse_files if len(main) % 4 == 0 and not changed(rec) else im.parse)(main, files)
        for op in rec["script"]:
            if op["op"] == "change":
                apply_change(instr, op)
        before = list(structure(instr))
        loaded = stored(instr, d)
        if list(structure(instr)) != before:
            say("altered", "saving changed the instrument")
        for x in im.check_instrument(rec["res"], loaded, groups=not changed(rec))[:3]:
            say("meaning", x)
        for x in differences(instr, loaded)[:3]:
            say("differs", x)
        if not loaded == instr:
            say("equal", "the loaded instrument is not equal (==) to the saved one")
        if body(str(loaded)) != body(str(instr)):
            say("text", f"loaded writes {differ(str(instr).splitlines(), str(loaded).splitlines())}")
        again = stored(loaded, d)
        for x in differences(instr, again)[:2]:
            say("again", x)
        ours, theirs = program_of(instr), program_of(loaded)
        if ours != theirs:
            say("program", f"loaded generates {differ(ours, theirs)}")
        for piece in rng.sample(list(pieces(instr)), 4):
            got = stored(piece, d)
            for x in differences(piece, got)[:2]:
                say("piece", x)
            if not piece == got and not isinstance(piece, float):
                say("piece", f"{piece!r} loads as {got!r}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad


def p06(check):
    t = check.thorough
    check.assume("the store is written to files in a scratch directory; equality is compared attribute by attribute and with ==")
    small = records(check, "attributes", dict(MaxComps=2, Whens="{0,1}", Splits="{0,2}", Exts="{0,3}", Grps="{0,1}", Rots="{<<0,0,0>>}" if t else "{}",
                                              Rems="{FALSE,TRUE}", Cpus="{FALSE,TRUE}", RefKinds='{"prev"}',
                                              JumpKinds="{1}" if t else "{}", JumpForms='{"name"}'), limit=4000 if t else 120)
    check.run("every attribute combination", replay_store, small)
    full = dict(FULL, BadRefs="FALSE", Headers=tlaset(INCHEADERS[:-1]))
    for n, extra in ((3, "none"), (6, "none"), (4, "change")) + (((12, "none"),) if t else ()):
        recs = records(check, f"sampled-{n}-{extra}", dict(full, MaxComps=n, Extra=f'"{extra}"', MaxFiles=1 if extra == "none" else 0, Depth=1),
                       sample=2000 if t else 130, seed=check.seed + n)
        check.run(f"sampled, {n} components ({extra})", replay_store, recs)
        check.need(sum(1 for r in recs if not r["err"]) > 50, "sampled sources")


def numeric_pose(vec, pose, ang, turn, env):
    """AT vec in one pose, ROTATED ang from another: spec/Cube.tla in floating point (independent of the code under test)"""
    import math
    v = [im.number(x, env) for x in vec]
    x, y, z = (math.radians(im.number(a, env)) for a in ang)
    rx = [[1, 0, 0], [0, math.cos(x), math.sin(x)], [0, -math.sin(x), math.cos(x)]]
    ry = [[math.cos(y), 0, -math.sin(y)], [0, 1, 0], [math.sin(y), 0, math.cos(y)]]
    rz = [[math.cos(z), math.sin(z), 0], [-math.sin(z), math.cos(z), 0], [0, 0, 1]]
    mul = lambda a, b: [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    p, r = pose
    return [p[i] + sum(r[k][i] * v[k] for k in range(3)) for i in range(3)], mul(rz, mul(ry, mul(rx, turn[1])))


def real_poses(instr, env=None):
    """Where an instrument's AT and ROTATED put its components"""
    lab, out = ([0, 0, 0], [[1, 0, 0], [0, 1, 0], [0, 0, 1]]), {}
    for c in instr.components:
        (at, a), (rot, r) = c.at_relative, c.rotate_relative
        out[c.name] = numeric_pose(at, out[a.name] if a else lab, rot, out[r.name] if r else lab, env)
    return out


def same_pose(a, b):
    return all(abs(x - y) < 1e-5 for x, y in zip([*a[0], *sum(a[1], [])], [*b[0], *sum(b[1], [])]))


def names_in(text):
    """Identifiers of a source text outside its strings and comments"""
    import re
    return set(re.findall(r"[A-Za-z_]\w*", re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"', " ", text, flags=re.S)))


def check_part(say, res, which, part, comps, groups, used, allowed, removed):
    """One of the two instruments of a split against what the specification says of it"""
    d = im.Diff()
    d.eq(part.name, f"{res['name']}_{which}", "name")
    d.eq([c.name for c in part.components], [c["name"] for c in comps], "components")
    for c, inst in zip(comps, part.components):
        im.check_component(d, dict(c, rot=None) if c.get("turned") else c, inst, part.components)
    try:
        poses = real_poses(part)
        for c, inst in zip(comps, part.components):
            want = (c["pose"]["p"], c["pose"]["r"])
            d(same_pose(poses[c["name"]], want), f"{c['name']} is placed at {poses[c['name']]} instead of {want}")
            o = inst.orientation
            if c.get("sym", 0) < 4 and not any(x["sym"] > 3 for x in res["comps"]):
                rot = [im.number(x) for x in o.rotation("axes")]
                d(same_pose(([im.number(x) for x in o.position()], [rot[:3], rot[3:6], rot[6:]]), want), f"{c['name']} has orientation {o}")
    except KeyError as error:
        d(False, f"a component is placed relative to {error}, which the part does not have")
    im.check_groups(d, groups, part)
    im.check_blocks(d, res, part)
    d.eq(sorted((m.name, m.value) for m in part.metadata), sorted((m["n"], im.MDTEXT[m["v"]]) for m in res["md"]), "METADATA")
    d.eq(" ".join(str(f) for f in part.flags).split(), [f"-DDEP{n}" for n in res["deps"]], "flags")
    kept = [p.name for p in part.parameters]
    stated = [p["n"] for p in res["pars"]]
    if removed:
        d(all(p in kept for p in stated if p in used), f"parameters {kept}, although {sorted(used)} are used")
        d(all(p in allowed for p in kept), f"parameters {kept}, although only {sorted(allowed)} are used")
        d.eq(kept, [p for p in stated if p in kept], "parameter order")
        im.check_parameters(d, [p for p in res["pars"] if p["n"] in kept], part.parameters)
        text = str(part)
        lost = names_in(text[text.index("*/"):]) & set(stated) - set(kept)
        d(not lost, f"uses {lost} without having such a parameter")
    else:
        im.check_parameters(d, res["pars"], part.parameters)
    for x in d.items[:3]:
        say(which, x)


def check_reread(say, which, part, used_only):
    """A part is an instrument of its own: its text reads back as the same instrument"""
    text = str(part)
    try:
        again = im.parse(text, {})
    except Exception as error:
        say(which, f"its text is refused: {error}\n{text}")
        return
    a, b = real_poses(part), real_poses(again)
    for n in a:
        if not same_pose(a[n], b.get(n, ([0] * 3, [[0] * 3] * 3))):
            say(which, f"{n} moves from {a[n]} to {b.get(n)} when written and read")
    if {k: g.ids for k, g in part.groups.items()} != {k: g.ids for k, g in again.groups.items()}:
        say(which, "written and read it has other groups")


def replay_split(rec):
    import random
    if rec["err"]:
        return []
    rng = random.Random(f"{rec['script']}")
    main, files = im.render(rec["script"], 1)
    res, bad = rec["res"], []
    instr = im.parse(main, files)
    before = list(structure(instr))
    identity = lambda: [(id(c), id(c.at_relative[1]), id(c.rotate_relative[1])) for c in instr.components]
    ids = identity()

    def unchanged(what):
        if list(structure(instr)) != before or identity() != ids:
            say(what, f"{what} changed the original instrument: {differ(before, list(structure(instr)))}")

    def say(kind, what):
        bad.append(dict(kind=kind, detail=f"{point}: {what}\n{main}"))
    for k, part in enumerate(res["parts"]):
        point = f"split at {res['comps'][k]['name']}"
        at = instr.components[k]
        remove = rng.random() < 0.6
        first, second = instr.split(rng.choice([at, at.name]), remove_unused_parameters=remove)
        unchanged("split")
        stated = dict(first=(res["comps"][:k + 1], part["fgroups"], set(part["fused"]), set(part["fused"])),
                      second=(part["second"], part["sgroups"], set(part["sused"]), set(part["sallow"])))
        for which, p in (("first", first), ("second", second)):
            check_part(say, res, which, p, *stated[which], remove)
            check_reread(say, which, p, remove)
        if k % 2 == rng.randrange(2):
            check_mcpl(say, res, part, k, instr, rng, remove)
            unchanged("mcpl_split")
    point = "copy"
    check_copy(say, instr, rng)
    unchanged("changing a copy")
    return bad


def check_mcpl(say, res, part, k, instr, rng, remove):
    from mccode_antlr.common import ComponentParameter, Expr
    at = instr.components[k]
    own = rng.random() < 0.4
    more = dict(output_component="Writer", input_component="Reader", filename=rng.choice(["there.mcpl", '"there.mcpl"']),
                output_parameters=(ComponentParameter("verbose", Expr.int(2)),)) if own else {}
    first, second = instr.mcpl_split(rng.choice([at, at.name]), remove_unused_parameters=remove, **more)
    file = '"there.mcpl"' if own else f'"{res["name"]}.mcpl"'
    writer, reader = ("Writer", "Reader") if own else ("MCPL_output", "MCPL_input")
    d = im.Diff()
    want = (res["comps"][k]["pose"]["p"], res["comps"][k]["pose"]["r"])
    stated = dict(first=(res["comps"][:k], part["wgroups"], writer, -1), second=(part["second"][1:], part["rgroups"], reader, 0))
    for which, p in (("first", first), ("second", second)):
        comps, groups, kind, end = stated[which]
        d.eq(len(p.components), len(comps) + 1, f"{which} number of components")
        point = p.components[end]
        d.eq((point.name, point.type.name), (at.name, kind), f"{which} split point")
        d(not (point.removable or point.group or point.when or point.split or point.jump or point.extend),
          f"{which} split point has modifiers of its own")
        pars = {q.name: str(q.value) for q in point.parameters}
        d.eq(pars.get("filename"), "mcpl_filename", f"{which} file")
        d.eq([str(q.value) for q in p.parameters if q.name == "mcpl_filename"], [file], f"{which} mcpl_filename parameter")
        d.eq(float(pars.get("verbose", 1)), float((2 if own else 1) if which == "first" else 0), f"{which} verbose")
        rest = p.components[:-1] if which == "first" else p.components[1:]
        for c, inst in zip(comps, rest):
            im.check_component(d, dict(c, rot=None) if c.get("turned") else c, inst, p.components)
        im.check_groups(d, groups, p, f"{which} groups")
        try:
            poses = real_poses(p)
            d(same_pose(poses[at.name], want), f"{which} split point is placed at {poses[at.name]} instead of {want}")
            for c in comps:
                w = (c["pose"]["p"], c["pose"]["r"])
                d(same_pose(poses[c["name"]], w), f"{which} {c['name']} is placed at {poses[c['name']]} instead of {w}")
        except KeyError as error:
            d(False, f"{which}: a component is placed relative to {error}, which the part does not have")
        d({"-DREADER" if which == "second" else "-DWRITER"} <= set(" ".join(map(str, p.flags)).split()), f"{which} lacks the flags of its {kind}")
        check_reread(say, "mcpl " + which, p, remove)
    for x in d.items[:3]:
        say("mcpl", x)


def check_copy(say, instr, rng):
    from mccode_antlr.common import InstrumentParameter, MetaData, Expr
    copy = instr.copy()
    for x in differences(instr, copy)[:2]:
        say("copy", f"differs: {x}")
    d = im.Diff()
    for c in copy.components:
        for _, r in (c.at_relative, c.rotate_relative):
            d(r is None or any(r is x for x in copy.components), f"{c.name} references a component of the original")
        d(not any(c is x for x in instr.components), f"{c.name} is the original's")
    for g in copy.groups.values():
        d([any(m is x for x in copy.components) for m in g.members] == [True] * len(g.ids), f"group {g.name} has members of the original")
    for x in d.items[:2]:
        say("copy", x)
    # changing the copy leaves the original alone
    copy.add_parameter(InstrumentParameter.parse("double added=1"))
    copy.INITIALIZE("added = 2;")
    copy.USERVARS("double more;")
    copy.add_metadata(MetaData.from_instrument_tokens("main", "text", "m1", "other"))
    copy.DEPENDENCY("-DMORE")
    for c in copy.components:
        c.WHEN(Expr.parse("flag > 7"))
        c.SPLIT(Expr.int(7))
        c.EXTEND("flag = 7;")
        c.GROUP("g9")
        c.REMOVABLE()
        c.CPU()
        c.add_metadata(MetaData.from_instance_tokens(c.name, "text", "m1", "other"))
        if c.type.name != "Arm":
            c.set_parameter("len", Expr.float(99), overwrite=True)
        for b in c.extend:
            b.source += "/* more */"
    for b in copy.declare + copy.initialize:
        b.source += "/* more */"
    copy.determine_groups()
    copy.check_instrument_parameters(remove=True)
    copy.components = copy.components[:1]

def replay_symbolic_turn(text):
    """A split which drops a reference turned by an expression: where the second part's program puts the component"""
    instr = im.parse(text, {})
    second = instr.split(instr.components[-1].name)[1]
    env = im.ENVS[0]
    name = second.components[0].name
    want, got = real_poses(instr, env)[name], real_poses(second, env)[name]
    if same_pose(want, got):
        return []
    shown = [round(x, 6) + 0.0 for x in got[0]]
    return [dict(kind="second", signature=f"symbolic-turn:{shown}", detail=f"{name} is placed at {got} instead of {want}\n{text}")]


TURNED = """DEFINE INSTRUMENT main(pa=1.75)
TRACE
COMPONENT a = Arm AT (0, 0, 0) ABSOLUTE ROTATED (0, 40*pa, 0) ABSOLUTE
COMPONENT b = Arm AT (0, 0, 1) RELATIVE a
END
"""


def p07(check):
    t = check.thorough
    recs = records(check, "every reference and group", dict(MaxComps=3, Extra='"split"', Names='{"c1","c2","c3"}', Grps="{0,1}",
                                                            Ats="{<<0,2,1>>}", Rots="{<<0,1,0>>}", RefKinds='{"name"}'),
                   limit=20000 if t else 1000)
    check.run("every reference and group", replay_split, recs)
    small = dict(BASE, MaxComps=2, Extra='"split"', Rots=tlaset([[x, y, z] for x in range(4) for y in range(4) for z in range(4)]),
                 RefKinds='{"prev"}', Ats="{<<1,0,2>>}", Names='{"c1"}', NameKinds='{"id","anon"}')
    recs = records(check, "every rotation", small, limit=20000 if t else 1000)
    check.run("every rotation", replay_split, recs)
    check.run("a reference turned by an expression", replay_symbolic_turn, [TURNED])
    full = dict(FULL, BadRefs="FALSE", Headers=tlaset(HEADERS[:3]), Syms="0..3", Extra='"split"')
    for n in (3, 5) + ((8, 10) if t else ()):
        recs = records(check, f"sampled-{n}", dict(full, MaxComps=n), sample=4000 if t else 300, seed=check.seed + n)
        check.run(f"sampled, {n} components", replay_split, recs)
        check.need(sum(1 for r in recs if not r["err"]) > 50, "sampled sources")


def collected(res):
    """Every metadata entry of the specification's instrument: (kind of owner, owner, name, type, text)"""
    entry = lambda k, o, m: (k, o, m["n"], im.MIME.get(m["v"], "text").strip('"'), im.MDTEXT[m["v"]])
    return ([[entry(m["k"], m["o"], m) for m in per] for per in res["collected"]],
            [entry("Instrument", m["o"], m) for m in res["md"]])


def replay_metadata(rec):
    if rec["err"]:
        return []
    main, files = im.render(rec["script"], 1)
    res, d, bad = rec["res"], im.Diff(), []
    instr = im.parse(main, files)
    per, own = collected(res)
    entry = lambda m: (m.source.type_name, m.source.name, m.name.strip('"'), m.mimetype, m.value)
    for c, want, inst in zip(res["comps"], per, instr.components):
        d.eq(sorted(map(entry, inst.collect_metadata())), sorted(want), f"metadata of {c['name']}")
    want = sorted([x for p in per for x in p] + own)
    d.eq(sorted(map(entry, instr.collect_metadata())), want, "metadata of the instrument")
    for m in instr.collect_metadata():
        d(m.source.is_a(type(m.source).Type[m.source.type_name]), f"{m} is not of its owner's kind")
    again = im.parse(str(instr), {})
    # an entry of an included instrument is the including instrument's once written
    plain = lambda i: sorted(entry(m) if m.source.type_name != "Instrument" else entry(m)[2:] for m in i.collect_metadata())
    d.eq(sorted(plain(again), key=str), sorted(plain(instr), key=str), "metadata written and read")
    try:
        with cprog.Program(cprog.generate(instr)) as prog:
            lines = prog.run()
        text = lambda h: bytes.fromhex(h[1:]).decode("utf-8", "replace")
        got = [tuple(text(h) for h in x.split()[1:]) for x in lines if x.startswith("MD ")]
        got = sorted((o, n.strip('"'), m, v) for o, n, m, v in got)
        d.eq(got, sorted(x[1:] for x in want), "metadata of the program")
        d.eq([x for x in lines if x.startswith("META ")], [f"META {len(want)}"], "number of entries of the program")
    except cprog.ProgramError as error:
        d(False, str(error))
    return [dict(kind=x.split(":")[0][:40], detail=f"{x}\n{main}") for x in d.items[:3]]


def p17(check):
    t = check.thorough
    check.assume("generated programs run with the stub runtime, whose main prints the metadata table they contain")
    mds = [[], md(("m1", 1)), md(("m2", 2)), md(("m1", 3), ("m1", 1)), md(("m2", 1), ("m1", 2), ("m3", 3))]
    heads = tlaset([hdr("main", md=m) for m in mds])
    recs = records(check, "every owner", dict(MaxComps=2, Types='{"Det","Slot","Arm"}', TypeKinds='{"type","copy"}', RefKinds='{"name"}',
                                              Headers=heads, Mds=tlaset(mds), Extra='"meta"', Names='{"c1","c2"}', NameKinds='{"id","anon"}'),
                   limit=8000 if t else 700)
    check.run("every owner", replay_metadata, recs)
    texts = [md(("m one", v)) for v in (1, 4, 5)] + [md(("m1", 4)), md(("m1", 5), ("m one", 2)), []]
    heads = tlaset([hdr(n, md=m) for n in ("main", "inc1", "inc2") for m in texts[:3] + mds[1:]])
    full = dict(MaxComps=4, MaxFiles=2, Depth=2, Types='{"Det","Slot","Arm","Cpu"}', TypeKinds='{"type","copy"}', Headers=heads,
                Mds=tlaset(texts + mds), Extra='"meta"', Names='{"c1","c2","c3","c4"}', NameKinds='{"id","anon","copyid"}', Sampling="TRUE",
                Rems="{FALSE,TRUE}")
    for n in (3, 5) + ((9,) if t else ()):
        recs = records(check, f"sampled-{n}", dict(full, MaxComps=n), sample=4000 if t else 300, seed=check.seed + n)
        check.run(f"sampled, {n} components", replay_metadata, recs)
        check.need(sum(1 for r in recs if not r["err"]) > 50, "sampled sources")


def flow(instr, timeout=20):
    """What a program of the instrument does with three particles, or None when it does not compile"""
    try:
        with cprog.Program(cprog.generate(instr)) as prog:
            lines = prog.run(["pa=1.75", "pab=-0.5", "pn=2"], stdin="1\n0\n2\n", timeout=timeout)
            return [x for x in lines if not x.startswith(("PAR", "BADPAR", "MD"))]
    except Exception as error:
        return f"not a program: {error}"


def replay_used(rec):
    import random
    if rec["err"]:
        return []
    main, files = im.render(rec["script"], 1)
    rng = random.Random(main)
    res, d = rec["res"], im.Diff()
    instr = im.parse(main, files)
    names = [p["n"] for p in res["pars"]]
    want = [n for n in names if n in res["used"]]
    d.eq([n for n in names if instr.parameter_used(n)], want, "parameters used by the instrument")
    for c, used, inst in zip(res["comps"], res["usedby"], instr.components):
        got = {n for n in names if inst.parameter_used(n)}
        own = set(used["own"]) & set(names)
        d(own <= got <= own | set(used["chain"]), f"parameters used by {c['name']}: expected {sorted(own)}, found {sorted(got)}")
    before = list(structure(instr))
    same = (len(before), len(before))
    d.eq(instr.check_instrument_parameters(), len(names) - len(want), "number of unused parameters")
    d.eq(differ(before, list(structure(instr))), same, "counting the unused parameters changed the instrument")
    kept = im.parse(main, files)
    d.eq(kept.check_instrument_parameters(remove=True), len(names) - len(want), "number of removed parameters")
    d.eq([p.name for p in kept.parameters], want, "parameters after removal")
    d.eq([repr(p) for p in kept.parameters], [repr(p) for p in instr.parameters if p.name in want], "parameters after removal")
    kept.parameters = instr.parameters
    d.eq(differ(before, list(structure(kept))), same, "removing unused parameters changed the instrument")
    kept = im.parse(main, files)
    kept.check_instrument_parameters(remove=True)
    d.eq(kept.check_instrument_parameters(remove=True), 0, "unused parameters after removal")
    if rng.random() < 0.25 and not d.items and len(want) < len(names):
        one = flow(instr, 1)     # JUMPs of the model may go on forever
        if not str(one).startswith("not a program"):
            two = flow(kept)
            d(one == two, f"the program without the unused parameters differs: {str(two)[:600]}")
    return [dict(kind=x.split(":")[0][:40], detail=f"{x}\n{main}") for x in d.items[:3]]


def p18(check):
    t = check.thorough
    check.assume("names after # in preprocessor lines count as uses; struct members and macros expanding to names are not generated")
    pa, pab, pn, ps = par("pa", d=1), par("pab", u=1, d=2), par("pn", "int", 1), par("ps", "string", 1)
    orders = [[pa, pab, pn, ps], [ps, par("pn", "int", 0), pab, pa], [par("len", d=1), pn, ps, par("pax", d=2), pa, pab]]
    lens = [pv((p, v)) for p, v in im.VALUES if p != "nopar" and v not in (8, 9)]
    mds = tlaset([[], md(("m1", 6))])
    blocks = [hdr("main", orders[i % 3], 0, **({"decl": 20} | {k: n})) for k in im.BLOCKS for i, n in enumerate(im.BLOCKS[k])]
    blocks += [hdr("main", o, md=md(("m1", 6))) for o in orders]
    one = dict(MaxComps=1, Headers=tlaset([hdr("main", o, decl=20) for o in orders]), Extra='"used"')
    runs = [("every block", dict(one, Headers=tlaset(blocks)), None),
            ("every value", dict(one, Values=tlaset(lens), Exts=tla_range(im.EXTENDS), Mds=mds), 1500),
            ("every modifier", dict(one, Whens="0..5", Splits="0..4", Syms="0..6", Rots="{<<0,0,1>>}"), 1000),
            ("every placement", dict(one, MaxComps=2, Names='{"c1","pab"}', Syms="0..6", Rots="{<<0,0,1>>}", RefKinds='{"prev"}'), 1000),
            ("every jump", dict(one, MaxComps=2, Names='{"pa","c1"}', JumpKinds="{2,4}" if not t else "1..4", JumpForms='{"name","prev"}'), 500)]
    for name, consts, limit in runs:
        recs = records(check, name, consts, limit=None if t else limit * 2 // 3 if limit else None)
        check.run(name, replay_used, recs)
        check.need(len(recs) > 20, name)
    heads = [hdr(n, rngpick(orders, i), decl=a, user=b, init=c, save=e, fin=f, md=md(("m1", 6)) if i % 2 else [])
             for n in ("main", "inc1", "inc2") for i, (a, b, c, e, f) in enumerate(
                 [(20, 10, 0, 0, 0), (2, 1, 0, 6, 0), (20, 12, 13, 0, 14), (20, 1, 10, 11, 18), (13, 11, 0, 0, 0), (20, 1, 2, 0, 12), (20, 1, 0, 15, 16)])]
    full = dict(FULL, BadRefs="FALSE", MaxFiles=2, Depth=1, Headers=tlaset(heads), Values=tlaset(VALUES + lens), Whens="0..5", Splits="0..4",
                Exts=tla_range({0: 0, 1: 0, 2: 0, 3: 0, **im.TRICKY}), JumpKinds="1..4", Extra='"used"', Names='{"c1","c2","pa","c4","c5"}',
                Mds=tlaset([[], md(("m1", 6))]))
    for n in (2, 5) + ((9,) if t else ()):
        recs = records(check, f"sampled-{n}", dict(full, MaxComps=n), sample=6000 if t else 500, seed=check.seed + n)
        check.run(f"sampled, {n} components", replay_used, recs)
        check.need(sum(1 for r in recs if not r["err"]) > 50, "sampled sources")


def tla_range(tokens):
    return "{" + ", ".join(map(str, sorted({0, *tokens}))) + "}"


def rngpick(items, i):
    return items[i % len(items)]


CHECKS = dict(P18=p18, P17=p17, P07=p07, P06=p06, P05=p05, P01=p01, P02=p02, P03=p03, P04=p04)
