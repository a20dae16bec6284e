"""P26: what compiled programs give access to by name follows spec/Access.tla."""
import offline  # noqa: F401
import cprog
from common import tlc

TYPE = {1: "double", 2: "int", 3: "double", 4: "int", 5: "double", 6: "int", 7: "long"}
CODE = {"double": "d", "int": "i", "long": "l"}
DECL = {1: "double {};", 2: "int {};", 3: "double {}[3];", 4: "int {}[2];", 5: "double {} = 7;", 6: "int {} = 7;", 7: "long {};"}
SPARE = ["_mctmp_a", "_mctmp_b", "_mctmp_c"]
NOTHING = ["nothing", "X", "vx_"]

READER = r'''
static void acc_show(void *at, char type, int n) {
  int i;
  for (i = 0; i < n; i++) printf(" %g", type == 'd' ? ((double *)at)[i] : type == 'i' ? (double)((int *)at)[i] : (double)((long *)at)[i]);
}
static void acc_fill(char *to, char type, int n, int x, int step) {
  int i;
  for (i = 0; i < n; i++, x += step) {
    if (type == 'd') { double v = x; memcpy(to + i*sizeof(double), &v, sizeof(double)); }
    else if (type == 'i') { int v = x; memcpy(to + i*sizeof(int), &v, sizeof(int)); }
    else { long v = x; memcpy(to + i*sizeof(long), &v, sizeof(long)); }
  }
}
static void acc_run(void) {
  static char line[512], name[256], buffer[256]; char what, type; int n, x, suc; void *at; double v;
  _class_particle p = mcgenstate(), kept = p;
  while (fgets(line, sizeof(line), stdin)) {
    what = line[0]; type = 'd'; n = 1; x = 0; suc = -7; name[0] = 0;
    sscanf(line + 1, " %255s %c %d %d", name, &type, &n, &x);
    if (what == 'G') { v = particle_getvar(&p, name, &suc); printf("ACC %d %g", suc, v);
      if (particle_getvar(&p, name, 0) != v) printf(" again"); printf("\n"); }
    else if (what == 'W') { at = particle_getvar_void(&p, name, &suc); printf("ACC %d", suc); if (at) acc_show(at, type, n); printf("\n"); }
    else if (what == 'X') { at = _get_particle_var(name, &p); printf("ACC"); if (at) acc_show(at, type, n); else printf(" none"); printf("\n"); }
    else if (what == 'I') { v = particle_getuservar_byid(&p, atoi(name), &suc); printf("ACC %d %g\n", suc, v); }
    else if (what == 'S') { acc_fill(buffer, type, n, x, 0); printf("ACC %d\n", particle_setvar_void(&p, name, buffer)); }
    else if (what == 'M') { acc_fill(buffer, type, n, x + 1, 1); printf("ACC %d\n", particle_setvar_void_array(&p, name, buffer, n)); }
    else if (what == 'K') { kept = p; printf("ACC\n"); }
    else if (what == 'A') { p._absorbed = 1; p._restore = 1; printf("ACC\n"); }
    else if (what == 'R') { particle_restore(&p, &kept); printf("ACC\n"); }
    else if (what == 'B') { particle_uservar_init(&p); printf("ACC\n"); }
    else if (what == 'F') { p = mcgenstate(); printf("ACC\n"); }
    else if (what == 'C') {
      at = _getvar_parameters(name);
      printf("ACC %d", _getcomp_index(name));
      if (at) printf(" %g", *(double *)at); else printf(" none");
      printf("\n"); }
    else if (what == 'E') { printf("ACC %d %d", (int)p._absorbed, (int)p._restore); acc_all(&p); printf("\n"); }
  }
}
'''


def build(rec):
    """the instrument, and for everything which is added its name and type"""
    flavor = "mcstas" if rec["flavor"] == 1 else "mcxtrace"
    comps = {f"T{t}": f"DEFINE COMPONENT T{t}\nSETTING PARAMETERS (double tag=0)\n"
             + ("USERVARS %{ " + " ".join(DECL[k].format(f"t{t}v{j}") for j, k in enumerate(kinds, 1)) + " %}\n" if kinds else "")
             + "TRACE %{ SCATTER; %}\nEND\n" for t, kinds in enumerate(rec["types"], 1)}
    comps["T0"] = "DEFINE COMPONENT T0\nSETTING PARAMETERS (double tag=0)\nEND\n"
    names = []
    for a in rec["added"]:
        names.append(f"own{a['n']}" if a["at"] == 0 else f"t{rec['line'][a['at'] - 1]}v{a['n']}_{a['at']}")
    size = {3: 3, 4: 2}
    everything = [f'acc_show(&(p->{m}), \'d\', 1);' for m in rec["state"] + SPARE]
    everything += [f"acc_show(&(p->{n}), '{CODE[TYPE[a['kind']]]}', {size.get(a['kind'], 1)});" for n, a in zip(names, rec["added"])]
    own = "USERVARS %{ " + " ".join(DECL[k].format(f"own{j}") for j, k in enumerate(rec["own"], 1)) + " %}\n" if rec["own"] else ""
    line = "".join(f"COMPONENT c{k} = T{t}(tag={100 + k}) AT (0,0,{k}) ABSOLUTE\n" for k, t in enumerate(rec["line"], 1))
    tags = "".join(f"_c{k}_var._parameters.tag = {100 + k}; " for k in range(1, len(rec["line"]) + 1))
    text = ("DEFINE INSTRUMENT access()\nDECLARE %{\nvoid* _get_particle_var(char *token, _class_particle *p);\nstatic void acc_show(void *at, char type, int n);\nstatic void acc_all(_class_particle *p) {\n" + "\n".join(everything)
            + "\n}\n" + READER + "%}\n" + own + "INITIALIZE %{ " + tags + "acc_run(); %}\nTRACE\n" + (line or "COMPONENT c0 = T0() AT (0,0,0) ABSOLUTE\n") + "END\n")
    return cprog.generate(cprog.parse(text, comps), flavor), names


def script(rec, names):
    """the lines to give the program, and what it answers"""
    size = {3: 3, 4: 2}

    def named(op):
        if op["w"] == 3:
            kind = rec["added"][op["j"] - 1]["kind"]
            return names[op["j"] - 1], CODE[TYPE[kind]], size.get(kind, 1)
        return ([rec["state"], SPARE, None, NOTHING][op["w"] - 1][op["j"] - 1], "d", 1)
    for op in rec["log"] + [dict(op="all", state=rec["end"]["state"], spare=rec["end"]["spare"], added=rec["end"]["added"], gone=rec["end"]["gone"])]:
        k, ok = op["op"], op.get("ok")
        suc = "0" if ok else "1"
        num = lambda xs: "".join(f" {x}" for x in xs)
        if k == "get":
            yield f"G {named(op)[0]}", f"{suc} {op['x']}"
        elif k == "where":
            yield "W %s %s %d" % named(op), suc + num(op["xs"])
        elif k == "extra":
            yield "X %s %s %d" % named(op), num(op["xs"]).strip() if ok else "none"
        elif k == "byid":
            yield f"I {op['j'] - 1}", f"{suc} {op['x']}"
        elif k == "set":
            yield "S %s %s %d" % named(op) + f" {op['x']}", suc
        elif k == "many":
            name, code, _ = named(op)
            yield f"M {name} {code} {op['n']} {op['x']}", suc
        elif k == "component":
            yield ("C nothing", "-1 none") if op["k"] == 0 else (f"C c{op['k']}", f"{op['index']} {100 + op['k']}")
        elif k == "all":
            gone = "1" if op["gone"] else "0"
            yield "E", f"{gone} {gone}" + num(op["state"]) + num(op["spare"]) + "".join(num(x) for x in op["added"])
        else:
            yield dict(keep="K", absorb="A", restore="R", begin="B", fresh="F")[k], ""


def replay(rec):
    try:
        source, names = build(rec)
        asked = list(script(rec, names))
        with cprog.Program(source) as prog:
            out = [x[3:].strip() for x in prog.run(stdin="".join(a + "\n" for a, _ in asked)) if x.startswith("ACC")]
    except cprog.ProgramError as e:
        return [dict(kind="program", detail=f"{e}\n{rec['own']} {rec['types']} {rec['line']}", signature="program", item=rec)]
    except Exception as e:
        return [dict(kind="failed", detail=f"{type(e).__name__}: {e}\n{rec['own']} {rec['types']} {rec['line']}", signature="failed", item=rec)]
    for n, (a, want) in enumerate(asked):
        got = out[n] if n < len(out) else "nothing"
        if got != want:
            kinds = {"G": "by-name", "W": "place", "X": "added-place", "I": "by-number", "S": "set", "M": "set-many", "C": "component", "E": "everything"}
            return [dict(kind=kinds.get(a[0], "other"), signature=kinds.get(a[0], "other"), item=rec,
                         detail=f"flavor {rec['flavor']} own {rec['own']} types {rec['types']} line {rec['line']} names {names}\n"
                                f"after {[x for x, _ in asked[:n]][-12:]}: {a!r} gives {got!r} instead of {want!r}")]
    return []


def p26(check):
    check.assume("the variables are numbers and arrays of numbers; a number is asked for of variables which are one number")
    t = check.thorough
    num = lambda xs: "{" + ", ".join(map(str, xs)) + "}"
    tset = lambda xs: "{" + ", ".join(f'"{x}"' for x in xs) + "}"
    ask = ["get", "where", "extra", "byid", "component"]
    change = ["set", "many", "keep", "absorb", "restore", "begin", "fresh"]

    def constants(flavors, kinds, own, ntypes, mvars, inst, values, nops, ops, sampling):
        return dict(Flavors=num(flavors), Kinds=num(kinds), MaxOwn=own, NTypes=ntypes, MaxVars=mvars, MaxInst=inst, Values=num(values), MaxOps=nops,
                    Ops=tset(ops), Sampling="TRUE" if sampling else "FALSE")
    inv, props = ("Own1",), ("Quiet", "OneOnly", "Back")
    r = check.model("every short history of one variable", tlc("Access", constants([1, 2], [2], 1, 1, 0, 0, [4], 2, ["get", "set", "keep", "absorb", "restore", "begin", "fresh"], False),
                    invariants=inv, properties=props, workers=8, timeout=400))
    step = 1 if t else 29
    check.run("every short history of one variable", replay, r.records[check.seed % step::step], chunk=20)
    for label, own, ntypes, mvars, inst, n, ops in (("own variables", 5, 0, 0, 0, 40, ask + change + change + ["all"]), ("components' variables", 2, 3, 2, 5, 60, ask + change + ["set", "many", "all"])):
        c = constants([1, 2], range(1, 8), own, ntypes, mvars, inst, [2, 3, 5], n, ops, True)
        r = check.model(f"sampled, {label}", tlc("Access", c, invariants=inv, properties=props, simulate=800 if t else 70, depth=n + 30, seed=check.seed + n, timeout=400), exhaustive=False)
        check.run(f"sampled, {label}", replay, r.records, chunk=10)


CHECKS = dict(P26=p26)
