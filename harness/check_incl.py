"""P12: libraries and files in the generated program follow spec/Includes.tla."""
import json
import random
import re
import shutil
from pathlib import Path

import offline  # noqa: F401
from common import tlc, scratch
import cprog

LIBS = ["table", "table-lib", "my_table", "interoff-lib", "ref-lib", "a", "lib", "lib2", "zlib-lib", "m"]
FILES = ["part.txt", "frag.c", "sub.part.h", "x.tab", "frag-2.c", "list.inc", "part.h", "zz.c"]
MARK = re.compile(r"/\*@(.*?)@\*/")


def names(item, rng):
    libs, files = rng.sample(LIBS, len(LIBS)), rng.sample(FILES, len(FILES))
    return {i: (libs if k == "lib" else files).pop() for i, k in enumerate(item["kind"], 1)}


def mark(*words):
    return f"/*@{':'.join(map(str, words))}@*/"


def include(rng, what):
    return rng.choice(["", "  ", "\t"]) + rng.choice(["%include ", "%include  ", "%include\t"]) + f'"{what}"' + rng.choice(["", " "])


def body(rng, name, list_, before, after):
    return "\n".join([before, *[include(rng, name[n]) for n in list_], after]) + "\n"


def pulled(item, list_):
    out = []
    for n in list_:
        out += [n] if item["kind"][n - 1] == "lib" else pulled(item, item["hinc"][n - 1])
    return list(dict.fromkeys(out))


def sources(item, name, rng):
    """The files of the registries."""
    out = {}
    for n, k in enumerate(item["kind"], 1):
        h, s = item["hinc"][n - 1], item["sinc"][n - 1]
        if k == "file":
            out[name[n]] = body(rng, name, h, mark("b", n), mark("e", n))
            continue
        # declarations need those of what was pulled in, definitions need its definitions
        need = pulled(item, h)
        out[f"{name[n]}.h"] = body(rng, name, h, mark("h", n), f"typedef struct {{ int a; {' '.join(f'type_{x} m{x};' for x in need)} }} type_{n};\n"
                                   + mark("/h", n))
        need += [x for x in pulled(item, s) if x not in need]
        calls = " + ".join([str(n), *[f"value_{x}()" for x in need]])
        types = " ".join(f"type_{x} t{x};" for x in [n, *need])
        out[f"{name[n]}.c"] = body(rng, name, s, mark("s", n), f"static int value_{n}(void) {{ {types} return {calls}; }}\n" + mark("/s", n))
    return out


def program(item, name, rng):
    blocks = {b["at"]: (i, b["inc"]) for i, b in enumerate(item["blocks"], 1)}

    def block(at, word, after=""):
        if at not in blocks:
            return ""
        i, list_ = blocks[at]
        use = "".join(f" {{ type_{n} u{n}; u{n}.a = value_{n}(); }}" for n in pulled(item, list_)) if at not in NOT_CODE else ""
        return f"{word} %{{\n" + body(rng, name, list_, mark("block", i), use + after + mark("/block", i)) + "%}\n"

    one = ("DEFINE COMPONENT One\n" + block("share", "SHARE") + block("user", "USERVARS") + block("decl", "DECLARE", "int priv;\n")
           + block("init", "INITIALIZE") + "TRACE %{ %}\n" + "END\n")
    two = "DEFINE COMPONENT Two\n" + block("share2", "SHARE") + block("trace2", "TRACE") + block("save2", "SAVE") + block("disp2", "MCDISPLAY") + "END\n"
    text = ("DEFINE INSTRUMENT program()\n" + block("idecl", "DECLARE") + block("iuser", "USERVARS", "int flag;\n") + block("iinit", "INITIALIZE")
            + "TRACE\nCOMPONENT c1 = One() AT (0, 0, 0) ABSOLUTE\nCOMPONENT c2 = Two() AT (0, 0, 1) ABSOLUTE\n" + block("ext2", "EXTEND")
            + "COMPONENT c3 = One() AT (0, 0, 2) ABSOLUTE\n" + block("ext3", "EXTEND")
            + block("isave", "SAVE") + block("ifinal", "FINALLY") + "END\n")
    return text, {"One": one, "Two": two}


NOT_CODE = {"share", "share2", "decl", "user", "iuser", "idecl"}
NOT_OUTPUT = {"decl", "user", "iuser"}


def split_units(marks):
    """The units among the marks: their name, and the marks within."""
    units, current, stack = [], None, []
    for m in marks:
        w = tuple(m.split(":"))
        if w[0] in ("h", "s", "block"):
            if current is not None:
                return None, f"{m} within {current[0]}"
            current = (w, [])
        elif w[0] in ("/h", "/s", "/block"):
            if current is None or current[0] != (w[0][1:], w[1]):
                return None, f"{m} without its start"
            units.append(current)
            current = None
        elif current is None:
            return None, f"{m} outside of anything which includes it"
        else:
            current[1].append(w)
    return units, None


def similar(files, rng, where, cache):
    """A remote registry with files whose names only end like those wanted."""
    import hashlib
    import pooch
    from mccode_antlr.reader.registry import GitHubRegistry
    reg = f"similar{where.name}".replace("-", "").replace("_", "")
    cache.append(Path(pooch.os_cache(f"mccode_antlr/{reg}")))
    d = cache[0] / "v1.0"
    d.mkdir(parents=True)
    wrong = "#error wrong file\n"
    listing = [f"x-{f}" for f in sorted(files)]
    (d / f"{reg}-registry.txt").write_text("\n".join(f"{f} {hashlib.sha256(wrong.encode()).hexdigest()}" for f in listing))
    for f in listing:
        (d / f).write_text(wrong)
    return GitHubRegistry(reg, "https://example.invalid/x", "v1.0", priority=rng.choice([1, 200]))


def replay(item):
    rng = random.Random(json.dumps(item, sort_keys=True))
    name = names(item, rng)
    text, comps = program(item, name, rng)
    files = sources(item, name, rng)
    show = "\n".join([text, *comps.values(), *[f"---- {k}\n{v}" for k, v in sorted(files.items())]])
    where = scratch("verif-incl-")
    bad, cache = [], []
    try:
        from mccode_antlr.reader.registry import LocalRegistry
        regs = []
        for r in range(2):
            (where / f"r{r}").mkdir()
            regs.append(LocalRegistry(f"r{r}", str(where / f"r{r}"), priority=rng.choice([5, 10, 20])))
        for f, content in files.items():
            d = where / rng.choice(["r0", "r1", "r0/inner"])
            d.mkdir(exist_ok=True)
            (d / f).write_text(content)
        for d in (where / "r0", where / "r1"):       # files of similar names
            for f in rng.sample(sorted(files), min(2, len(files))):
                (d / rng.choice([f"other{f}", f"{f}.bak", f"x-{f}"])).write_text("#error wrong file\n")
        regs.append(similar(files, rng, where, cache))
        instr = cprog.parse(text, comps, extra=regs)
        try:
            source = cprog.generate(instr, rng.choice(["mcstas", "mcxtrace"]))
        except Exception as error:
            return [dict(kind="translate", detail=f"{type(error).__name__} {error}\n{show}")]
        units, why = split_units(MARK.findall(source))
        if units is None:
            return [dict(kind="structure", detail=f"{why}\n{show}")]
        # libraries: every step of the program is one the model can make
        has = {(u["u"]["p"], str(u["u"]["l"])): u for u in item["units"]}
        seen = []
        for u, inside in units:
            if u[0] == "block":
                b = item["blocks"][int(u[1]) - 1]
                want = [("b" if x["b"] else "e", str(x["n"])) for x in item["bodies"][int(u[1]) - 1]]
                if inside != want:
                    bad.append(dict(kind="inserted", detail=f"the {b['at']} block has {inside}, not {want}\n{show}"))
                continue
            what = f"the {'header' if u[0] == 'h' else 'source'} of {name[int(u[1])]}"
            if u not in has:
                bad.append(dict(kind="not needed", detail=f"{what}\n{show}"))
                continue
            if u in seen:
                bad.append(dict(kind="twice", detail=f"{what}\n{show}"))
            for x in has[u]["before"]:
                if (x["p"], str(x["l"])) not in seen:
                    bad.append(dict(kind="order", detail=f"{what} comes before {x['p']} of {name[x['l']]}\n{show}"))
            want = [("b" if x["b"] else "e", str(x["n"])) for x in has[u]["has"]]
            if inside != want:
                bad.append(dict(kind="inserted", detail=f"{what} has {inside}, not {want}\n{show}"))
            seen.append(u)
        for u in has:
            if u not in seen:
                bad.append(dict(kind="missing", detail=f"{u[0]} of {name[int(u[1])]}\n{show}"))
        written = sorted(int(u[1]) for u, _ in units if u[0] == "block")
        want = sorted(i for i, b in enumerate(item["blocks"], 1) if b["at"] not in NOT_OUTPUT)
        if written != want:
            bad.append(dict(kind="blocks", detail=f"blocks {written} of {want}\n{show}"))
        if not bad and rng.random() < 0.25:
            try:
                with cprog.Program(source):
                    pass
            except cprog.ProgramError as error:
                bad.append(dict(kind="compile", detail=f"{error}\n{show}"))
        return bad[:4]
    finally:
        for c in cache:
            shutil.rmtree(c, ignore_errors=True)
        shutil.rmtree(where, ignore_errors=True)


PLACES = '{"share", "user", "decl", "init", "share2", "trace2", "save2", "disp2", "idecl", "iuser", "iinit", "ext2", "ext3", "isave", "ifinal"}'
INV = ("Once", "AfterItsNeeds", "NeverStuck", "OnlyNeeded")


def p12(check):
    t = check.thorough
    pick = lambda recs, n: recs if len(recs) <= n else recs[check.seed % max(1, len(recs) // n)::max(1, len(recs) // n)]
    check.assume("what includes what is acyclic, also between headers and sources (with a cycle nothing can come after all it pulls in)")
    c = dict(N="3", MaxItems="2", MaxBlocks="1", Places='{"share"}', Sampling="FALSE")
    r = check.model("all graphs of three", tlc("Includes", c, invariants=INV, workers=8, timeout=400))
    check.run("all graphs of three", replay, pick(r.records, 30000 if t else 700))
    n = 3000 if t else 150
    for m, i, b in ((4, 3, 2), (6, 3, 4), (8, 2, 6)):
        c = dict(N=str(m), MaxItems=str(i), MaxBlocks=str(b), Places=PLACES, Sampling="TRUE")
        r = check.model(f"sampled graphs of {m}", tlc("Includes", c, invariants=INV, simulate=n, depth=60, seed=check.seed, timeout=600),
                        exhaustive=False)
        check.run(f"sampled graphs of {m}", replay, r.records)
        check.need(len(r.records) >= n, "sampled graphs")


CHECKS = dict(P12=p12)
