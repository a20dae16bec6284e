"""P13: lookups through Reader and through instrument text follow spec/Registry.tla."""
import hashlib
import os
import shutil
import zlib
from pathlib import Path

import offline  # noqa: F401
from common import tlc, scratch

NOT_FOUND = dict(src=0, v=0)


def value(src, v):
    return 100 * src + v


def text_of(f, src, v):
    stem, ext = f.split(".")
    if ext == "comp":
        return f"DEFINE COMPONENT {stem} SETTING PARAMETERS (int v={value(src, v)})\nTRACE %{{ ; %}}\nEND\n"
    return f"/* {value(src, v)} */\n"


def place(layout, f):
    stem = f.split(".")[0]
    return {"root": f, "sub": f"lib/{f}", "own": f"{stem}/{f}"}[layout]


class Sources:
    """The real registries standing for the sources of one behaviour, in a scratch directory."""

    def __init__(self, item):
        self.dir = scratch("verif-reg-")
        self.item = item
        self.cache = []
        self.regs = []
        self.tag = f"{os.getpid()}{self.dir.name}".replace("-", "").replace("_", "")

    def close(self):
        for p in [self.dir, *self.cache]:
            shutil.rmtree(p, ignore_errors=True)

    def directory(self, i):
        return self.dir / f"src{i}"

    def put(self, i, f, v):
        s = self.item["srcs"][i - 1]
        if s["kind"] == "mem":
            self.regs[i - 1].add(f, text_of(f, i, v))
            return
        path = self.directory(i) / place(s["lay"], f)
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_text(text_of(f, i, v))

    def make(self, i, s):
        from mccode_antlr.reader.registry import InMemoryRegistry, LocalRegistry, GitHubRegistry, ModuleRemoteRegistry
        import pooch
        files = {place(s["lay"], x["f"]): text_of(x["f"], i, x["v"]) for x in s["files"]}
        name = f"s{i}"
        if s["kind"] == "mem":
            reg = InMemoryRegistry(name, priority=s["prio"])
            for x in s["files"]:
                reg.add(x["f"], text_of(x["f"], i, x["v"]))
            return reg
        if s["kind"] == "local":
            self.directory(i).mkdir()
            for f, t in files.items():
                (self.directory(i) / f).parent.mkdir(parents=True, exist_ok=True)
                (self.directory(i) / f).write_text(t)
            return LocalRegistry(name, str(self.directory(i)), priority=s["prio"])
        hashes = {f: hashlib.sha256(t.encode()).hexdigest() for f, t in files.items()}
        name = f"{name}-{self.tag}"
        if s["kind"] == "remote":
            cache = Path(pooch.os_cache(f"mccode_antlr/{name}"))
            self.cache.append(cache)
            d = cache / "v1.0"
            d.mkdir(parents=True)
            (d / f"{name}-registry.txt").write_text("\n".join(f"{f} {h}" for f, h in hashes.items()))
            reg = GitHubRegistry(name, "https://example.invalid/x", "v1.0", priority=s["prio"])
        else:
            listing = self.dir / f"{name}.txt"
            listing.write_text("\n".join(f"{f} {h}" for f, h in hashes.items()))
            self.cache.append(Path(pooch.os_cache(f"mccode_antlr/mccode_antlr-{name}")))
            reg = ModuleRemoteRegistry(name, "https://example.invalid/y/", listing, version="v1.0", priority=s["prio"])
        for f, t in files.items():                      # what a download would have left
            path = Path(reg.pooch.path) / f
            path.parent.mkdir(parents=True, exist_ok=True)
            path.write_text(t)
        return reg

    def build(self):
        for i, s in enumerate(self.item["srcs"], 1):
            # the sources are those of the end of the history: without what the history writes
            late = [x["f"] for x in self.item["log"] if x["op"] == "write" and x["src"] == i]
            files = [dict(x, v=x["v"] - late.count(x["f"])) for x in s["files"]]
            s = dict(s, files=[x for x in files if x["v"] > 0])
            self.regs.append(self.make(i, s))
        return self.regs[:self.item["given"]]


def sample(item):
    return zlib.crc32(repr(item["log"]).encode())


def attempt(f, *args, **kwargs):
    try:
        return f(*args, **kwargs)
    except Exception as error:
        return error


def default(comp):
    return int(comp.get_parameter("v").value.value)


def spec_of(op, src, seed):
    d = src.directory(op["src"])
    plain = {"path": str(d), "shell": str(d), "named": f"dir{op['src']} {d}", "relative": os.path.relpath(d)}[op["form"]]
    return plain


def replay_reader(item):
    """The history through the programming interface."""
    from mccode_antlr.reader import Reader
    bad, src = [], Sources(item)

    def differs(what, op, want, got):
        bad.append(dict(kind="lookup", detail=f"{what} after {op}: the model gives {want}, the code {got!r}"[:600]))

    try:
        regs = src.build()
        # a reader given nothing takes the default registry: one empty source of the lowest priority stands for none
        reader = Reader(registries=list(regs)) if regs else Reader(registries=[src.make(99, dict(kind="mem", prio=0, files=[], lay="root"))])
        objects = {}
        for k, op in enumerate(item["log"]):
            if op["op"] == "search":
                s = spec_of(op, src, k)
                reader.handle_search_keyword(f'"{s}"' if k % 2 else s)
            elif op["op"] == "write":
                src.put(op["src"], op["f"], op["v"])
            elif op["k"] == "comp":
                got = attempt(reader.get_component, op["n"])
                want = None if op["a"] == NOT_FOUND else value(op["a"]["src"], op["a"]["v"])
                if want is None:
                    if not isinstance(got, RuntimeError):
                        differs(f"component {op['n']}", op, "an error", got if isinstance(got, Exception) else (got.name, default(got)))
                elif isinstance(got, Exception) or got.name != op["n"] or default(got) != want:
                    differs(f"component {op['n']}", op, want, got if isinstance(got, Exception) else (got.name, default(got)))
                elif objects.setdefault(op["n"], got) is not got:
                    differs(f"component {op['n']}", op, "the definition read before", "another one")
            else:
                want = None if op["a"] == NOT_FOUND else text_of(op["f"], op["a"]["src"], op["a"]["v"])
                stem, ext = op["f"].split(".")
                forms = [((op["f"],), {}), ((op["f"],), dict(strict=True)), ((stem,), dict(ext=f".{ext}", strict=True))]
                for a, kw in forms[1:] if want is None else forms:
                    got = attempt(reader.contents, *a, **kw)
                    if want is None:
                        if not isinstance(got, RuntimeError):
                            differs(f"contents{a}{kw}", op, "an error", got)
                        continue
                    if got != want:
                        differs(f"contents{a}{kw}", op, want, got)
                    path = attempt(reader.locate, *a, **kw)
                    if item["srcs"][op["a"]["src"] - 1]["kind"] == "mem":
                        pass                           # no place in the file system
                    elif isinstance(path, Exception) or Path(path).read_text() != want:
                        differs(f"locate{a}{kw}", op, want, path)
                    full = attempt(reader.fullname, *a, **kw)
                    if isinstance(full, Exception) or Path(full).name != op["f"]:
                        differs(f"fullname{a}{kw}", op, op["f"], full)
                known = attempt(reader.known, op["f"], strict=True)
                if bool(known) != (want is not None) or isinstance(known, Exception):
                    differs(f"known({op['f']!r})", op, want is not None, known)
    finally:
        src.close()
    return bad


def replay_text(item):
    """The history as an instrument: component instances, SEARCH in its header, between them and in an included file."""
    from mccode_antlr.loader.loader import parse_mccode_instr
    from mccode_antlr.reader.registry import InMemoryRegistry
    from mccode_antlr.reader import Reader
    bad, src = [], Sources(item)
    seed = sample(item)
    try:
        regs = src.build()
        aux = InMemoryRegistry("aux", priority=-1000)
        header, body, want, dirs, fails, inner = "", [], [], [], None, None
        for k, op in enumerate(item["log"]):
            if op["op"] == "search":
                s = spec_of(op, src, k)
                dirs.append(src.directory(op["src"]).resolve())
                if op["form"] == "shell":
                    (src.dir / f"out{k}").write_text(s + "\n" * (seed % 3))
                    line = f'SEARCH SHELL "cat {src.dir}/out{k}"'
                else:
                    line = f'SEARCH "{s}"'
                if k == 0 and seed % 2:
                    header = line
                else:
                    body.append(line)
            else:
                body.append(f"COMPONENT c{k} = {op['n']}() AT (0,0,0) ABSOLUTE")
                if op["a"] == NOT_FOUND:
                    fails = op
                    break
                want.append((f"c{k}", op["n"], value(op["a"]["src"], op["a"]["v"])))
        # a part of the instrument moves to an included one: it reads with the same sources
        if len(body) > 2 and seed % 5 < 2:
            lo = seed % (len(body) - 1)
            part = body[lo:lo + 2]
            aux.add_instr("Inner", "DEFINE INSTRUMENT Inner()\nTRACE\n" + "\n".join(part) + "\nEND\n")
            body[lo:lo + 2] = ['%include "Inner.instr"']
            inner = part
        text = f"DEFINE INSTRUMENT outer()\n{header}\nTRACE\n" + "\n".join(body) + "\nEND\n"
        got = attempt(parse_mccode_instr, text, [*regs, aux], "outer.instr")
        shown = text if inner is None else f"{text}(Inner: {inner})"
        if fails is not None:
            if not isinstance(got, RuntimeError):
                bad.append(dict(kind="accepted", detail=f"no source provides {fails['n']} but the instrument is read "
                                                        f"({type(got).__name__} {str(got)[:200]}):\n{shown}"))
            return bad
        if isinstance(got, Exception):
            bad.append(dict(kind="rejected", detail=f"{type(got).__name__}: {got}\n{shown}"))
            return bad
        seen = [(c.name, c.type.name, default(c.type)) for c in got.components]
        if seen != want:
            bad.append(dict(kind="definitions", detail=f"the model gives {want}, the code {seen}:\n{shown}"))
        first = {}
        for c in got.components:
            if first.setdefault(c.type.name, c.type) is not c.type:
                bad.append(dict(kind="definitions", detail=f"instances of {c.type.name} have different definitions:\n{shown}"))
        # whoever works with the instrument later finds the same files
        for x in item["final"]:
            c = attempt(lambda: Reader(registries=list(got.registries)).get_component(x["f"][:-5]))
            v = None if isinstance(c, Exception) else default(c)
            if v != (None if x["a"] == NOT_FOUND else value(x["a"]["src"], x["a"]["v"])):
                bad.append(dict(kind="registries", detail=f"{x['f']} found again with the instrument's sources: the model gives "
                                                          f"{x['a']}, the code {v or c}:\n{shown}"))
        kept = [Path(r.root) for r in got.registries if isinstance(r.root, Path)]
        for d in dirs:
            if d not in kept:
                bad.append(dict(kind="registries", detail=f"the search path {d} is not among the instrument's sources {kept}"))
    finally:
        src.close()
    return bad


def place_text(path):
    """Files say where they are; component definitions do so by a parameter."""
    name = path[-1]
    if name.endswith(".comp"):
        number = zlib.crc32("/".join(path).encode()) % 10**6
        return f"DEFINE COMPONENT {name[:-5]} SETTING PARAMETERS (int v={number})\nTRACE %{{ ; %}}\nEND\n"
    return f"/* {'/'.join(path)} */\n"


def replay_places(item):
    """Files of one directory, which come and go, asked for in every way."""
    from mccode_antlr.loader.loader import parse_mccode_instr
    from mccode_antlr.reader import Reader
    from mccode_antlr.reader.registry import InMemoryRegistry, LocalRegistry
    bad, top = [], scratch("verif-places-")
    backup = InMemoryRegistry("backup", priority=-5)
    for name in ("A.comp", "A.h"):
        backup.add(name, place_text(("backup", name)))

    def write(f):
        path = top.joinpath(*f)
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_text(place_text(f))

    try:
        for f in [] if len(item["log"]) > 1 or item["log"][0]["f"] else item["files"]:
            write(f)
        reg = LocalRegistry("dir", str(top))
        for op in item["log"]:
            if op["f"]:
                if op["there"]:
                    write(op["f"])
                else:
                    top.joinpath(*op["f"]).unlink()
                    for d in list(top.joinpath(*op["f"]).parents)[:len(op["f"]) - 1]:
                        if not any(d.iterdir()):
                            d.rmdir()
            shown = sorted("/".join(p.relative_to(top).parts) for p in top.rglob("*") if p.is_file())

            def differs(what, want, got):
                bad.append(dict(kind="place", detail=f"{what} with {shown}: the model gives {want}, the code {got!r}"[:600]))

            reader = Reader(registries=[reg, backup])
            for x in op["answers"]:
                q, a = "/".join(x["q"]), x["a"]
                here = a["is"] == "file"
                want = place_text(tuple(a["f"])) if here else None
                stem, ext = q.rsplit(".", 1)
                for args, kw in [((q,), {}), ((stem,), dict(ext=f".{ext}"))]:
                    got = attempt(reg.contents, *args, **kw)
                    if not (got == want if here else isinstance(got, RuntimeError)):
                        differs(f"contents{args}{kw}", "/".join(a["f"]) if here else "an error", got)
                    got = attempt(reg.path, *args, **kw)
                    if not (Path(str(got)) == top.joinpath(*a["f"]) if here else isinstance(got, RuntimeError)):
                        differs(f"path{args}{kw}", "/".join(a["f"]) if here else "an error", got)
                    got = attempt(reg.known, *args, **kw)
                    if got is not (x["n"] > 0):
                        differs(f"known{args}{kw}", x["n"] > 0, got)
                got = attempt(reg.unique, q)
                if got is not (x["n"] == 1):
                    differs(f"unique({q!r})", x["n"] == 1, got)
                if a["is"] == "backup":
                    want = place_text(("backup", *x["q"]))
                got = attempt(reader.contents, q, strict=True)
                if not (got == want if want else isinstance(got, RuntimeError)):
                    differs(f"Reader.contents({q!r})", want or "an error", got)
                if len(x["q"]) == 1 and ext == "comp":
                    text = f"DEFINE INSTRUMENT I()\nTRACE\nCOMPONENT c = {stem}() AT (0,0,0) ABSOLUTE\nEND\n"
                    got = attempt(parse_mccode_instr, text, [reg, backup], "I.instr")
                    if want is None:
                        if not isinstance(got, RuntimeError):
                            differs(f"an instance of {stem}", "an error", got)
                    elif isinstance(got, Exception) or f"(int v={default(got.components[0].type)})" not in want:
                        differs(f"an instance of {stem}", want, got if isinstance(got, Exception) else default(got.components[0].type))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return bad


FILES = ["A.comp", "BA.comp", "AB.comp", "A.instr", "BA.h", "A.h"]


def lookup(k, n, f):
    return f'[k |-> "{k}", n |-> "{n}", f |-> "{f}"]'


def tset(strings):
    return "{" + ", ".join(f'"{s}"' for s in strings) + "}"


COMPS = [lookup("comp", n, f"{n}.comp") for n in ("A", "BA", "AB", "B")]
ANY = COMPS + [lookup("file", f, f) for f in ("A.comp", "A.instr", "A.h", "BA.h", "B.h")]
INV = ("FailsWhenAbsent", "HighestWins", "OneDefinition")


def constants(given, dirs, kinds, prios, files, layouts, lookups, ops, forms, writes, sampling):
    return dict(NGiven=given, NDirs=dirs, Kinds=tset(kinds), Prios=prios, Files=tset(files), Layouts=tset(layouts),
                Lookups="{" + ", ".join(lookups) + "}", MaxOps=ops, SearchForms=tset(forms), WriteKinds=tset(writes),
                Sampling="TRUE" if sampling else "FALSE")


ALL = ["mem", "local", "remote", "module"]
LAYS = ["root", "sub", "own"]


def p13(check):
    check.assume("remote sources are already in the local cache: nothing is downloaded")
    check.assume("a file is looked up by its whole name; matching of partial names is outside the model")
    t = check.thorough
    # every pair of sources and a search path, all short histories
    small = constants(2, 1, ["mem", "local"], "{0, 5}", ["A.comp", "BA.comp"], ["root"],
                      [COMPS[0], ANY[4]], 3, ["path"], ["mem"], False)
    r = check.model("all short histories", tlc("Registry", small, invariants=INV, properties=("DefsStable",), workers=8,
                                               heap="8g", timeout=400))
    step = 2 if t else 24
    check.run("all short histories, through Reader", replay_reader, r.records[check.seed % step::step], chunk=200)
    # every pair of kinds and layouts: what one lookup gives
    kinds = constants(2, 0, ALL, "{0, 5}", ["A.comp", "BA.comp"], LAYS, [COMPS[0]], 1, ["path"], [], False)
    r = check.model("pairs of sources", tlc("Registry", kinds, invariants=INV, workers=8, timeout=400))
    check.run("pairs of sources, through Reader", replay_reader, r.records[check.seed % step::step], chunk=200)
    # where in a directory a file may be
    def seqs(paths):
        return "{" + ", ".join("<<" + ", ".join(f'"{x}"' for x in p) + ">>" for p in paths) + "}"
    dirs = [(), ("lib",), ("A",), ("lib", "A"), ("A.comp",)]
    asked = [("A.comp",), ("BA.comp",), ("A.h",), ("lib", "A.comp"), ("A", "A.comp"), ("A", "A.h"), ("A.comp", "A.h"), ("x", "A.comp")]
    places = dict(Dirs=seqs(dirs), Names=tset(["A.comp", "BA.comp", "A.h"]), Asked=seqs(asked), Backup=tset(["A.comp", "A.h"]),
                  MaxFiles=4 if t else 3, MaxOps=8, Sampling="FALSE")
    inv = ("Sound", "Reachable", "NoSecondGuess")
    r = check.model("places in a directory", tlc("Places", places, invariants=inv, workers=8, timeout=400))
    check.run("places in a directory", replay_places, r.records, chunk=50)
    r = check.model("files come and go", tlc("Places", dict(places, MaxFiles=6, Sampling="TRUE"), invariants=inv,
                                             simulate=400 if t else 40, depth=11, seed=check.seed, timeout=400), exhaustive=False)
    check.run("files come and go", replay_places, r.records, chunk=20)
    check.need(any(x["a"]["is"] == "several" for i in r.records for o in i["log"] for x in o["answers"]), "ambiguous names")
    n = 6000 if t else 700
    for given, dirs, ops in [(1, 1, 4), (3, 1, 6), (4, 2, 9)]:
        c = constants(given, dirs, ALL, "{-10, 0, 10}", FILES, LAYS, ANY, ops, ["path", "named", "relative"], ["mem", "local"], True)
        r = check.model(f"sampled, {given} sources", tlc("Registry", c, invariants=INV, simulate=n, depth=ops + 3,
                                                         seed=check.seed, timeout=400), exhaustive=False)
        check.run(f"sampled, {given} sources, through Reader", replay_reader, r.records)
        check.need(len(r.records) > n // 4, "sampled histories")
        c = constants(given, dirs, ALL, "{-10, 0, 10}", FILES[:3], LAYS, COMPS[:3] * 2 + COMPS[3:], ops,
                      ["path", "named", "relative", "shell"], [], True)
        r = check.model(f"sampled for text, {given} sources", tlc("Registry", c, invariants=INV, simulate=n, depth=ops + 3,
                                                                  seed=check.seed + 1, timeout=400), exhaustive=False)
        check.run(f"sampled, {given} sources, through instruments", replay_text, r.records)
        check.need(len(r.records) > n // 4, "sampled instruments")


CHECKS = dict(P13=p13)
