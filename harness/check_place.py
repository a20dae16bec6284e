"""P08: placements and their algebra follow spec/Placement.tla."""
import math
import zlib

import offline  # noqa: F401
from common import tlc

TOL = 1e-9
PYTHAGORAS = {4: math.degrees(math.atan2(3, 4)), 5: -math.degrees(math.atan2(3, 4)),
              6: math.degrees(math.atan2(4, 3)), 7: math.degrees(math.atan2(4, -3))}
NAMES = {"__builtins__": {}, "PI": math.pi, "sin": math.sin, "cos": math.cos}


def degrees(q, seed):
    if q > 3:
        return PYTHAGORAS[q] + 360 * (seed % 3 - 1 if seed % 5 == 0 else 0)
    return {0: [0], 1: [90, -270], 2: [180, -180], 3: [270, -90]}[q][seed % (1 if q == 0 else 2)]


def flat(m, k):
    return [x / 5 ** k for row in m for x in row]


def seed_of(item):
    return zlib.crc32(repr(item).encode())


def floats(xs, known=None):
    out = []
    for x in xs:
        # a symbolic value is only made of numbers, parameters, the four operations, PI and sines
        out.append(float(x.value) if x.has_value else float(eval(str(x), NAMES, known or {})))
    return out


def close(a, b):
    return len(a) == len(b) and all(math.isfinite(x) and abs(x - y) < TOL * max(1, abs(y)) for x, y in zip(a, b))


def transposed(m):
    return [m[3 * j + i] for i in range(3) for j in range(3)]


def apply(m, v):
    return [sum(m[3 * i + j] * v[j] for j in range(3)) for i in range(3)]


def instrument(item, seed, symbolic):
    """The same placements as an instrument: text, Assembler or instances."""
    from mccode_antlr.assembler import Assembler
    from mccode_antlr.reader.registry import InMemoryRegistry
    from mccode_antlr.loader.loader import parse_mccode_instr
    reg = InMemoryRegistry("mem")
    reg.add_comp("Arm", "DEFINE COMPONENT Arm SETTING PARAMETERS (int i=0)\nTRACE %{ ; %}\nEND\n")
    way = seed % 3
    coordinate = (lambda x: f"{x}*unit") if symbolic else (lambda x: repr(float(x)))
    if way == 0:
        a = Assembler("placed", registries=[reg])
        if symbolic:
            a.parameter("double unit = 1")
        for i, c in enumerate(item["comps"], 1):
            ref = lambda r: "ABSOLUTE" if r == 0 else f"c{r}"
            at = tuple(coordinate(x) if symbolic else float(x) for x in c["at"])
            rot = tuple(degrees(q, seed + i) for q in c["rot"])
            a.component(f"c{i}", "Arm", at=(at, ref(c["aref"])), rotate=(rot, ref(c["rref"])))
        return a.instrument
    if way == 1:
        lines = []
        for i, c in enumerate(item["comps"], 1):
            ref = lambda r: "ABSOLUTE" if r == 0 else (f"RELATIVE PREVIOUS({i - r})" if (seed >> i) & 1 else f"RELATIVE c{r}")
            at = ", ".join(coordinate(x) for x in c["at"])
            rot = ", ".join(repr(degrees(q, seed + i)) for q in c["rot"])
            lines.append(f"COMPONENT c{i} = Arm() AT ({at}) {ref(c['aref'])} ROTATED ({rot}) {ref(c['rref'])}")
        text = f"DEFINE INSTRUMENT placed({'double unit=1' if symbolic else ''})\nTRACE\n" + "\n".join(lines) + "\nEND\n"
        return parse_mccode_instr(text, [reg], "placed.instr")
    from mccode_antlr.instr import Instance, Instr
    from mccode_antlr.instr.orientation import Vector, Angles
    from mccode_antlr.common import Expr
    from mccode_antlr.reader import Reader
    comp = Reader(registries=[reg]).get_component("Arm")
    made = {0: None}
    instr = Instr("placed")
    for i, c in enumerate(item["comps"], 1):
        at = Vector(*[Expr.parse(coordinate(x)) if symbolic else Expr.float(x) for x in c["at"]])
        rot = Angles(*[Expr.float(degrees(q, seed + i)) for q in c["rot"]])
        made[i] = Instance(f"c{i}", comp, (at, made[c["aref"]]), (rot, made[c["rref"]]))
        instr.components += (made[i],)
    return instr


def replay_place(item):
    from mccode_antlr.instr.orientation import Orient, Vector, Angles, Rotation, Part, Seitz
    from mccode_antlr.common import Expr
    bad, seed = [], seed_of(item)
    symbolic = seed % 7 < 2
    known = {"unit": 1.0} if symbolic else None
    instr = instrument(item, seed, symbolic)

    def differs(what, i, want, got):
        bad.append(dict(kind="pose", detail=f"{what} of c{i}: the model gives {want}, the code {got}"))

    for i, (inst, pose) in enumerate(zip(instr.components, item["poses"]), 1):
        p = [x / 5 ** pose["pk"] for x in pose["p"]]
        r = flat(pose["r"]["n"], pose["r"]["k"])
        o = inst.orientation
        got = floats(o.position(), known)
        if not close(got, p):
            differs("position", i, p, got)
        for which, want in [(None, r), ("axes", r), ("coordinates", transposed(r))]:
            got = floats(o.rotation(which))
            if not close(got, want):
                differs(f"rotation({which})", i, want, got)
        # the reported angles give the same rotation
        angles = o.angles()
        if not close(floats(Rotation.from_angles(Angles(*[Expr.float(x) for x in floats(angles)]))), r):
            differs("angles", i, r, floats(angles))
        # placed again, absolutely, with what is reported
        again = Orient.from_dependent_orientations(None, Vector(*[Expr.float(x) for x in p]), None,
                                                   Angles(*[Expr.float(x) for x in floats(angles)]))
        if not (close(floats(again.position()), p) and close(floats(again.rotation()), r)):
            differs("equivalent absolute placement", i, (p, r), again)
        if symbolic:
            continue
        one = o.combine().resolve()
        if not (close(floats(one.position()), p) and close(floats(one.rotation()), r)):
            differs("combined transformation", i, (p, r), one)
        # a point there and back: the pose maps v to r v + p, its inverse back
        c = one.coordinates
        v = [1.0, -2.0, 3.0]
        there = [x + y for x, y in zip(apply(r, v), p)]
        back = [x + y for x, y in zip(apply(floats(c.rotation()), there), floats(c.vector()))]
        if not close(back, v):
            differs("point mapped there and back", i, v, back)
        laws(item, instr, i, bad)
    return bad


def laws(item, instr, i, bad):
    """Sums and differences of whole orientations."""
    zero, eye = [0.0] * 3, [1.0, 0, 0, 0, 1.0, 0, 0, 0, 1.0]
    a = instr.components[i - 1].orientation
    b = instr.components[0].orientation

    def same(what, x, p, r):
        gp, gr = floats(x.position()), floats(x.rotation())
        if not (close([g + 1 for g in gp], [q + 1 for q in p]) and close(gr, r)):
            bad.append(dict(kind="law", detail=f"{what} (c{i}): expected {p} {r}, got {gp} {gr}"))

    pa, ra = floats(a.position()), floats(a.rotation())
    same("(a + b) - b = a", (a + b) - b, pa, ra)
    same("a - a = 1", a - a, zero, eye)
    same("-(-a) = a", a.inverse().inverse(), pa, ra)
    same("a + (-a) = 1", a + a.inverse(), zero, eye)
    same("reduce", a.reduce(), pa, ra)


def replay_algebra(item):
    from mccode_antlr.instr.orientation import Parts, Part, TranslationPart, RotationX, RotationY, RotationZ, Vector
    from mccode_antlr.common import Expr
    bad, seed = [], seed_of(item)
    acc = saved = Parts()
    radian = seed % 3 == 0

    def part(g, k):
        if g["g"] == 0:
            return TranslationPart(v=Vector(*[Expr.float(x) for x in g["v"]]))
        d = degrees(g["q"], seed + k)
        kind = (RotationX, RotationY, RotationZ)[g["g"] - 1]
        made = kind(v=Expr.float(math.radians(d)), degrees=False) if radian else kind(v=Expr.float(d))
        return Part(made.axes) if (seed >> k) & 1 else made

    for k, op in enumerate(item["log"]):
        n = op["op"]
        if n == "plus":
            acc = acc + (part(op["gen"], k) if seed % 2 else Parts((part(op["gen"], k),)))
        elif n == "minus":
            acc = acc - (part(op["gen"], k) if seed % 2 else Parts((part(op["gen"], k),)))
        elif n == "plus saved":
            acc = acc + saved
        elif n == "minus saved":
            acc = acc - saved
        elif n == "inverse":
            acc = acc.inverse()
        elif n == "reduce":
            acc = acc.reduce()
        elif n == "save":
            saved = acc
        e = op["e"]
        r, t = flat(e["n"], e["k"]), [x / 5 ** e["k"] for x in e["t"]]
        whole = acc.resolve()
        got = floats(whole.seitz("axes").rotation()), floats(whole.seitz("axes").vector())
        if not (close(got[0], r) and close(got[1], t)):
            bad.append(dict(kind="algebra", detail=f"after {n} {op['gen']} (operation {k}): the model gives {r} {t}, the code {got}"))
            break
        inv = whole.seitz("coordinates")
        v = [3.0, 1.0, -2.0]
        there = [x + y for x, y in zip(apply(r, v), t)]
        back = [x + y for x, y in zip(apply(floats(inv.rotation()), there), floats(inv.vector()))]
        if not close(back, v):
            bad.append(dict(kind="algebra", detail=f"after {n} (operation {k}): a point mapped there and back is {back}, was {v}"))
            break
        bad += axis_angle(whole, r, t)
        if bad:
            break
    return bad


def axis_angle(part, r, t):
    """The axis and angle of a rotation, and its specialisation, are the same transformation."""
    from mccode_antlr.instr.orientation import Part, Rotation
    bad = []
    for unit in (True, False):
        angles = part.angles(degrees=unit)
        if not all(abs(x - y) < 1e-7 for x, y in zip(floats(Rotation.from_angles(angles, degrees=unit)), r)):
            bad.append(dict(kind="angles", detail=f"angles (degrees={unit}) of {r} are {angles}"))
    whole = Part(part.axes)
    if any(abs(x) > 1e-12 for x in t):
        return bad
    axis, angle, unit = whole.rotation_axis_angle
    n, a = floats(axis), math.radians(float(angle.value)) if unit == "degrees" else float(angle.value)
    c = [[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]]
    # a point p of the rotated system is at  p + sin(a) n x p + (1 - cos(a)) n x (n x p)  in the other
    cc = [[sum(c[i][k] * c[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    rod = [(1 if i == j else 0) + math.sin(a) * c[i][j] + (1 - math.cos(a)) * cc[i][j] for i in range(3) for j in range(3)]
    if not all(abs(x - y) < 1e-7 for x, y in zip(rod, transposed(r))):
        bad.append(dict(kind="axis angle", detail=f"axis {n} angle {a} of {r} is the rotation {transposed(rod)}"))
    s = whole.specialization()
    if not all(abs(x - y) < 1e-7 for x, y in zip(floats(s.rotation()), r)):
        bad.append(dict(kind="specialization", detail=f"{type(s).__name__} of {r} is {floats(s.rotation())}"))
    return bad


BASE = dict(MaxComps="0", Ats="{<<0,0,0>>}", Rots="{<<0,0,0>>}", MaxOps="0", Axes="{}", Vecs="{}", Sampling="FALSE", Mode='"place"')
INV = ("PosesAreRotations", "InverseLaw", "AccIsRotation", "SamePlaceSameReference")
SOME = "{<<0,0,0>>, <<1,0,0>>, <<0,4,0>>, <<0,0,3>>, <<2,1,0>>, <<0,5,6>>, <<6,0,1>>, <<0,1,2>>, <<4,1,0>>}"
FEW = "{<<0,0,0>>, <<1,0,0>>, <<0,4,0>>, <<5,0,1>>}"
QUARTERS = "{<<x, y, z>> : x \\in 0..3, y \\in 0..3, z \\in 0..3}"
ATS = "{<<x, y, z>> : x \\in {-1,0,2}, y \\in {0,3}, z \\in {-4,0,1}}"


def p08(check):
    check.assume("rotations are products of quarter turns and turns of the 3-4-5 triangle, where the model is exact; compared to 1e-9")
    check.assume("angles which depend on instrument parameters are decided by P10 through compiled programs; symbolic displacements here")
    t = check.thorough
    pick = lambda recs, n: recs if len(recs) <= n else recs[check.seed % max(1, len(recs) // n)::max(1, len(recs) // n)]
    c = dict(BASE, MaxComps="1", Ats=ATS, Rots="{<<x, y, z>> : x \\in Turns, y \\in Turns, z \\in Turns}")
    r = check.model("single placements", tlc("Placement", c, invariants=INV, workers=8, timeout=400))
    check.run("single placements", replay_place, pick(r.records, 9216 if t else 1200))
    c = dict(BASE, MaxComps="2" if not t else "3", Ats="{<<0,0,0>>, <<1,0,2>>}", Rots=SOME if not t else FEW)
    r = check.model("all short chains", tlc("Placement", c, invariants=INV, workers=8, timeout=600, heap="8g"))
    check.run("all short chains", replay_place, pick(r.records, 40000 if t else 1500))
    n = 3000 if t else 150
    for m, rots in [(4, "{<<x, y, z>> : x \\in {0,1,4}, y \\in {0,2,5}, z \\in {0,3}}"), (6, QUARTERS), (10, QUARTERS)]:
        c = dict(BASE, MaxComps=str(m), Ats=ATS, Rots=rots, Sampling="TRUE")
        r = check.model(f"sampled chains of {m}", tlc("Placement", c, invariants=INV, simulate=n, depth=m + 3,
                                                      seed=check.seed, timeout=600), exhaustive=False)
        check.run(f"sampled chains of {m}", replay_place, r.records)
        check.need(len(r.records) > n, "sampled chains")
    c = dict(BASE, Mode='"algebra"', MaxOps="3", Axes="{<<1,1>>, <<2,4>>, <<3,6>>}", Vecs="{<<1,2,-1>>}")
    r = check.model("all short words", tlc("Placement", c, invariants=INV, workers=8, timeout=400))
    check.run("all short words", replay_algebra, pick(r.records, 6000 if t else 1500))
    c = dict(BASE, Mode='"algebra"', MaxOps="8", Axes="{1,2,3} \\X Turns", Vecs="{<<1,2,-1>>, <<0,0,3>>, <<-2,1,0>>}", Sampling="TRUE")
    r = check.model("sampled words", tlc("Placement", c, invariants=INV, simulate=4 * n, depth=12, seed=check.seed, timeout=600), exhaustive=False)
    check.run("sampled words", replay_algebra, r.records)
    check.need(len(r.records) > n, "sampled words")


CHECKS = dict(P08=p08)
