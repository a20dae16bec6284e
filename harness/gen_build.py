"""Instruments for spec/Generate.tla, built in the process which translates them and in fresh ones."""
import re

import cprog

RUNTIME = {1: ("libc", "3.5.27", 305027), 2: ("verifruntime", "v3.6.1", 306001), 3: ("other", "3.99", 399000)}
FLAVOR = {1: ("mcstas", "neutron", "MCSTAS"), 2: ("mcxtrace", "xray", "MCXTRACE")}
FORM = {1: (1, {}), 2: (1, dict(enable_trace=False, default_main=False, portable=False)), 3: (2, {}), 4: (2, dict(default_main=False))}

COMPS = dict(
    A='DEFINE COMPONENT A\nSETTING PARAMETERS (double q=1, int r=2)\nSHARE %{ int a_share(void) { return 1; } %}\nDECLARE %{ double mem; %}\n'
      'INITIALIZE %{ mem = q; %}\nTRACE %{ x += mem; %}\nSAVE %{ mem = r; %}\nFINALLY %{ mem = 0; %}\nMCDISPLAY %{ magnify(""); %}\nEND\n',
    Arm='DEFINE COMPONENT Arm\nEND\n',
    U='DEFINE COMPONENT U\nSETTING PARAMETERS (string s="u")\nUSERVARS %{ double hit; int many[2]; %}\nDECLARE %{ double * list; char name[16]; %}\nTRACE %{ SCATTER; %}\nEND\n',
    L='DEFINE COMPONENT L\nSHARE %{\n%include "shapes"\n%}\nDECLARE %{ shape_t form; table_t * rows; %}\nINITIALIZE %{ form.a = 1; %}\nEND\n',
    G='DEFINE COMPONENT G\nTRACE %{ SCATTER; %}\nEND\n',
    M='DEFINE COMPONENT M\nMETADATA "text/plain" note %{ of the type %}\nEND\n',
    D='DEFINE COMPONENT D\nDEPENDENCY "-DWITH_D @NEXUSFLAGS@"\nTRACE %{ y = 0; %}\nEND\n',
    V='DEFINE COMPONENT V\nSETTING PARAMETERS (vector v={1,2}, string w=0, int n=1)\nTRACE %{ z += v[0]; %}\nEND\n',
    I='DEFINE COMPONENT I\nTRACE %{ t = 0; %}\nEND\n',
)
OTHER = ('DEFINE INSTRUMENT other(double o=3)\nDECLARE %{ double o_mem; %}\nINITIALIZE %{ o_mem = o; %}\nTRACE\nREMOVABLE COMPONENT gone = Arm() AT (0,0,0) ABSOLUTE\n'
         'COMPONENT i1 = I() AT (0,0,o) RELATIVE PREVIOUS\nEND\n')
SHELF = {
    1: (["double u_a;", "int u_b;", "double u_c[3];"], ""),
    2: ([], "COMPONENT u1 = U() AT (0,0,1) RELATIVE first EXTEND %{ hit += 1; %}\nCOMPONENT u2 = U(s=\"w\") AT (0,0,1) RELATIVE PREVIOUS\n"),
    3: ([], "COMPONENT l1 = L() AT (0,0,1) RELATIVE PREVIOUS\nCOMPONENT l2 = L() AT (0,0,1) RELATIVE PREVIOUS\n"),
    4: ([], "SPLIT 3 COMPONENT g1 = G() AT (0,0,1) RELATIVE PREVIOUS GROUP both\nCOMPONENT g2 = G() WHEN (x > 0) AT (0,0,0) RELATIVE PREVIOUS GROUP both\n"),
    5: ([], "COMPONENT j1 = A(r=5) AT (0,0,1) RELATIVE first JUMP first ITERATE 2 JUMP NEXT WHEN (x > 1)\nCOMPONENT j2 = Arm() AT (0,0,1) RELATIVE PREVIOUS\n"),
    6: ([], "COMPONENT m1 = M() AT (0,0,1) RELATIVE PREVIOUS\nCOMPONENT m2 = M() AT (0,0,1) RELATIVE PREVIOUS METADATA \"text/plain\" note %{ of m2 %} METADATA json more %{ {} %}\n"),
    7: ([], "COMPONENT d1 = D() AT (0,0,1) RELATIVE PREVIOUS\nCOMPONENT d2 = D() AT (0,0,1) RELATIVE PREVIOUS\n"),
    8: ([], "%include \"other\"\nCOMPONENT c1 = COPY(first) AT (0,0,1) RELATIVE PREVIOUS\n"),
    9: ([], "COMPONENT v1 = V(v={3,4,5}, w=label, n=count) AT (0,count,2*p1) RELATIVE first ROTATED (0,p1,0) RELATIVE first\n"),
}


def source(feats, name):
    pars = ["double p1=1.5"] + (["string label=\"lab\"", "int count=2"] if 9 in feats else [])
    head = "DEPENDENCY \"-DOF_THE_INSTRUMENT\"\n" if 7 in feats else ""
    uv = "USERVARS %{ " + " ".join(x for f in sorted(feats) for x in SHELF[f][0]) + " %}\n" if any(SHELF[f][0] for f in feats) else ""
    meta = "METADATA \"text/plain\" note %{ of all %}\n" if 6 in feats else ""
    return (f"DEFINE INSTRUMENT {name}({', '.join(pars)})\n{meta}{head}DECLARE %{{ double d_mem; %}}\n{uv}INITIALIZE %{{ d_mem = p1; %}}\n"
            f"TRACE\nCOMPONENT first = A(q=p1) AT (0,0,0) ABSOLUTE\n" + "".join(SHELF[f][1] for f in sorted(feats)) + "END\n")


def registries(rt):
    import pathlib
    from mccode_antlr.reader.registry import LocalRegistry
    name, version, _ = RUNTIME[rt]
    run = LocalRegistry(name, str(cprog.RUNTIME))
    run.version = version
    return [cprog.memory_registry(COMPS, instrs=dict(other=OTHER)), run,
            LocalRegistry("genlib", str(pathlib.Path(__file__).resolve().parent / "genlib"))]


def read(feats, rt, name="main"):
    from mccode_antlr.loader.loader import parse_mccode_instr
    instr = parse_mccode_instr(source(feats, name), registries(rt), "main.instr")
    instr.source = "main.instr"
    return instr


def edit(instr, kind, n, other=None):
    """other: an instrument read apart from this one, whose definitions of the same components are used"""
    from mccode_antlr.common import InstrumentParameter, MetaData, Expr
    from mccode_antlr.instr import Instance
    from mccode_antlr.instr.orientation import Vector, Angles
    if kind == 1:
        instr.add_parameter(InstrumentParameter.parse(f"double e{n}={n}"))
    elif kind == 2:
        instr.DECLARE(f" int e_mem{n}; ")
    elif kind in (3, 4):
        first = (other or instr).components[0]
        zero = lambda k=0: (Expr.float(0), Expr.float(0), Expr.float(k))
        instr.add_component(Instance(f"e{n}", first.type, (Vector(*zero(n)), instr.components[0]), (Angles(*zero()), instr.components[0])))
    elif kind == 5:
        instr.components[0].set_parameter("r", Expr.int(10 + n), overwrite=True)
    elif kind == 6:
        instr.add_metadata(MetaData.from_instrument_tokens(instr.name, "text/plain", f"m{n % 2}", f" number {n} "))


def build(ver, apart=False):
    """ver: feats, rt, edits; apart: components which are added are of definitions read once more"""
    instr = read(ver["feats"], ver["rt"])
    for n, e in enumerate(ver["edits"]):
        edit(instr, e, n, read(ver["feats"], ver["rt"], "again") if apart and e == 4 else None)
    return instr


def visitor(instr, form):
    from mccode_antlr.translators.c import CTargetVisitor
    from mccode_antlr.translators.target import MCSTAS_GENERATOR, MCXTRACE_GENERATOR
    flavor, options = FORM[form]
    cfg = dict(dict(default_main=True, enable_trace=True, portable=True, include_runtime=True, embed_instrument_file=False, verbose=False, output="main.c"), **options)
    return CTargetVisitor(instr, generate=MCSTAS_GENERATOR if flavor == 1 else MCXTRACE_GENERATOR, config=cfg, verbose=False)


def plain(text):
    """without the time it is made at"""
    return re.sub(r"^ *\* Date:.*$", "* Date:", text, count=1, flags=re.M)
