"""Instrument text -> generated C program -> running binary, with a stand-in runtime."""
import os
import shutil
import subprocess
import tempfile
from pathlib import Path

import offline  # noqa: F401  (must precede mccode_antlr)

RUNTIME = Path(__file__).resolve().parent / "runtime"


class ProgramError(Exception):
    """The real code could not produce a working program."""


def memory_registry(comps, name="mem", priority=100, instrs=None):
    from mccode_antlr.reader.registry import InMemoryRegistry
    reg = InMemoryRegistry(name, priority=priority)
    for k, v in comps.items():
        reg.add_comp(k, v)
    for k, v in (instrs or {}).items():
        reg.add_instr(k, v)
    return reg


def runtime_registry():
    from mccode_antlr.reader.registry import LocalRegistry
    return LocalRegistry("verifruntime", str(RUNTIME))


def parse(text, comps, extra=(), source="generated.instr", instrs=None):
    from mccode_antlr.loader.loader import parse_mccode_instr
    regs = [memory_registry(comps, instrs=instrs), runtime_registry(), *extra]
    instr = parse_mccode_instr(text, regs, source)
    if instr.source is None:
        instr.source = source
    return instr


def generate(instr, flavor="mcstas"):
    """The C source the real code generates for the instrument."""
    from mccode_antlr.compiler.c import instrument_source
    from mccode_antlr.translators import target
    gen = target.MCSTAS_GENERATOR if flavor == "mcstas" else target.MCXTRACE_GENERATOR
    cfg = dict(default_main=True, enable_trace=True, portable=True, include_runtime=True,
               embed_instrument_file=False, verbose=False)
    return instrument_source(instr, gen, cfg)


class Program:
    def __init__(self, c_source, defines=(), cc="gcc", flags=("-O0", "-w")):
        self.dir = Path(tempfile.mkdtemp(prefix="verif-c-"))
        try:
            (self.dir / "a.c").write_text(c_source)
            res = subprocess.run([cc, *flags, *[f"-D{d}" for d in defines], "-o", "a.out", "a.c", "-lm"],
                                 cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            if res.returncode:
                raise ProgramError("the generated program does not compile:\n"
                                   + res.stdout.decode(errors="replace")[:1500])
        except BaseException:
            self.close()
            raise

    def run(self, args=(), stdin="", timeout=20):
        try:
            res = subprocess.run([str(self.dir / "a.out"), *args], input=stdin.encode(), cwd=self.dir,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ProgramError(f"the program does not terminate (args {list(args)}, input {stdin[:200]!r})")
        if res.returncode:
            raise ProgramError(f"the program ends with status {res.returncode}: "
                               + res.stdout.decode(errors="replace")[-500:])
        return res.stdout.decode(errors="replace").splitlines()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()
