"""A fresh process for spec/Generate.tla: for every version on standard input, the program it has when nothing was done before."""
import contextlib
import io
import json
import os
import sys

import offline  # noqa: F401
import gen_build


def one(ver):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        instr = gen_build.build(ver)
        text = str(instr)
        if ver["form"] is None:
            return dict(text=text)
        program = gen_build.visitor(instr, ver["form"]).contents()
    return dict(text=text, program=gen_build.plain(program), said=out.getvalue())


def main():
    import mccode_antlr.translators.c  # noqa: F401
    import mccode_antlr.loader.loader  # noqa: F401
    for line in sys.stdin:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:                                        # what one version does is not seen by the next
            try:
                got = one(json.loads(line))
            except Exception as e:
                got = dict(error=f"{type(e).__name__}: {e}")
            with os.fdopen(w, "w") as f:
                json.dump(got, f)
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            sys.stdout.write(f.read() + "\n")
        os.waitpid(pid, 0)
    sys.stdout.flush()


if __name__ == "__main__":
    main()
