"""One process of the management command: calls are read from stdin, what they say is written to stdout.

It runs as a user without rights, and what removes a folder is replaced by what does so only within the scratch directory.
"""
import contextlib
import io
import json
import os
import shutil
import sys
from pathlib import Path

job = json.load(sys.stdin)
sys.path.insert(0, job["src"])
sys.dont_write_bytecode = True
top = Path(job["top"]).resolve()
escaped = []
real = shutil.rmtree


def rmtree(path, *args, **kwargs):
    p = Path(os.path.abspath(path))
    inner = top / "cache" / "mccode_antlr"
    if p != inner and inner not in p.parents:
        escaped.append(str(path))
        return
    real(path, *args, **kwargs)


shutil.rmtree = rmtree
from mccode_antlr.cli import management  # noqa: E402

results = []
for argv, answer in job["calls"]:
    out, err = io.StringIO(), io.StringIO()
    error = None
    sys.argv, stdin = ["mccode-antlr", *argv], sys.stdin
    sys.stdin = io.StringIO(answer)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            management.mccode_management()
    except SystemExit as e:
        error = None if e.code in (0, None) else f"exit {e.code}: {err.getvalue()[-200:]}"
    except BaseException as e:
        error = f"{type(e).__name__}: {e}"
    sys.stdin = stdin
    inner = top / "cache"
    left = sorted(str(p.relative_to(inner)) for p in inner.rglob("*"))
    results.append(dict(out=out.getvalue(), error=error, escaped=list(escaped), left=left))
    escaped.clear()
json.dump(results, sys.stdout)
