"""Offline environment for the code under test.

Importing ``mccode_antlr.reader`` runs ``git ls-remote`` and downloads file lists; the
project's own configuration variables point it at an empty local repository instead.
Everything lives in one scratch directory that is removed at exit.
Importing this module (before any mccode_antlr import) is all that is needed.
"""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")


def _prepare():
    if os.environ.get("VERIF_OFFLINE_DIR") and os.path.isdir(os.environ["VERIF_OFFLINE_DIR"]):
        return os.environ["VERIF_OFFLINE_DIR"]          # a worker of a run that already prepared it
    off = tempfile.mkdtemp(prefix="verif-off-")
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(off, ignore_errors=True)
    atexit.register(clean)
    env = dict(os.environ, GIT_CONFIG_NOSYSTEM="1", HOME=off, GIT_TERMINAL_PROMPT="0",
               GIT_AUTHOR_NAME="offline", GIT_AUTHOR_EMAIL="offline@localhost",
               GIT_COMMITTER_NAME="offline", GIT_COMMITTER_EMAIL="offline@localhost")
    git = lambda *a, **k: subprocess.run(["git", *a], check=True, env=env, stdout=subprocess.PIPE,
                                         stdin=subprocess.DEVNULL, **k).stdout.decode().strip()
    repo = f"{off}/empty.git"
    git("init", "-q", "--bare", "-b", "main", repo)
    tree = git("-C", repo, "mktree")
    commit = git("-C", repo, "commit-tree", tree, "-m", "empty")
    git("-C", repo, "tag", "v0.0.0", commit)
    os.makedirs(f"{off}/config")
    for n in ("mcstas", "mcxtrace", "libc"):
        d = f"{off}/cache/mccode_antlr/{n}/v0.0.0"
        os.makedirs(d)
        open(f"{d}/{n}-registry.txt", "w").close()
    os.environ.update(
        XDG_CACHE_HOME=f"{off}/cache", XDG_CONFIG_HOME=f"{off}/config",
        MCCODEANTLR_MCCODE_POOCH__REGISTRY=repo, MCCODEANTLR_MCCODE_POOCH__TAG="v0.0.0",
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_OFFLINE_DIR=off)
    return off


OFF = _prepare()
sys.dont_write_bytecode = True
_src = f"{REPO}/src"
if _src not in sys.path:
    sys.path.insert(0, _src)

try:                                                     # the library logs a lot
    from loguru import logger
    logger.remove()
except Exception:                                        # pragma: no cover
    pass
