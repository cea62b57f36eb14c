"""Runs the command line tools on files in a scratch folder."""
import contextlib
import io
import logging
import shutil
import sys
import tempfile
from pathlib import Path

MAINS = {
    "vfb2json": ("vfbLib.cmdline", "vfb2json"),
    "vfb3ufo": ("vfbLib.cmdline", "vfb2ufo"),
    "vfb2tth": ("vfbLib.tth", "vfb2tth"),
    "vfbcu2qu": ("vfbLib.cu2qu", "vfbcu2qu"),
    "vfbdiff": ("vfbLib.diff", "diffvfb"),
    "yuri": ("vfbLib.value", "yuri"),
}


@contextlib.contextmanager
def scratch():
    d = Path(tempfile.mkdtemp(prefix="mc-"))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(tool, *args):
    """(how it ended, what it printed). Ended: 0 or the exit status / exception
    that stops the program"""
    import importlib

    mod, fn = MAINS[tool]
    main = getattr(importlib.import_module(mod), fn)
    out = io.StringIO()
    argv = sys.argv
    sys.argv = [tool, *(str(a) for a in args)]
    code = 0
    root = logging.getLogger()
    was = root.manager.disable, root.level, list(root.handlers)
    if "-v" in args:
        logging.disable(0)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            main()
    except SystemExit as e:
        code = e.code or 0
    except Exception as e:
        code = f"{type(e).__name__}: {e}"
    finally:
        sys.argv = argv
        logging.disable(was[0])
        root.setLevel(was[1])
        root.handlers[:] = was[2]
    return code, out.getvalue()


def tree(folder):
    """{relative path: bytes} of all files below the folder"""
    folder = Path(folder)
    return {
        str(p.relative_to(folder)): p.read_bytes()
        for p in sorted(folder.rglob("*"))
        if p.is_file()
    }
