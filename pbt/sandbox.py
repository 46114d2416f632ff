"""Scratch directories and in-process runs of the command line tools."""
import logging
import os
import shutil
import sys

from . import core

_CODE = {}

# The matcher library logs through the root logger, whose handler would keep
# the error stream that was current when it first logged.
logging.getLogger().addHandler(logging.NullHandler())


ROOT = "/@@/"        # an absolute directory of the scratch directory


def case_dir():
    return os.path.join(core.SCRATCH, "case-%d" % os.getpid())


def expand(x):
    "A case with the stand-in of the absolute directory replaced by its name."
    if isinstance(x, str):
        return x.replace(ROOT, os.path.join(case_dir(), "abs") + "/")
    if isinstance(x, dict):
        return {expand(k): expand(v) for k, v in x.items()}
    if isinstance(x, list):
        return [expand(v) for v in x]
    return x


class Scratch:
    """A scratch directory holding the given source files.  The current
    directory while in use is a directory in it, so that names may lead
    upwards; a file whose name starts with ln- is a symbolic link."""

    def __init__(self, files=None, final_newline=True, eol="\n"):
        self.files = files or {}
        self.final_newline = final_newline
        self.eol = eol

    def __enter__(self):
        self.old = os.getcwd()
        self.dir = case_dir()
        self.work = os.path.join(self.dir, "w")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.work)
        os.chdir(self.work)
        for name, lines in self.files.items():
            self.write(name, lines)
        return self

    def write(self, name, lines):
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(name), exist_ok=True)
        base = os.path.basename(name)
        if base.startswith("ln-") and name in self.files and \
                not os.path.lexists(name):
            store = os.path.join(self.dir, "store")
            os.makedirs(store, exist_ok=True)
            os.symlink(os.path.join(store, base[3:]), name)
        text = "".join(line + self.eol for line in lines)
        if not self.final_newline and lines and lines[-1] != "":
            text = text[:-len(self.eol)]
        with open(name, "w", encoding="utf-8", newline="") as f:
            f.write(text)

    def __exit__(self, *exc):
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)

    def key(self, name):
        "The name by which tree() knows a file."
        return os.path.relpath(os.path.join(self.work, name), self.work)

    def tree(self):
        "{name from the current directory: bytes} of all files."
        out = {}
        for base, _, names in os.walk(self.dir):
            for n in names:
                p = os.path.join(base, n)
                with open(p, "rb") as f:
                    out[os.path.relpath(p, self.work)] = f.read()
        return out


class Captured:
    def __enter__(self):
        out, err = core.STDOUT, core.STDERR
        self.saved = sys.stdout, sys.stderr, out.target, err.target
        sys.stdout, sys.stderr = out, err
        out.target, err.target = self._o, self._e = \
            core.Output(), core.Output()
        return self

    def __exit__(self, *exc):
        self.out, self.err = self._o.getvalue(), self._e.getvalue()
        sys.stdout, sys.stderr, core.STDOUT.target, core.STDERR.target = \
            self.saved


class Run:
    "Outcome of a tool: exit status, standard output, standard error."

    def __init__(self, tool, args):
        path = os.path.join(core.REPO, "tools", tool)
        if path not in _CODE:
            with open(path, "rb") as f:
                _CODE[path] = compile(f.read(), path, "exec",
                                      dont_inherit=True)
        argv, name, search = sys.argv, "__main__", list(sys.path)
        known = set(sys.modules)
        sys.argv = [path] + list(args)
        sys.path.insert(0, os.path.dirname(path))
        self.status = 0
        try:
            with Captured() as cap:
                try:
                    exec(_CODE[path], {"__name__": name, "__file__": path,
                                       "__builtins__": __builtins__})
                except SystemExit as e:
                    if e.code is None:
                        self.status = 0
                    elif isinstance(e.code, int):
                        self.status = e.code
                    else:
                        self.status = 1
                        print(e.code, file=sys.stderr)
        finally:
            sys.argv = argv
            sys.path[:] = search
            for m in set(sys.modules) - known:      # helpers of the tools
                where = getattr(sys.modules[m], "__file__", None) or ""
                if os.path.dirname(where) == os.path.dirname(path):
                    del sys.modules[m]
        self.out, self.err = cap.out, cap.err
