"""
The closed environment of the code under check.

* one scratch directory per process, realms are directories in it
* git commands are answered by a GitModel
* time.time() is a deterministic counter
* new_session() gives the package the memory of a fresh process
"""
import atexit
import logging
import os
import shutil
import sys
import tempfile
import time
import hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from . import gitmodel  # noqa: E402

gitmodel.install()

import enum  # noqa: E402
import pathlib  # noqa: E402
import uuid  # noqa: E402
from .pkgstate import PackageState  # noqa: E402

REAL_TIME = time.time
REAL_SLEEP = time.sleep


class Clock:
    def __init__(self):
        self.now = 1000.0

    def __call__(self):
        self.now += 1.0
        return self.now


CLOCK = Clock()
STATE = None
BASE = None


def _unraisable(args):
    pass


def scratch_base():
    """A directory that is removed when the main process of the check ends"""
    global BASE
    if BASE is None:
        parent = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        BASE = os.path.realpath(tempfile.mkdtemp(prefix="vmc-", dir=parent))
        owner = os.getpid()

        def clean():
            if os.getpid() == owner:
                shutil.rmtree(BASE, ignore_errors=True)
        atexit.register(clean)
    return BASE


def setup():
    """import the package, remember its initial state"""
    global STATE
    if STATE is not None:
        return
    logging.disable(logging.CRITICAL)
    sys.unraisablehook = _unraisable
    scratch_base()
    for key in list(os.environ):
        if key.startswith("GIT_"):
            del os.environ[key]
    os.environ.update(GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_NOSYSTEM="1",
                      GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b.c",
                      GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b.c")
    os.environ["XDG_CACHE_HOME"] = os.path.join(BASE, "cache")
    os.environ["HOME"] = os.path.join(BASE, "home")
    tmp = os.path.join(BASE, "tmp")
    os.makedirs(tmp, exist_ok=True)
    os.makedirs(os.environ["HOME"], exist_ok=True)
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    STATE = PackageState()
    time.time = CLOCK


class World:
    """One modelled machine. Create one per process."""

    def __init__(self, realms=("R",), name=None):
        setup()
        self.root = os.path.join(scratch_base(), name or "w%d" % os.getpid())
        self.tmp = os.path.join(self.root, "tmp")
        os.makedirs(self.tmp, exist_ok=True)
        os.environ["TMPDIR"] = self.tmp
        tempfile.tempdir = self.tmp
        self.git = gitmodel.GitModel()
        self.cache = os.path.join(self.root, "cache")
        old = os.environ["XDG_CACHE_HOME"]
        os.environ["XDG_CACHE_HOME"] = self.cache
        STATE.relocate(old, self.cache)
        self.realms = {}
        for realm in realms:
            self.add_realm(realm)
        self.reset()

    def add_realm(self, name):
        path = os.path.join(self.root, name)
        git_dir = os.path.join(path, ".git")
        os.makedirs(git_dir, exist_ok=True)
        with open(os.path.join(git_dir, "HEAD"), "w") as f:
            f.write("ref: refs/heads/main\n")
        self.realms[name] = path
        self.git.repos[git_dir] = gitmodel.Repo()
        return path

    def repo(self, name="R"):
        return self.git.repos[os.path.join(self.realms[name], ".git")]

    def reset(self, snapshot=None):
        """Fresh process; with the given stores or with empty stores"""
        if snapshot is None:
            self.git.repos = {
                os.path.join(path, ".git"): gitmodel.Repo()
                for path in self.realms.values()}
        else:
            self.git.restore(snapshot)
        if os.path.isdir(self.cache):
            shutil.rmtree(self.cache)
        self.git.policy = None
        self.git.dead = False
        self.git.remotes = {}
        self.git.unreachable = set()
        self.git.count = 0
        self.git.quotepath = True
        CLOCK.now = 1000.0
        gitmodel.set_active(self.git)
        self.new_session()

    def new_session(self):
        STATE.reset()

    def snapshot(self):
        return self.git.snapshot()

    def canon(self, *values):
        return canon((values, STATE.capture(), self.git_state()), self.root)

    def git_state(self):
        return [
            (k, sorted(r.refs.items()), sorted(r.objects))
            for k, r in sorted(self.git.repos.items())]

    def close(self):
        gitmodel.set_active(None)
        shutil.rmtree(self.root, ignore_errors=True)


_OPAQUE = ("Logger", "InterProcessLock", "TemporaryDirectory", "RLock", "lock",
           "TextIOWrapper", "BufferedWriter", "BufferedRandom", "function", "module",
           "builtin_function_or_method", "method", "type", "ABCMeta", "finalize",
           "generator", "EnumType", "ModuleType")


def canon(value, root=""):
    """Canonical digest of an object graph including aliasing"""
    out = []
    seen = {}
    add = out.append

    def walk(v):
        t = type(v)
        if t is str:
            add("s" + (v.replace(root, "$ROOT") if root and root in v else v) + "\0")
        elif v is None or t is bool or t is int or t is float:
            add(repr(v) + "\0")
        elif t is bytes:
            add("b" + repr(v) + "\0")
        elif isinstance(v, pathlib.PurePath):
            add("p" + t.__name__ + pathlib.PurePosixPath.__str__(v).replace(root or "\0", "$ROOT") + "\0")
        elif t is uuid.UUID:
            add("u" + v.hex)
        elif isinstance(v, enum.Enum):
            add("e" + str(v))
        elif t is tuple:
            add("(")
            for item in v:
                walk(item)
            add(")")
        else:
            number = seen.get(id(v))
            if number is not None:
                add("@%d;" % number)
                return
            seen[id(v)] = len(seen)
            if t is list:
                add("[")
                for item in v:
                    walk(item)
                add("]")
            elif isinstance(v, dict):
                add("{")
                for k, item in v.items():
                    walk(k)
                    walk(item)
                add("}")
                if t is not dict and hasattr(v, "__dict__") and v.__dict__:
                    walk(v.__dict__)
            elif isinstance(v, (set, frozenset)):
                add("<" + ",".join(sorted(canon(i, root) for i in v)) + ">")
            elif t.__name__ in _OPAQUE or isinstance(v, type):
                add("o" + t.__name__ + getattr(v, "__name__", ""))
            else:
                add("O" + t.__name__)
                state = getattr(v, "__dict__", None)
                if state is not None:
                    for k in sorted(state):
                        add(k + "=")
                        walk(state[k])
                for k in getattr(t, "__slots__", ()):
                    if hasattr(v, k):
                        walk(getattr(v, k))
                add(";")

    walk(value)
    return hashlib.blake2b("".join(out).encode("utf-8", "surrogatepass"), digest_size=12).hexdigest()


_WORLDS = {}


def in_worker():
    """called in every forked worker"""
    _WORLDS.clear()
    import signal
    signal.signal(signal.SIGALRM, _raise_hang)
    signal.signal(signal.SIGPROF, _raise_hang)


def _raise_hang(signum, frame):
    from .framework import Hang
    raise Hang("case did not terminate")


def get_world(realms=("R",)):
    """The world of this process"""
    key = (os.getpid(), tuple(realms))
    if key not in _WORLDS:
        _WORLDS.clear()
        _WORLDS[key] = World(realms)
    return _WORLDS[key]
