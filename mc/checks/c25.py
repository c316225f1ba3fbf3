"""C25: the place of a realm and the configuration of git do not matter"""
import itertools
import os
import pickle
import shutil
import subprocess
import tempfile
from pathlib import Path

from .. import gitmodel, gitreal
from .. import world as W
from ..content import (
    DatasetTree, ExtractorConfiguration, FileTree, Metadata, MetadataPath, MetadataRootRecord,
    TreeVersionList, UUID, UUIDSet, VersionList, diff, flush_object_references, load, read_top,
)
from ..framework import Violation, run_cases

LEVEL = "exploration"
TECHNIQUE = ("exhaustive exploration of places, spellings and git environments with the real code, "
             "the real git and real processes")
NOTE = ("All directory names, all combinations of spellings in the steps of a history, all pairs "
        "of settings of git and the environment, all states of the repository, each with a "
        "history of processes: save and flush, read, modify under the lock, collect garbage, "
        "read, copy to another realm, read. The result is compared to the one of a plain place.")

P = MetadataPath
CFG = ExtractorConfiguration("1", {"p": "\u00e9"})
VALUE = {"v": "a\r\nb\n\u00e9\u4e2d $Id$ \t"}

NAMES = ("plain", "with blank", " lead", "trail ", "quote\"d", "apos'trophe", "semi;colon", "$HOME",
         "$(touch x)", "`touch x`", "a&b", "a|b", "a>b", "*", "?", "[a]", "back\\slash", "new\nline",
         "tab\tulator", "-rf", "--git-dir=x", "%s{0}", "~", "#c", "!h", "\u00e9\u4e2d\U0001f600",
         "(p)", "a,b", "a=b", "\u2028", "a:b", "host:path", "deep/er/path", "..x", "x.git", ".git.d",
         "gitty", "httpd", "git", "https", "git-annex", "ssh", "HEAD", "refs", "a..b", "@", "@{0}", "a^b", ":x", "n" * 200)
SPELLINGS = ("abs", "slash", "double", "relative", "dotted", "up", "link")
# environment variables, or settings of the user's configuration
SETTINGS = (
    ("config", "core.quotePath", "true"), ("config", "core.quotePath", "false"),
    ("config", "core.autocrlf", "true"), ("config", "core.autocrlf", "input"),
    ("config", "core.safecrlf", "true"), ("config", "core.eol", "crlf"),
    ("attributes", "* text eol=crlf filter=x ident working-tree-encoding=UTF-16 diff=x", ""),
    ("config", "color.ui", "always"), ("config", "core.pager", "false"),
    ("config", "pager.show", "true"), ("config", "core.abbrev", "7"),
    ("config", "log.abbrevCommit", "true"), ("config", "log.showSignature", "true"),
    ("config", "format.pretty", "%h"), ("config", "diff.external", "false"),
    ("config", "core.compression", "0"), ("config", "core.logAllRefUpdates", "always"),
    ("config", "core.ignoreCase", "true"), ("config", "core.bigFileThreshold", "1"),
    ("config", "core.precomposeUnicode", "true"), ("config", "core.fileMode", "false"),
    ("config", "core.sharedRepository", "group"), ("config", "user.useConfigOnly", "true"),
    ("config", "i18n.logOutputEncoding", "latin1"), ("config", "alias.show", "!false"),
    ("config", "gc.auto", "1"), ("config", "core.worktree", "/nonexistent"),
    ("config", "fetch.prune", "true"), ("config", "transfer.hideRefs", "refs/datalad"),
    ("config", "core.protectNTFS", "true"), ("config", "core.protectHFS", "true"),
    ("env", "GIT_DIR", "/nonexistent/.git"), ("env", "GIT_WORK_TREE", "/nonexistent"),
    ("env", "GIT_INDEX_FILE", "/nonexistent/index"), ("env", "GIT_TRACE", "1"),
    ("env", "GIT_LITERAL_PATHSPECS", "1"), ("env", "GIT_ICASE_PATHSPECS", "1"),
    ("env", "GIT_PAGER", "false"), ("env", "PAGER", "false"), ("env", "TERM", "dumb"),
    ("env", "GIT_EDITOR", "false"), ("env", "GIT_NAMESPACE", "n"), ("env", "LC_ALL", "C"),
    ("env", "GIT_EXTERNAL_DIFF", "false"), ("env", "GIT_REDIRECT_STDERR", "off"),
    ("tmp", "with blank", ""), ("tmp", "\"quoted\"", ""), ("tmp", "\u00e9", ""),
    ("tmp", "back\\slash", ""), ("umask", "077", ""),
    ("cwd", "realm", ""), ("cwd", "git", ""), ("cwd", "objects", ""), ("cwd", "base", ""),
)
STATES = ("fresh", "commit", "detached", "packed", "alternates", "branches", "worktree files",
          "reflog", "shallow", "legacy names")


def top():
    """the model, a part of its names needs quoting"""
    runs = Metadata()
    runs.add_extractor_run(5.0, "e", "n \u00e9", "m", CFG, VALUE)
    files = FileTree()
    for path in ("a b", "\u00e9/\"t\\"):
        one = Metadata()
        one.add_extractor_run(6.0, "e", "n", "m", CFG, dict(VALUE, path=path))
        files.add_metadata(P(path), one)
    record = MetadataRootRecord(UUID(int=1), "v1", runs, files)
    tree = DatasetTree()
    tree.add_dataset(P(""), record)
    uuids, tvl = UUIDSet(), TreeVersionList()
    versions = VersionList()
    versions.set_versioned_element("v1", "10", P(""), record)
    uuids.set_version_list(UUID(int=1), versions)
    tvl.set_dataset_tree("v1", "10", P(""), tree)
    return tvl, uuids


# -- phases, each is a process of its own -------------------------------------------

def save(spell):
    tvl, uuids = top()
    tvl.write_out(spell["save"])
    uuids.write_out(spell["save"])
    flush_object_references(Path(spell["flush"]))


def read(spell):
    return read_top(*load(spell["read"]))


def modify(spell):
    from dataladmetadatamodel.mapper.gitmapper.utils import locked_backend
    with locked_backend(Path(spell["lock"])):
        tvl, uuids = load(spell["read"])
        record = tvl.get_dataset_tree("v1", P(""))[2].get_metadata_root_record(P(""))
        record.get_file_tree().add_extractor_run(
            P("a b"), 7.0, "e2", "n", "m", CFG, VALUE)
        record.get_file_tree().add_extractor_run(
            P("new"), 8.0, "e", "n", "m", CFG, ["x"])
        tvl.write_out(spell["read"])
        uuids.write_out(spell["read"])
        flush_object_references(Path(spell["flush"]))


def copy(spell):
    for part in load(spell["read"]):
        part.deepcopy("git", spell["copy"]).write_out(spell["copy"])
    flush_object_references(Path(spell["copy"]))


def read_copy(spell):
    return read_top(*load(spell["copy"]))


def process(function, spell, cwd, environment, umask):
    """result of the function in a process of its own"""
    reader, writer = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            import gc
            import signal
            signal.alarm(0)
            os.close(reader)
            null = os.open(os.devnull, os.O_RDWR)
            for number in (0, 1, 2):
                os.dup2(null, number)
            os.chdir(cwd)
            if umask:
                os.umask(umask)
            os.environ.clear()
            os.environ.update(environment)
            tempfile.tempdir = None
            W.STATE.reset()
            try:
                answer = ("ok", function(spell))
            except Exception as error:
                answer = ("error", f"{type(error).__name__}: {error}"[:500])
            gc.collect()
            with os.fdopen(writer, "wb") as f:
                pickle.dump(answer, f)
            status = 0
        finally:
            os._exit(status)
    os.close(writer)
    with os.fdopen(reader, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return "error", "the process died"
    return pickle.loads(data)


class Place:
    def __init__(self, name="plain", spelling=("abs",) * 4, settings=(), state="fresh"):
        self.name, self.spelling = name, spelling
        self.settings, self.state = settings, state

    def __enter__(self):
        gitmodel.set_active(None)
        self.root = tempfile.mkdtemp(prefix="c25-", dir=W.scratch_base())
        self.base = os.path.join(self.root, "base")
        self.realm = os.path.join(self.base, self.name)
        self.target = os.path.join(self.root, "copy", self.name)
        self.cwd = os.path.join(self.root, "cwd")
        self.tmp = os.path.join(self.root, "tmp")
        self.umask = None
        for path in (self.realm, self.target, self.cwd):
            os.makedirs(path)
        os.symlink(self.realm, os.path.join(self.root, "link"))
        self.environment = {k: v for k, v in os.environ.items() if not k.startswith("GIT_")}
        self.environment.update(
            GIT_CONFIG_GLOBAL=os.path.join(self.root, "config"), GIT_CONFIG_NOSYSTEM="1",
            HOME=self.root, XDG_CACHE_HOME=os.path.join(self.root, "cache"),
            GIT_CEILING_DIRECTORIES=self.root)
        self.git_environment = dict(
            self.environment, GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b.c",
            GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b.c",
            GIT_CONFIG_GLOBAL="/dev/null")
        for path in (self.realm, self.target):
            self.git("init", "-q", "-b", "main", path, cwd=self.root)
        self.prepare_state()
        for kind, key, value in self.settings:
            self.prepare_setting(kind, key, value)
        os.makedirs(self.tmp, exist_ok=True)
        self.environment["TMPDIR"] = self.tmp
        self.files = self.listing()
        return self

    def __exit__(self, *exc):
        shutil.rmtree(self.root, ignore_errors=True)

    def git(self, *args, cwd=None):
        return subprocess.run(
            ["git", *args], cwd=cwd or self.realm, env=self.git_environment, check=True,
            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE).stdout

    def collect(self):
        if self.state == "fresh":
            self.git("prune", "--expire=now")
        else:
            self.git("-c", "gc.reflogExpire=now", "gc", "-q", "--prune=now")

    def prepare_state(self):
        git, state = self.git, self.state
        if state == "fresh":
            return
        if state == "alternates":
            other = os.path.join(self.root, "other")
            git("init", "-q", other, cwd=self.root)
            gitreal.materialise(baseline()["objects"], os.path.join(other, ".git"))
            info = os.path.join(self.realm, ".git", "objects", "info")
            os.makedirs(info, exist_ok=True)
            Path(info, "alternates").write_text(os.path.join(other, ".git", "objects") + "\n")
            return
        if state == "worktree files":
            for name in ("refs/datalad/dataset-uuid-set", "refs/datalad/dataset-tree-version-list"):
                path = Path(self.realm, name)
                path.parent.mkdir(parents=True, exist_ok=True)
                path.write_text("x")
            for name in baseline()["objects"].objects:
                Path(self.realm, name).write_text("x")
            self.cwd = self.realm
        Path(self.realm, "f").write_text("content\n")
        git("add", "f")
        git("commit", "-q", "-m", "first")
        if state == "detached":
            git("checkout", "-q", "--detach")
        elif state == "packed":
            git("pack-refs", "--all")
            git("gc", "-q")
        elif state == "branches":
            for name in ("refs/heads/datalad/dataset-uuid-set", "refs/tags/dataset-uuid-set",
                         "refs/heads/dataset-tree-version-list",
                         "refs/datalad/dataset-uuid-set-2"):
                git("update-ref", name, "HEAD")
        elif state == "reflog":
            git("config", "core.logAllRefUpdates", "always")
        elif state == "shallow":
            git("commit", "-q", "--allow-empty", "-m", "second")
            Path(self.realm, ".git", "shallow").write_bytes(git("rev-parse", "HEAD"))
        elif state == "legacy names":
            # branches whose names look like parts of object names
            for name in list(baseline()["objects"].objects)[:5]:
                git("update-ref", "refs/heads/" + name[:7], "HEAD")
                git("update-ref", "refs/tags/" + name, "HEAD")

    def prepare_setting(self, kind, key, value):
        if kind == "config":
            subprocess.run(["git", "config", "-f", self.environment["GIT_CONFIG_GLOBAL"], key, value],
                           check=True)
        elif kind == "attributes":
            path = os.path.join(self.root, "attributes")
            Path(path).write_text(key + "\n")
            for name, text in (("core.attributesFile", path), ("filter.x.clean", "tr a b"),
                               ("filter.x.smudge", "tr b a"), ("filter.x.required", "true"),
                               ("diff.x.textconv", "rev")):
                self.prepare_setting("config", name, text)
        elif kind == "env":
            self.environment[key] = value
        elif kind == "tmp":
            self.tmp = os.path.join(self.root, "tmp " + key)
        elif kind == "umask":
            self.umask = int(key, 8)
        elif kind == "cwd":
            if key == "realm":
                self.cwd = self.realm
            elif key == "git":
                self.cwd = os.path.join(self.realm, ".git")
            elif key == "base":
                self.cwd = self.base
            else:
                for name in baseline()["objects"].objects:
                    Path(self.cwd, name).write_text("x")

    def spell(self, how, path):
        if how == "abs":
            return path
        if how == "slash":
            return path + "/"
        if how == "double":
            return path.replace("/base/", "//base//./")
        if how == "relative":
            return os.path.relpath(path, self.cwd)
        if how == "dotted":
            return os.path.join(".", os.path.relpath(path, self.cwd))
        if how == "up":
            return os.path.join(self.base, "..", "base", self.name)
        return os.path.join(self.root, "link")

    def run(self, function):
        steps = dict(zip(("save", "flush", "read", "lock"), self.spelling))
        spell = {step: self.spell(how, self.realm) for step, how in steps.items()}
        spell["copy"] = self.target
        kind, answer = process(function, spell, self.cwd, self.environment, self.umask)
        what = f"{function.__name__} with {self!r}"
        if kind != "ok":
            raise Violation(f"{what}: {answer}", f"{function.__name__} failed")
        if os.listdir(self.tmp):
            raise Violation(f"{what}: temporary files remain: {os.listdir(self.tmp)}",
                            "temporary files remain")
        return answer

    def listing(self):
        """files outside of the git directories of the realms"""
        found = set()
        for folder, folders, files in os.walk(self.root):
            if ".git" in folders:
                folders.remove(".git")
            found.update(os.path.join(folder, f) for f in files)
        return found

    def inside(self):
        """the files of the realm"""
        found = {}
        for folder, _, files in os.walk(self.realm):
            for name in files:
                path = os.path.join(folder, name)
                found[path] = os.stat(path).st_mtime_ns
        return found

    def __repr__(self):
        return f"({self.name!r}, {self.spelling}, {self.settings}, {self.state!r})"


def references(place, path):
    out = place.git("for-each-ref", "--format=%(objectname) %(refname)", "refs/datalad", cwd=path)
    return sorted(line for line in out.decode().splitlines() if not line.endswith("-2"))


def history(place):
    result = {}
    if place.run(read) != {"tvl": None, "uuid": None}:
        raise Violation("an empty realm is not empty")
    for number, write in enumerate((save, modify)):
        place.run(write)
        before = place.inside()
        result[write.__name__, "content"] = place.run(read)
        if place.inside() != before:
            raise Violation(f"reading changed files of the realm with {place!r}",
                            "reading changed files")
        result[write.__name__, "references"] = references(place, place.realm)
        place.collect()
    result["collected"] = place.run(read)
    place.run(copy)
    result["copy"] = place.run(read_copy)
    result["copy references"] = references(place, place.target)
    if place.listing() != place.files:
        raise Violation(f"other files appeared or disappeared with {place!r}: "
                        f"{sorted(place.listing() ^ place.files)[:5]}", "other files changed")
    return result


BASELINE = {}


def baseline():
    if not BASELINE:
        with Place() as place:
            BASELINE["objects"] = gitmodel.Repo()
            result = history(place)
            repo = gitreal.import_repo(os.path.join(place.realm, ".git"))
            BASELINE.update(result=result, objects=gitmodel.Repo(repo.objects, {}))
            expected = result["save", "content"]
            files = expected["tvl"]["v1", ""][1][1][""]["files"]
            if sorted(files) != ["a b", "\u00e9/\"t\\"]:
                raise Violation(f"stored file names: {sorted(files)}", "plain place")
            if result["modify", "content"] != result["collected"] \
                    or result["collected"] != result["copy"]:
                raise Violation("content changed in a plain place", "plain place")
    return BASELINE


def case(item):
    expected = baseline()["result"]
    with Place(*item) as place:
        result = history(place)
    for key, value in expected.items():
        if result[key] != value:
            raise Violation(
                f"{key} differs from that in a plain place with {item!r}: "
                f"{diff(value, result[key]) if isinstance(value, dict) else (value, result[key])}"[:800],
                "other result")
    return 1


def items(quick):
    plain, abs4 = "plain", ("abs",) * 4
    result = []
    for name in NAMES:
        for how in SPELLINGS if not quick else ("abs", "relative"):
            if name in ("-rf", "--git-dir=x") and how == "relative":
                how = "dotted"
            result.append((name, (how,) * 4, (), "fresh"))
            if how == "relative":
                # the path is the name
                result.append((name, (how,) * 4, (("cwd", "base", ""),), "fresh"))
    for four in itertools.product(SPELLINGS, repeat=4) if not quick else \
            [four for a, b in itertools.product(SPELLINGS, repeat=2)
             for four in ((a, b, b, a), (a, b, a, b), (a, a, b, b))]:
        result.append((plain, four, (), "fresh"))
    for one in SETTINGS:
        for how in ("abs", "relative") if not quick or one[0] in ("cwd", "env") else ("abs",):
            result.append((plain, (how,) * 4, (one,), "fresh"))
        for state in STATES if not quick else ():
            result.append((plain, abs4, (one,), state))
        for name in NAMES if not quick else ():
            result.append((name, abs4, (one,), "fresh"))
    for first, second in itertools.combinations(SETTINGS, 2) if not quick else ():
        if first[:2] != second[:2] and (first[0], second[0]) not in (
                ("cwd", "cwd"), ("tmp", "tmp")):
            result.append((plain, abs4, (first, second), "fresh"))
    for state in STATES:
        for how in SPELLINGS:
            result.append((plain, (how,) * 4, (), state))
    return list(dict.fromkeys(result))


def run(ctx):
    todo = items(ctx.quick)
    values = run_cases(ctx, case, todo, chunk=4)
    ctx.count("evaluations", sum(values))
    ctx.count("distinct_nontrivial", sum(values))
    ctx.count("processes", 7 * sum(values))
    ctx.note("rule", "every place, combination of spellings or setting is a case of its own")
    ctx.note("real_git", True)
    for index in (0, len(todo) // 2, len(todo) - 1):
        ctx.sample(todo[index])
    ctx.assume("repositories with SHA-1 object names and a .git directory")


def replay(item):
    return case(item)
