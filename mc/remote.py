"""
Two remote realms, one local realm: operations of a session on them.

The operations are executed in an environment: on the git model, or with the
real git binary in a process of its own (python -m mc.remote).
"""
import os
import pickle
import shutil
import sys
import tempfile

from .content import (
    DatasetTree, ExtractorConfiguration, FileTree, Metadata, MetadataPath, MetadataRootRecord,
    TreeVersionList, UUIDSet, VersionList, Path, UUID, diff, flush_object_references, freeze,
    get_top_nodes_and_metadata_root_record, load, read_mrr, read_top,
)
from .framework import Violation
from . import gitmodel, gitreal
from . import world as W

P = MetadataPath
CFG = ExtractorConfiguration("1", {})
D1, D2, D9 = UUID(int=1), UUID(int=2), UUID(int=9)
REFERENCES = ("refs/datalad/dataset-tree-version-list", "refs/datalad/dataset-uuid-set")

# scheme, and pairs that only differ in one part of the address
ADDRESSES = [
    ("https://h.org/a/r", "https://h.org/b/r"),
    ("https://h.org/a/r", "https://h.org/A/r"),
    ("https://h.org/a/r", "https://h.org/a/r2"),
    ("https://h.org/a/r", "http://h.org/a/r"),
    ("https://h.org/a/r", "https://g.org/a/r"),
    ("https://u@h.org/r", "https://v@h.org/r"),
    ("ssh://h.org/a/r", "ssh://h.org/a_r"),
    ("ssh://git@h.org/a/r", "git@h.org:a/r"),
    ("git@h.org:a/r", "git@h.org:b/r"),
    ("git@h.org:a/r", "git@g.org:a/r"),
    ("git://h.org/a/r", "git://h.org/r/a"),
    ("git:h.org/a", "git:h.org/b"),
    ("http://h.org/a b", "http://h.org/a_b"),
    ("https://h.org/\u00e9", "https://h.org/e\u0301"),
]


# -- what is published ---------------------------------------------------------
def runs(value, extractor="e"):
    result = Metadata()
    result.add_extractor_run(5.0, extractor, "n", "m", CFG, {"v": value})
    return result


def record(ident, version, value, dlm=True):
    files = FileTree()
    for path in ("a", "d/b"):
        files.add_metadata(P(path), runs(value + path))
    return MetadataRootRecord(ident, version, runs(value) if dlm else None, files)


def top(value, sub=True):
    root = record(D1, "v1", value)
    tree = DatasetTree()
    tree.add_dataset(P(""), root)
    uuids, tvl = UUIDSet(), TreeVersionList()
    versions = VersionList()
    versions.set_versioned_element("v1", "10", P(""), root)
    uuids.set_version_list(D1, versions)
    if sub:
        child = record(D2, "w1", "same", False)
        tree.add_dataset(P("s/d"), child)
        versions = VersionList()
        versions.set_versioned_element("w1", "11", P(""), child)
        uuids.set_version_list(D2, versions)
    tvl.set_dataset_tree("v1", "10", P(""), tree)
    return tvl, uuids


def store(realm, tvl, uuids):
    tvl.write_out(realm)
    uuids.write_out(realm)
    flush_object_references(Path(realm))


QUERIES = [(D1, "v1", "", None, None), (D1, "v1", "s/d", D2, "w1"), (D9, "v9", "", None, None)]


def lookup(realm, number, auto):
    ident, version, path, sub, sub_version = QUERIES[number]
    return get_top_nodes_and_metadata_root_record(
        "git", realm, ident, version, P(""), P(path), sub, sub_version, auto)


def without_stamps(doc):
    def strip(v):
        return None if v is None else {k: e for k, (s, e) in v.items()}
    return {"tvl": strip(doc["tvl"]),
            "uuid": None if doc["uuid"] is None else {
                u: strip(v) for u, v in doc["uuid"].items()}}


def describe(result):
    tvl, uuids, mrr = result
    return (without_stamps(read_top(tvl, uuids)), None if mrr is None else read_mrr(mrr))


def publications(world):
    """
    name -> (stored objects and references, content, results of lookups), as
    they are for a local realm
    """
    realm = world.realms["L"]
    result = {}

    def add(name, repo):
        def local():
            world.reset({world.git.key(os.path.join(realm, ".git")): repo})
            return realm
        content = read_top(*load(local()))
        lookups = {}
        for number in range(len(QUERIES)):
            for auto in (False, True):
                lookups[number, auto] = describe(lookup(local(), number, auto))
        result[name] = (repo, content, lookups)

    world.reset()
    store(realm, *top("a"))
    base = world.repo("L").copy()
    add("a1", base)
    world.reset({world.git.key(os.path.join(realm, ".git")): base})
    tvl, uuids = load(realm)
    tree = tvl.get_dataset_tree("v1", P(""))[2]
    tree.get_metadata_root_record(P("s/d")).file_tree.add_metadata(P("n/f"), runs("new"))
    tvl.set_dataset_tree("v2", "20", P("p/q"), DatasetTree())
    store(realm, tvl, uuids)
    add("a2", world.repo("L").copy())
    for name, value, sub in (("a3", "rewritten", False), ("b1", "b", True), ("b2", "bb", True)):
        world.reset()
        store(realm, *top(value, sub))
        add(name, world.repo("L").copy())
    for name, reference in (("half", REFERENCES[0]), ("other", REFERENCES[1])):
        repo = base.copy()
        del repo.refs[reference]
        add(name, repo)
    add("none", gitmodel.Repo())
    return result


# -- environments ---------------------------------------------------------------
class ModelEnv:
    names = {"A": "A", "B": "B", "L": "L"}

    def __init__(self, addresses):
        self.world = W.get_world(("L", "A", "B"))
        self.addresses = addresses

    def reset(self):
        world = self.world
        world.reset()
        world.git.remotes = {
            a: world.git.key(os.path.join(world.realms[n], ".git"))
            for n, a in self.addresses.items()}
        self.local = world.realms["L"]

    def key(self, name):
        return self.world.git.key(os.path.join(self.world.realms[name], ".git"))

    def publish(self, name, repo):
        self.world.git.repos[self.key(name)] = repo.copy()

    def state_of(self, name):
        repo = self.world.git.repos[self.key(name)]
        return dict(repo.refs), dict(repo.objects)

    def outage(self, name, off):
        (self.world.git.unreachable.add if off else self.world.git.unreachable.discard)(
            self.addresses[name])

    def gc_caches(self):
        for key, repo in self.world.git.repos.items():
            if key.startswith(os.path.realpath(self.world.cache) + os.sep):
                repo.gc()

    def drop_caches(self):
        git = self.world.git
        for key in list(git.repos):
            if key.startswith(os.path.realpath(self.world.cache) + os.sep):
                del git.repos[key]
        shutil.rmtree(self.world.cache, ignore_errors=True)

    def new_session(self):
        self.world.new_session()


class RealEnv:
    def __init__(self, addresses):
        self.addresses = addresses
        self.root = tempfile.mkdtemp(prefix="remote-")
        self.count = 0

    def reset(self):
        self.count += 1
        self.folder = os.path.join(self.root, str(self.count))
        self.off = set()
        for name in ("A", "B", "L"):
            gitreal.materialise(gitmodel.Repo(), self.git_dir(name))
        self.local = os.path.join(self.folder, "L")
        self.drop_caches()
        self.configure()
        self.new_session()

    def git_dir(self, name):
        return os.path.join(self.folder, name, ".git")

    def configure(self):
        os.environ["GIT_CONFIG_COUNT"] = str(len(self.addresses))
        for number, (name, address) in enumerate(sorted(self.addresses.items())):
            path = os.path.join(self.folder, "nowhere" if name in self.off else name)
            os.environ[f"GIT_CONFIG_KEY_{number}"] = f"url.{path}.insteadOf"
            os.environ[f"GIT_CONFIG_VALUE_{number}"] = address

    def publish(self, name, repo):
        shutil.rmtree(os.path.join(self.folder, name))
        gitreal.materialise(repo, self.git_dir(name))

    def state_of(self, name):
        repo = gitreal.import_repo(self.git_dir(name))
        return repo.refs, repo.objects

    def outage(self, name, off):
        (self.off.add if off else self.off.discard)(name)
        self.configure()

    def gc_caches(self):
        base = os.environ["XDG_CACHE_HOME"]
        for folder, _, _ in list(os.walk(base)):
            if os.path.basename(folder) == ".git":
                rc, out, err = gitreal.run_git(
                    ["git", "--git-dir", folder, "gc", "-q", "--prune=now"])
                if rc != 0:
                    raise RuntimeError("gc failed")

    def drop_caches(self):
        shutil.rmtree(os.environ["XDG_CACHE_HOME"], ignore_errors=True)

    def new_session(self):
        W.STATE.reset()


# -- machine ---------------------------------------------------------------------
class State:
    def __init__(self):
        self.published = {}     # remote -> name of the publication
        self.off = set()
        self.held = None        # (remote, name of the publication, tvl, uuids)
        self.extra = ()         # modifications of the held objects
        self.lost = False       # objects of the held publication might be lost
        self.local = None       # content of the local realm
        self.outcome = None


WHAT = ("tvl", "uuids", "tree", "record", "files", "meta", "versions")


def without(doc, extra):
    """the content without the modifications"""
    return doc


class RemoteMachine:
    def __init__(self, env, stores, operations, initial=(("A", "a1"), ("B", "b1"))):
        self.env = env
        self.stores = stores
        self.operations = operations
        self.first = initial

    def initial(self):
        return [("init",)]

    def start(self, op):
        self.env.reset()
        state = State()
        state.local = self.stores["none"][1]
        for name, publication in self.first:
            self.env.publish(name, self.stores[publication][0])
            state.published[name] = publication
        self.remember(state)
        return state

    def ops(self, state):
        return [op for op in self.operations if self.enabled(state, op)]

    def enabled(self, state, op):
        kind = op[0]
        if kind == "publish":
            return op[1] not in state.off and state.published[op[1]] != op[2]
        if kind == "outage":
            return op[1] not in state.off
        if kind == "back":
            return op[1] in state.off
        if kind in ("read_held", "copy_held"):
            return state.held is not None
        if kind in ("modify", "save"):
            return state.held is not None and not state.lost \
                and state.held[0] not in state.off \
                and "" in self.tree_doc(state.held[1])
        if kind in ("copy", "lookup_all"):
            return op[1] not in state.off
        return True

    def tree_doc(self, publication):
        content = self.stores[publication][1]
        if content["tvl"] is None or content["uuid"] is None:
            return {}
        return content["tvl"]["v1", ""][1][1]

    def apply(self, state, op):
        getattr(self, "op_" + op[0])(state, *op[1:])
        for name in ("A", "B"):
            if self.env.state_of(name) != state.remote_states[name]:
                raise Violation(f"remote {name} was changed by {op}",
                                f"remote changed by {op[0]}")

    def remember(self, state):
        state.remote_states = {n: self.env.state_of(n) for n in ("A", "B")}

    def expected(self, state, publication=None):
        """content of the held objects"""
        import copy
        content = copy.deepcopy(self.stores[publication or state.held[1]][1])
        for what in state.extra:
            run = {"x": {("1", freeze({})): (7.0, "n", "m", freeze({"w": what}))}}
            if what == "file":
                content["tvl"]["v1", ""][1][1][""]["files"]["d/b"].update(run)
            elif what == "new":
                content["tvl"]["v1", ""][1][1][""]["files"]["q/r"] = run
            elif what == "dlm":
                content["uuid"][str(D1)]["v1", ""][1][1]["dlm"].update(run)
        return content

    # -- operations ---------------------------------------------------------
    def op_publish(self, state, name, publication, keep):
        before = self.env.state_of(name)
        repo = self.stores[publication][0].copy()
        if keep:
            repo.objects = {**before[1], **repo.objects}
        elif state.held is not None and state.held[0] == name:
            state.lost = True
        self.env.publish(name, repo)
        state.published[name] = publication
        self.remember(state)
        state.outcome = None

    def op_outage(self, state, name):
        state.off.add(name)
        self.env.outage(name, True)
        state.outcome = None

    def op_back(self, state, name):
        state.off.discard(name)
        self.env.outage(name, False)
        state.outcome = None

    def op_session(self, state, how):
        if how == "gc":
            self.env.gc_caches()
        elif how == "drop":
            self.env.drop_caches()
        self.env.new_session()
        state.held, state.extra, state.lost = None, (), False
        state.outcome = None

    def attempt(self, state, name, action):
        """(True, result) or (False, error)"""
        try:
            return True, action()
        except RuntimeError as error:
            if name not in state.off:
                raise
            return False, error

    def op_load(self, state, name):
        address = self.env.addresses[name]
        done, top_objects = self.attempt(state, name, lambda: load(address))
        if name in state.off:
            if done:
                raise Violation(
                    f"the remote can not be reached, but loading it did not fail: {top_objects}",
                    "load of an unreachable remote")
            state.outcome = "error"
            return
        content = read_top(*top_objects)
        self.compare(content, self.stores[state.published[name]][1],
                     "content read from a remote realm")
        state.outcome = content

    def op_hold(self, state, name):
        address = self.env.addresses[name]
        done, top_objects = self.attempt(state, name, lambda: load(address))
        if name in state.off:
            if done:
                raise Violation("the remote can not be reached, but loading it did not fail",
                                "load of an unreachable remote")
            state.outcome = "error"
            return
        state.held = (name, state.published[name], *top_objects)
        state.extra, state.lost = (), False
        state.outcome = [o is not None for o in top_objects]

    def may_fail(self, state):
        return state.lost or state.held[0] in state.off

    def op_read_held(self, state):
        try:
            content = read_top(*state.held[2:])
        except RuntimeError:
            if not self.may_fail(state):
                raise
            state.outcome = "error"
            return
        self.compare(content, self.expected(state), "content of loaded remote objects")
        state.outcome = content

    def op_copy_held(self, state):
        """copy the objects (with their modifications) to the local realm"""
        try:
            self.copy(*state.held[2:])
        except RuntimeError:
            if not self.may_fail(state):
                raise
            # an incomplete copy: only the error is defined
            self.env.publish("L", gitmodel.Repo())
            state.local = self.stores["none"][1]
            state.outcome = "error"
            return
        self.check_copy(state, self.expected(state))

    def op_copy(self, state, name):
        self.copy(*load(self.env.addresses[name]))
        self.check_copy(state, self.stores[state.published[name]][1])

    def copy(self, tvl, uuids):
        for obj in (tvl, uuids):
            if obj is not None:
                obj.deepcopy("git", self.env.local).write_out(self.env.local)
        flush_object_references(Path(self.env.local))

    def check_copy(self, state, expected):
        # what is absent on the remote was not copied
        state.local = {k: state.local[k] if v is None else v for k, v in expected.items()}
        content = read_top(*load(self.env.local))
        self.compare(content, state.local, "content of a local copy")
        state.outcome = content

    def op_modify(self, state, what):
        tvl, uuids = state.held[2:]
        if what in state.extra:
            state.outcome = None
            return
        if what == "dlm":
            mrr = uuids.get_version_list(D1).get_versioned_element("v1", P(""))[2]
            mrr.get_dataset_level_metadata().add_extractor_run(
                7.0, "x", "n", "m", CFG, {"w": what})
        else:
            mrr = tvl.get_dataset_tree("v1", P(""))[2].get_metadata_root_record(P(""))
            mrr.get_file_tree().add_extractor_run(
                P("d/b" if what == "file" else "q/r"), 7.0, "x", "n", "m", CFG, {"w": what})
        state.extra += (what,)
        state.outcome = None

    def op_save(self, state, what, explicit):
        """saving on the remote is refused, if there is something to save"""
        tvl, uuids = state.held[2:]
        address = self.env.addresses[state.held[0]]
        if what in ("uuids", "versions"):
            obj = uuids if what == "uuids" else uuids.get_version_list(D1)
            modified = "dlm" in state.extra
        else:
            obj = tvl
            modified = bool(set(state.extra) - {"dlm"})
            if what != "tvl":
                obj = tvl.get_dataset_tree("v1", P(""))[2]
            if what in ("record", "files", "meta"):
                obj = obj.get_metadata_root_record(P(""))
            if what in ("files", "meta"):
                obj = obj.get_file_tree()
            if what == "meta":
                obj = obj.get_metadata(P("d/b"))
                modified = "file" in state.extra
        try:
            obj.write_out(address if explicit else None)
        except RuntimeError:
            state.outcome = "refused"
            return
        if modified:
            raise Violation(f"saving modified {what} on a remote realm was not refused",
                            f"save of {what} on a remote not refused")
        state.outcome = "nothing to save"

    def op_save_new(self, state, name):
        """new objects can not be saved on a remote"""
        address = self.env.addresses[name]
        tvl, uuids = top("new")
        for obj in (tvl, uuids, tvl.get_dataset_tree("v1", P(""))[2], record(D1, "v1", "x"),
                    runs("x"), record(D1, "v1", "x").file_tree):
            try:
                obj.write_out(address)
            except RuntimeError:
                continue
            raise Violation(f"saving a new {type(obj).__name__} on a remote was not refused",
                            "save of new objects on a remote not refused")
        state.outcome = "refused"

    def op_lookup(self, state, name, number, auto):
        address = self.env.addresses[name]
        done, result = self.attempt(state, name, lambda: lookup(address, number, auto))
        if name in state.off:
            if done:
                raise Violation("lookup in an unreachable remote did not fail")
            state.outcome = "error"
            return
        tvl = result[0]
        result = describe(result)
        expected = self.stores[state.published[name]][2][number, auto]
        if result != expected:
            raise Violation(f"lookup in a remote (expected / got): {expected} {result}",
                            "lookup in a remote realm")
        state.outcome = result
        if auto and tvl is not None:
            try:
                tvl.write_out(address)
            except RuntimeError:
                return
            if expected[0]["tvl"] != without_stamps(
                    self.stores[state.published[name]][1])["tvl"]:
                raise Violation("saving created elements on a remote was not refused")

    def compare(self, got, expected, what):
        if got != expected:
            raise Violation(f"{what} (expected / got): {diff(expected, got)}", what)

    # -- identification -------------------------------------------------------
    def digest(self, state):
        return self.env.world.canon(
            state.published, sorted(state.off), state.held, state.extra, state.lost,
            state.local, sorted(self.env.world.git.unreachable))

    def check(self, state, history):
        pass

    def outcomes(self, history):
        """outcome of every operation, up to the first violation"""
        result = []
        state = self.start(history[0])
        for op in history[1:]:
            try:
                self.apply(state, op)
            except Violation as violation:
                result.append(("violation", violation.key))
                break
            except Exception as error:
                result.append(("unexpected", type(error).__name__, str(error)[:500]))
                break
            result.append(state.outcome)
        return result


def real_outcomes(stores, jobs):
    """
    jobs: list of (addresses, initial, history). Executes the histories with
    the real git in a real process, returns their outcomes.
    """
    scratch = tempfile.mkdtemp(prefix="ro-")
    try:
        task = os.path.join(scratch, "task")
        with open(task, "wb") as f:
            pickle.dump((stores, jobs), f)
        process = gitmodel.REAL_POPEN(
            [sys.executable, "-m", "mc.remote", task, os.path.join(scratch, "result")],
            cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
            stdout=-1, stderr=-1, env=dict(gitreal.git_env(), TMPDIR=scratch))
        out, err = process.communicate()
        if process.returncode != 0:
            raise RuntimeError("real process failed: " + err.decode()[-2000:])
        with open(os.path.join(scratch, "result"), "rb") as f:
            return pickle.load(f)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main(task, target):
    gitmodel.uninstall()
    with open(task, "rb") as f:
        stores, jobs = pickle.load(f)
    result = []
    for addresses, initial, history in jobs:
        env = RealEnv(addresses)
        try:
            result.append(RemoteMachine(env, stores, (), initial).outcomes(history))
        finally:
            shutil.rmtree(env.root, ignore_errors=True)
    with open(target, "wb") as f:
        pickle.dump(result, f)


if __name__ == "__main__":
    main(*sys.argv[1:])
