"""C06: trees behave like maps from paths to entries"""
from ..content import *     # noqa: F401,F403
from ..content import (
    DatasetTree, ExtractorConfiguration, FileTree, Metadata, MetadataPath, MetadataRootRecord,
    MTreeNode, UUID, read_metadata,
)
from ..conformance import Trace, validate_trace
from ..framework import Search, Violation
from .. import world as W
from ..shapes import unloaded

TECHNIQUE = "explicit-state model checking of the real code against a map"
NOTE = ("All operation sequences up to the stated depth on one file tree and one dataset tree "
        "over a small set of nested paths, including saving, releasing and reloading; after "
        "each operation all lookups, membership tests and listings are compared with a map.")

FILE_PATHS = ("a", "a/b", "a/b/c", "b", "a/c")
REFUSED = (ValueError, AssertionError, KeyError, AttributeError, IndexError, RuntimeError,
           TypeError)


class State:
    pass


def attempt(function):
    """None or the error"""
    try:
        function()
    except REFUSED as error:
        return error
    return None


def again(machine, history):
    state = machine.start(history[0])
    for op in history[1:]:
        machine.apply(state, op)
    return state


class FileMachine:
    """entry: {path: run value}"""

    def __init__(self, paths=FILE_PATHS):
        self.paths = paths

    def initial(self):
        return [("init",), ("stored",)]

    def start(self, op):
        state = State()
        state.world = W.get_world()
        state.world.reset()
        state.tree = FileTree()
        state.map = {}
        if op[0] == "stored":
            for step in (("run", "a/b/c"), ("add", "a/c"), ("run", "b"), ("reload",)):
                self.apply(state, step)
        return state

    def ops(self, state):
        result = [("add", p) for p in self.paths + ("",)]
        result += [("run", p) for p in self.paths]
        result += [("add metadata with run", p) for p in self.paths[:2]]
        result += [("lookup", p) for p in self.paths]
        result += [("save",), ("release",), ("reload",)]
        return result

    def conflict(self, state, path):
        """adding would replace an entry or subtree or make an entry a directory"""
        return path == "" or path in state.map \
            or any(p.startswith(path + "/") for p in state.map) \
            or any(path.startswith(p + "/") for p in state.map)

    def apply(self, state, op):
        kind = op[0]
        realm = state.world.realms["R"]
        if kind in ("add", "add metadata with run"):
            path = op[1]
            meta = Metadata()
            value = {}
            if kind != "add":
                value = record_run(meta, "g", 1)
            conflict = self.conflict(state, path)
            error = attempt(lambda: state.tree.add_metadata(MetadataPath(path), meta))
            if conflict and error is None:
                raise Violation(f"adding an entry at {path!r} to {sorted(state.map)} was not "
                                f"refused", "conflicting addition not refused")
            if not conflict:
                if error is not None:
                    raise Violation(f"adding an entry at {path!r} to {sorted(state.map)} was "
                                    f"refused: {error!r}", "addition refused")
                state.map[path] = value
        elif kind == "run":
            path = op[1]
            old = state.map.get(path)
            number = 1 if old is None or old.get("e", {}).get(("1", "{}"), (0, 0, 0, "2"))[3] != "1" else 2

            def run():
                state.tree.add_extractor_run(
                    MetadataPath(path), 5.0, "e", "n", "m", ExtractorConfiguration("1", {}), number)
            conflict = path not in state.map and self.conflict(state, path)
            error = attempt(run)
            if conflict and error is None:
                raise Violation(f"extractor run at {path!r} in {sorted(state.map)} was not "
                                f"refused", "conflicting extractor run not refused")
            if not conflict:
                if error is not None:
                    raise Violation(f"extractor run at {path!r} in {sorted(state.map)} was "
                                    f"refused: {error!r}", "extractor run refused")
                state.map[path] = dict(old or {}, e={("1", "{}"): (5.0, "n", "m", str(number))})
        elif kind == "lookup":
            path = op[1]
            if any(p.startswith(path + "/") for p in state.map):
                return      # a directory, see MTreeNode.get_object_at_path
            meta = state.tree.get_metadata(MetadataPath(path))
            got = None if meta is None else read_metadata(meta)
            if got != state.map.get(path):
                raise Violation(f"lookup of {path!r} returns {got} instead of "
                                f"{state.map.get(path)}", "lookup")
        elif kind == "save":
            state.tree.write_out(realm)
        elif kind == "release":
            attempt(lambda: state.tree.purge())
        elif kind == "reload":
            state.tree.write_out(realm)
            reference = state.tree.reference
            state.world.new_session()
            state.tree = unloaded("FileTree", realm, reference)

    def compare(self, state):
        listed = list(state.tree.get_paths_recursive())
        names = sorted(str(p) for p, _ in listed)
        if names != sorted(state.map):
            raise Violation(f"listing {names} instead of {sorted(state.map)}", "listing")
        for path, meta in listed:
            if read_metadata(meta) != state.map[str(path)]:
                raise Violation(f"listing has other content at {path}", "listing content")
        directories = {""}
        for path in state.map:
            parts = path.split("/")
            directories |= {"/".join(parts[:i]) for i in range(1, len(parts))}
        intermediate = sorted(str(p) for p, node in state.tree.get_paths_recursive(True)
                              if isinstance(node, MTreeNode))
        if intermediate != sorted(directories):
            raise Violation(f"intermediate nodes {intermediate} instead of "
                            f"{sorted(directories)}", "listing of intermediate nodes")
        for path in self.paths:
            if path in directories:
                continue
            expected = state.map.get(path)
            if (MetadataPath(path) in state.tree) != (expected is not None):
                raise Violation(f"membership of {path!r} in {names} is wrong", "membership")
            meta = state.tree.get_metadata(MetadataPath(path))
            got = None if meta is None else read_metadata(meta)
            if got != expected:
                raise Violation(f"lookup of {path!r} returns {got} instead of {expected}",
                                "lookup")

    def digest(self, state):
        return state.world.canon(state.tree, state.map)

    def check(self, state, history):
        # read what is there, comparisons load nodes, they are not part of the history
        self.compare(state)
        # save without reading anything before
        state = again(self, history)
        realm = state.world.realms["R"]
        state.tree.write_out(realm)
        reference = state.tree.reference
        self.compare(state)
        state.world.new_session()
        state.tree = unloaded("FileTree", realm, reference)
        self.compare(state)


def record_run(meta, name, number):
    meta.add_extractor_run(5.0, name, "n", "m", ExtractorConfiguration("1", {}), number)
    return {name: {("1", "{}"): (5.0, "n", "m", str(number))}}


DATASET_PATHS = ("", "a", "a/b", "a/b/c", "c")
# subtrees that can be inserted: relative dataset paths
SUBTREES = {"one": ("",), "deep": ("", "x/y"), "inner": ("b",), "none": ()}


class DatasetMachine:
    """map: {path: version}; dirs: directories that may still exist without any dataset"""

    def __init__(self, paths=DATASET_PATHS):
        self.paths = paths

    def initial(self):
        return [("init",), ("stored",)]

    def start(self, op):
        state = State()
        state.world = W.get_world()
        state.world.reset()
        state.tree = DatasetTree()
        state.map = {}
        state.hollow = set()
        if op[0] == "stored":
            for path in ("", "a/b", "a/b/c", "c"):
                self.apply(state, ("add", path))
            self.apply(state, ("reload",))
        return state

    def ops(self, state):
        result = [("add", p) for p in self.paths]
        result += [("subtree", s, p) for s in SUBTREES for p in ("", "a", "a/b", "c")]
        result += [("delete", p) for p in ("", "a", "a/b", "a/b/c", "c", "x")]
        result += [("save",), ("release",), ("reload",)]
        return result

    @staticmethod
    def record(number):
        return MetadataRootRecord(UUID(int=number), f"v{number}", None, None)

    def below(self, state, path):
        return [p for p in state.map if p == path or p.startswith(path + "/")]

    def apply(self, state, op):
        kind = op[0]
        realm = state.world.realms["R"]
        number = 1 + max([int(v[1:]) for v in state.map.values()] or [0])
        if kind == "add":
            path = op[1]
            error = attempt(lambda: state.tree.add_dataset(
                MetadataPath(path), self.record(number)))
            conflict = path in state.map
            if conflict and error is None:
                raise Violation(f"adding a dataset at {path!r} to {sorted(state.map)} was not "
                                f"refused", "conflicting dataset addition not refused")
            if not conflict:
                if error is not None:
                    raise Violation(f"adding a dataset at {path!r} to {sorted(state.map)} was "
                                    f"refused: {error!r}", "dataset addition refused")
                state.map[path] = f"v{number}"
        elif kind == "subtree":
            name, path = op[1:]
            subtree = DatasetTree()
            content = {}
            for i, p in enumerate(SUBTREES[name]):
                subtree.add_dataset(MetadataPath(p), self.record(number + i))
                content["/".join(q for q in (path, p) if q)] = f"v{number + i}"
            conflict = path == "" or bool(self.below(state, path))
            error = attempt(lambda: state.tree.add_subtree(subtree, MetadataPath(path)))
            if conflict and error is None:
                raise Violation(f"adding a subtree at {path!r} to {sorted(state.map)} was not "
                                f"refused", "conflicting subtree addition not refused")
            if not conflict:
                if error is not None:
                    # a directory without datasets might have been left there
                    if path not in state.hollow:
                        raise Violation(f"adding a subtree at {path!r} to {sorted(state.map)} "
                                        f"was refused: {error!r}", "subtree addition refused")
                else:
                    state.map.update(content)
                    parts = path.split("/")
                    state.hollow |= {"/".join(parts[:i]) for i in range(1, len(parts) + 1)}
                    if name == "inner":
                        state.hollow.add(path + "/b")
        elif kind == "delete":
            path = op[1]
            below = self.below(state, path) if path else []
            error = attempt(lambda: state.tree.delete_subtree(MetadataPath(path)))
            if below:
                if error is not None:
                    raise Violation(f"deleting the subtree {path!r} of {sorted(state.map)} was "
                                    f"refused: {error!r}", "subtree deletion refused")
                for p in below:
                    del state.map[p]
                parts = path.split("/")
                state.hollow |= {"/".join(parts[:i]) for i in range(1, len(parts))}
            elif error is None and path not in state.hollow:
                raise Violation(f"deleting the missing subtree {path!r} of "
                                f"{sorted(state.map)} was not refused",
                                "deletion of missing subtree not refused")
        elif kind == "save":
            state.tree.write_out(realm)
        elif kind == "release":
            attempt(lambda: state.tree.purge())
        elif kind == "reload":
            state.tree.write_out(realm)
            reference = state.tree.reference
            state.world.new_session()
            state.tree = unloaded("DatasetTree", realm, reference)
        for path in state.map:
            parts = path.split("/") if path else []
            state.hollow |= {"/".join(parts[:i]) for i in range(1, len(parts) + 1)}

    def compare(self, state):
        listed = state.tree.dataset_paths
        names = sorted(str(p) for p, _ in listed)
        if names != sorted(state.map):
            raise Violation(f"listing {names} instead of {sorted(state.map)}", "dataset listing")
        for path in self.paths + ("a/x/y", "c/b", "a/b/b", "x"):
            expected = state.map.get(path)
            if (MetadataPath(path) in state.tree) != (expected is not None):
                raise Violation(f"membership of {path!r} in {names} is wrong",
                                "dataset membership")
            record = state.tree.get_metadata_root_record(MetadataPath(path))
            got = None if record is None else record.dataset_version
            if got != expected:
                raise Violation(f"lookup of dataset {path!r} in {names} returns {got} instead "
                                f"of {expected}", "dataset lookup")

    def digest(self, state):
        return state.world.canon(state.tree, state.map, state.hollow)

    def check(self, state, history):
        # read what is there, comparisons load nodes, they are not part of the history
        self.compare(state)
        # save without reading anything before
        state = again(self, history)
        realm = state.world.realms["R"]
        state.tree.write_out(realm)
        reference = state.tree.reference
        self.compare(state)
        state.world.new_session()
        state.tree = unloaded("DatasetTree", realm, reference)
        self.compare(state)


def run(ctx):
    for machine, depth in ((FileMachine(), 4 if ctx.quick else 6),
                           (DatasetMachine(), 4 if ctx.quick else 5)):
        search = Search(ctx, machine, depth=depth)
        search.run()
        for history in search.selection(5 if ctx.quick else 20):
            world = W.get_world()
            state = machine.start(history[0])
            with Trace(world) as trace:
                for op in history[1:]:
                    machine.apply(state, op)
                machine.check(state, history)
            validate_trace(ctx, trace)
    ctx.assume("a directory that has lost all its datasets may or may not be an obstacle for "
               "inserting a subtree at exactly its path; lookups at directory paths of file "
               "trees are not judged")


def replay(case):
    deep = any(op[0] in ("subtree", "delete") for op in case)
    for machine in ([DatasetMachine()] if deep else [FileMachine(), DatasetMachine()]):
        try:
            state = Search(None, machine, 0).replay(case)
        except (ValueError, AttributeError, KeyError):
            continue
        machine.check(state, case)
