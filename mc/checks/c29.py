"""C29: only the part in use stays loaded"""
import gc
import weakref

from .. import gitmodel
from ..conformance import Trace, validate_trace
from ..content import *     # noqa: F401,F403
from ..content import (
    ExtractorConfiguration, MetadataPath, UUID,
)
from ..framework import Search, Violation
from ..shapes import BUILD, unloaded
from .. import world as W
from dataladmetadatamodel.mappableobject import MappableObject

TECHNIQUE = "explicit-state model checking of the real code"
NOTE = ("All sequences of lookups, changes, listings (complete and abandoned at every entry, with "
        "lookups by the consumer), copies, saves and releases up to the stated depth on models of "
        "all kinds; after each operation, at every listed entry and at every git command of a "
        "copy or save the set of loaded objects is compared with what was loaded before.")

# -- the models --------------------------------------------------------------
META = (("e", "1", "{}", 1.0, "n", "m", "1"),)
FILES = tuple((path, META) for path in ("x", "y", "d/a", "d/b", "d/e/f", "d/e/g", "h/i/j/k"))
SMALL = (("x", META), ("d/a", META))


def record(number, files=SMALL):
    return (number, f"d{number}", META, files)


TREE = ("tree", tuple((path, record(i + 1)) for i, path in enumerate(
    ("", "a", "a/b", "a/c", "s/t/u", "v"))))
SMALL_TREE = ("tree", (("", record(1)), ("a", record(2)), ("a/b", record(3))))
RECORDS = (("v1", "", "1", ("mrr", record(1))), ("v1", "p", "2", ("mrr", record(2))),
           ("v2", "", "3", SMALL_TREE), ("v3", "", "4", ("mrr", record(4))))
TREES = tuple((version, "", str(i), SMALL_TREE) for i, version in enumerate(("v1", "v2", "v3")))
SPECS = {
    "FileTree": FILES,
    "MetadataRootRecord": record(1, FILES),
    "DatasetTree": TREE,
    "VersionList": RECORDS,
    "TreeVersionList": TREES,
    "UUIDSet": tuple((number, RECORDS) for number in (1, 2, 3)),
}
# number of objects on the longest way down
FILE_DEPTH = {FILES: 5, SMALL: 3}


def tree_depth(spec):
    return max(2 + path.count("/") + bool(path) + record_depth(rec) for path, rec in spec[1])


def record_depth(spec):
    return 1 + FILE_DEPTH[spec[3]]


def element_depth(spec):
    return tree_depth(spec) if spec[0] == "tree" else record_depth(spec[1])


def versions_depth(spec):
    return 1 + max(element_depth(element) for _, _, _, element in spec)


DEPTH = {
    "FileTree": 5, "MetadataRootRecord": 6, "DatasetTree": tree_depth(TREE),
    "VersionList": versions_depth(RECORDS), "TreeVersionList": versions_depth(TREES),
    "UUIDSet": 1 + versions_depth(RECORDS)}


# -- lookups: (function, most objects that it may load) --------------------------
def look_file(tree, path):
    return tree.get_metadata(MetadataPath(path)), 2 + path.count("/")


def look_record(rec, path):
    """path None: dataset-level metadata"""
    if path is None:
        return rec.get_dataset_level_metadata(), 2
    found, way = look_file(rec.get_file_tree(), path)
    return found, way + 1


def look_tree(tree, dataset, path=""):
    found, way = (tree.get_metadata_root_record(MetadataPath(dataset)),
                  2 + len(MetadataPath(dataset).parts))
    if path != "":
        found, more = look_record(found, path)
        way += more - 1
    return found, way


def look_versions(versions, version, prefix, *rest):
    element = versions.get_versioned_element(version, MetadataPath(prefix))[2]
    if not rest:
        return element, 2
    if element_is_tree(version):
        found, way = look_tree(element, *rest)
    else:
        found, way = look_record(element, *rest)
    return found, way + 1


def element_is_tree(version):
    return version == "v2"


def look_tree_versions(versions, version, *rest):
    tree = versions.get_dataset_tree(version, MetadataPath(""))[2]
    if not rest:
        return tree, 2
    found, way = look_tree(tree, *rest)
    return found, way + 1


def look_uuids(uuids, number, *rest):
    versions = uuids.get_version_list(UUID(int=number))
    if not rest:
        return versions, 2
    found, way = look_versions(versions, *rest)
    return found, way + 1


LOOK = {"FileTree": look_file, "MetadataRootRecord": look_record, "DatasetTree": look_tree,
        "VersionList": look_versions, "TreeVersionList": look_tree_versions,
        "UUIDSet": look_uuids}
TARGETS = {
    "FileTree": [("x",), ("d/a",), ("d/e/f",), ("h/i/j/k",)],
    "MetadataRootRecord": [(None,), ("x",), ("d/e/f",)],
    "DatasetTree": [("",), ("a",), ("a/b", "d/a"), ("s/t/u", None), ("v", "x")],
    "VersionList": [("v1", ""), ("v1", "p", "x"), ("v2", "", "a/b", "d/a"), ("v3", "", None)],
    "TreeVersionList": [("v1",), ("v2", "a"), ("v3", "a/b", "x")],
    "UUIDSet": [(1,), (2, "v1", ""), (2, "v2", "", "a", "d/a"), (3, "v1", "p", None)],
}
# the lookups end at metadata
CHANGES = {
    "FileTree": [("x",), ("d/e/f",)],
    "MetadataRootRecord": [(None,), ("d/a",)],
    "DatasetTree": [("a/b", "d/a"), ("s/t/u", None)],
    "VersionList": [("v1", "p", "x"), ("v2", "", "a/b", "d/a")],
    "TreeVersionList": [("v3", "a/b", "x")],
    "UUIDSet": [(2, "v2", "", "a", "d/a")],
}


# -- loaded objects ------------------------------------------------------------
class Registry:
    """all living objects of the model"""

    def __init__(self):
        self.entries = {}
        self.by_id = {}
        self.number = 0
        original = MappableObject.__init__

        def init(this, *args, **kwargs):
            # the initialisation may be repeated on the same object
            if not any(entry() is this for entry in self.by_id.get(id(this), ())):
                self.number += 1
                number = self.number
                self.entries[number] = weakref.ref(
                    this, lambda _: self.entries.pop(number, None))
                self.by_id[id(this)] = (self.entries[number],)
            original(this, *args, **kwargs)

        MappableObject.__init__ = init

    def clear(self):
        self.entries.clear()
        self.by_id.clear()

    def living(self):
        return sum(1 for entry in list(self.entries.values()) if entry() is not None)

    def loaded(self):
        result = set()
        for number, entry in list(self.entries.items()):
            this = entry()
            if this is not None and this.mapped:
                result.add(number)
        return frozenset(result)

    def names(self, numbers):
        return ", ".join(sorted(
            type(self.entries[n]()).__name__ for n in numbers if n in self.entries))


REGISTRY = None


def registry():
    global REGISTRY
    if REGISTRY is None:
        REGISTRY = Registry()
    return REGISTRY


class Peak(gitmodel.Policy):
    def __init__(self, before, most, what):
        self.before_set = before
        self.most = most
        self.what = what

    def before(self, event):
        check_additional(self.before_set, self.most, self.what)


def check_additional(before, most, what):
    additional = registry().loaded() - before
    if len(additional) > most:
        raise Violation(
            f"{what}: {len(additional)} additional objects are loaded at the same time "
            f"({registry().names(additional)}), the way to the current one has at most {most}",
            f"{what.split('(')[0]} loads too much")


def unchanged(before, what):
    after = registry().loaded()
    if after != before:
        gc.collect()
        after = registry().loaded()
    if after - before:
        raise Violation(
            f"{what}: {registry().names(after - before)} stay loaded that were not loaded before",
            f"{what.split('(')[0]} leaves more loaded")
    if before - after:
        raise Violation(
            f"{what}: {len(before - after)} objects are not loaded any more",
            f"{what.split('(')[0]} leaves less loaded")


class State:
    pass


def listing(obj, intermediate):
    return obj.get_paths_recursive(intermediate)


class Machine:
    def __init__(self, name):
        self.name = name
        self.listable = name in ("FileTree", "DatasetTree")
        if self.listable:
            self.entries = {
                intermediate: self.entry_count(intermediate) for intermediate in (False, True)}

    def entry_count(self, intermediate):
        paths = [path + ("/" if path and self.name == "DatasetTree" else "")
                 + ("r" if self.name == "DatasetTree" else "")
                 for path, _ in (SPECS[self.name] if self.name == "FileTree"
                                 else SPECS[self.name][1])]
        nodes = {""}
        for path in paths:
            parts = path.split("/")[:-1]
            nodes |= {"/".join(parts[:n]) for n in range(1, len(parts) + 1)}
        return len(paths) + (len(nodes) if intermediate else 0)

    def initial(self):
        return [("init", self.name), ("new", self.name)]

    def start(self, op):
        state = State()
        registry()
        state.world = world = W.get_world(("R", "S"))
        memo = world.__dict__.setdefault("c29_memo", {})
        realm = world.realms["R"]
        if op[0] == "init" and self.name not in memo:
            world.reset()
            built = BUILD[self.name](SPECS[self.name])
            memo[self.name] = (built.write_out(realm), world.snapshot())
            del built
        if op[0] == "init":
            reference, snapshot = memo[self.name]
            world.reset(snapshot)
            registry().clear()
            state.object = unloaded(self.name, realm, reference)
        else:
            world.reset()
            registry().clear()
            state.object = BUILD[self.name](SPECS[self.name])
        state.changes = 0
        state.realm = "R"
        # the caller keeps what was found
        state.held = []
        state.failed = False
        return state

    def ops(self, state):
        if state.failed:
            return
        yield from (("look",) + target for target in TARGETS[self.name])
        if state.changes < 2:
            yield from (("change",) + target for target in CHANGES[self.name])
        if self.listable:
            for intermediate in (False, True):
                for stop in (0, 1, 2, 4, None):
                    yield ("list", intermediate, stop)
            yield ("read",)
            for target in TARGETS[self.name]:
                for at in (0, 2, 4):
                    yield ("list-look", at) + target
        if self.name in ("VersionList", "TreeVersionList", "UUIDSet", "DatasetTree"):
            yield ("keys",)
        yield ("copy", "S")
        yield ("copy", "R")
        yield ("save", "R")
        yield ("save", "S")
        yield ("release",)
        if self.name in ("VersionList", "TreeVersionList", "UUIDSet", "FileTree"):
            yield from (("unget",) + target for target in TARGETS[self.name])

    def apply(self, state, op):
        world = state.world
        try:
            getattr(self, "op_" + op[0].replace("-", "_"))(state, *op[1:])
        finally:
            world.git.policy = None

    # -- operations ---------------------------------------------------------
    def lookup(self, state, target):
        before = registry().loaded()
        what = f"lookup({target})"
        found, way = LOOK[self.name](state.object, *target)
        if found is None:
            raise Violation(f"{what}: not found", "not found")
        after = registry().loaded()
        if before - after:
            raise Violation(f"{what} releases objects", "lookup releases")
        check_additional(before, way, what)
        state.held.append(found)
        return found

    def op_look(self, state, *target):
        self.lookup(state, target)

    def op_change(self, state, *target):
        found = self.lookup(state, target)
        state.changes += 1
        found.add_extractor_run(5.0, "e", "n", "m", ExtractorConfiguration("1", {}),
                                f"changed {state.changes}")

    def op_list(self, state, intermediate, stop):
        before = registry().loaded()
        what = f"listing({intermediate}, {stop})"
        entries = listing(state.object, intermediate)
        count = 0
        for entry in entries:
            check_additional(before, DEPTH[self.name], what)
            del entry
            if count == stop:
                break
            count += 1
        if stop is None and count != self.entries[intermediate]:
            raise Violation(f"{what}: {count} entries instead of {self.entries[intermediate]}",
                            "listing is not complete")
        del entries
        unchanged(before, what)

    def op_read(self, state):
        """the consumer reads every entry"""
        before = registry().loaded()
        what = "reading all entries"
        for path, entry in listing(state.object, False):
            entry.ensure_mapped()
        entry = None
        after = registry().loaded()
        # what the consumer loaded in a node that was loaded before stays loaded
        if not before:
            unchanged(before, what)
        for path, entry in listing(state.object, False):
            pass
        entry = None
        unchanged(after, what)
        if before - after:
            raise Violation(f"{what} releases objects", "listing releases")

    def op_list_look(self, state, at, *target):
        before = registry().loaded()
        what = f"listing with a lookup of {target} at entry {at}"
        count = 0
        way = 0
        for entry in listing(state.object, False):
            del entry
            if count == at:
                found, way = LOOK[self.name](state.object, *target)
                del found
            check_additional(before, DEPTH[self.name] + way, what)
            count += 1
        if count != self.entries[False]:
            raise Violation(f"{what}: {count} entries", "listing is not complete")
        after = registry().loaded()
        if before - after:
            raise Violation(f"{what} releases objects", "listing releases")
        check_additional(before, way, what)

    def op_keys(self, state):
        before = registry().loaded()
        if self.name == "UUIDSet":
            count, wanted = len(list(state.object.uuids())), 3
        elif self.name == "DatasetTree":
            count, wanted = len(state.object.dataset_paths), len(TREE[1])
            unchanged(before, "dataset_paths")
        else:
            wanted = len(SPECS[self.name])
            count = len(list(state.object.versions_and_prefix_paths()))
            for other in (len(list(state.object.versions())), len(state.object),
                          len(list(state.object.versioned_elements))):
                if count != other:
                    raise Violation(f"{count} and {other} versions", "number of versions")
        if count != wanted:
            raise Violation(f"{count} keys instead of {wanted}", "number of keys")
        check_additional(before, 1, "keys")

    def watch(self, state, most, what):
        before = registry().loaded()
        state.world.git.policy = Peak(before, most, what)
        return before

    def op_copy(self, state, destination):
        what = f"copy({destination})"
        before = self.watch(state, 2 * DEPTH[self.name], what)
        living = registry().living()
        copied = state.object.deepcopy(new_destination=state.world.realms[destination])
        unchanged(before, what)
        more = registry().living() - living
        if more > 1:
            gc.collect()
            more = registry().living() - living
        if more > 1:
            raise Violation(f"{what}: {more} objects more than before, for the copy one is needed",
                            "copy leaves objects")
        del copied

    def op_save(self, state, destination):
        what = f"save({destination})"
        before = self.watch(state, 0, what)
        try:
            state.object.write_out(state.world.realms[destination])
            state.realm = destination
        except RuntimeError:
            # parts that are not loaded are only available where they are stored
            if destination == state.realm:
                raise
            state.failed = True
        unchanged(before, what)

    def op_release(self, state):
        try:
            state.object.purge()
        except ValueError:
            # there are unsaved changes
            return
        self.all_released(state)

    def all_released(self, state):
        loaded, living = registry().loaded(), registry().living()
        if loaded or living > 1:
            gc.collect()
            loaded, living = registry().loaded(), registry().living()
        if loaded:
            raise Violation(f"{registry().names(loaded)} are still loaded after a release",
                            "release leaves objects loaded")
        if state.held:
            state.held.clear()
            living = registry().living()
        if living > 1:
            raise Violation(f"{living - 1} objects below a released object are kept",
                            "release keeps objects")

    def op_unget(self, state, *target):
        """look up the first level and below, then give the first level back"""
        if self.name == "FileTree":
            found = self.lookup(state, target)
            state.object.unget_metadata(found, state.world.realms[state.realm])
            if found.mapped:
                raise Violation("metadata that was given back is loaded", "unget keeps")
            return
        found = self.lookup(state, target[:2] if self.name == "VersionList" else target[:1])
        del found
        others = self.first_level(state, target)
        self.lookup(state, target)
        if self.name == "UUIDSet":
            # lists know their own realm, if they were stored before
            if state.object.reference is None:
                return
            state.object.unget_version_list(UUID(int=target[0]))
        elif self.name == "VersionList":
            state.object.unget_versioned_element(
                target[0], MetadataPath(target[1]), state.world.realms[state.realm])
        else:
            state.object.unget_dataset_tree(
                target[0], MetadataPath(""), state.world.realms[state.realm])
        after = registry().loaded()
        if after != others:
            gc.collect()
            after = registry().loaded()
        if after != others:
            raise Violation(
                f"giving back {target}: additionally loaded {registry().names(after - others)}, "
                f"missing {len(others - after)}", "unget")

    def first_level(self, state, target):
        """what is loaded without the element of the first level"""
        if self.name == "UUIDSet":
            element = state.object.get_version_list(UUID(int=target[0]))
        else:
            prefix = target[1] if self.name == "VersionList" else ""
            element = state.object.get_versioned_element(target[0], MetadataPath(prefix))[2]
        below = set()

        def walk(this):
            this = getattr(this, "mtree", this)
            below.update(number for number, entry in registry().entries.items()
                         if entry() is this)
            for child in this.modifiable_sub_objects:
                walk(child)

        walk(element)
        return frozenset(registry().loaded() - below)

    def digest(self, state):
        return state.world.canon(state.object, state.changes, state.realm, state.failed)

    def check(self, state, history):
        """everything can be released, and nothing remains"""
        if state.failed:
            return
        state.object.write_out(state.world.realms[state.realm])
        state.object.purge()
        self.all_released(state)


MACHINES = {name: Machine(name) for name in SPECS}
DEPTHS = {"FileTree": (3, 4), "MetadataRootRecord": (3, 5), "DatasetTree": (3, 4),
          "VersionList": (3, 4), "TreeVersionList": (3, 4), "UUIDSet": (3, 4)}


def run(ctx):
    for name, machine in MACHINES.items():
        search = Search(ctx, machine, depth=DEPTHS[name][0 if ctx.quick else 1])
        search.run()
        for history in search.selection(5 if ctx.quick else 20):
            state = machine.start(history[0])
            with Trace(state.world) as trace:
                for op in history[1:]:
                    machine.apply(state, op)
                machine.check(state, history)
            validate_trace(ctx, trace)
    ctx.assume("an object is in memory as long as its attribute mapped is true")
    ctx.assume("elements that get_versioned_elements returned stay loaded, as documented")


def replay(case):
    machine = MACHINES[case[0][1]]
    state = Search(None, machine, 0).replay(case)
    machine.check(state, case)
