"""C28: version lists, UUID sets and root records behave like maps"""
from ..content import *     # noqa: F401,F403
from ..content import (
    DatasetTree, ExtractorConfiguration, FileTree, Metadata, MetadataPath, MetadataRootRecord,
    TreeVersionList, UUID, UUIDSet, VersionList, read_element, read_file_tree, read_metadata,
    read_version_list,
)
from ..conformance import Trace, validate_trace
from ..framework import Search, Violation
from .. import world as W
from ..shapes import unloaded

TECHNIQUE = "explicit-state model checking of the real code against a map"
NOTE = ("All operation sequences up to the stated depth on one version list of records, one of "
        "dataset trees, one UUID set and one root record over few keys, including elements that "
        "are set at several keys, saving, releasing and reloading; after each operation all "
        "lookups, listings and counts are compared with a map.")

MISSING = (LookupError, ValueError, AttributeError, RuntimeError, AssertionError)
VERSIONS = ("v1", "v2")
PREFIXES = ("", "p/q")
KEYS = tuple((v, p) for v in VERSIONS for p in PREFIXES)
ABSENT = (("v3", ""), ("v1", "p"))
STAMPS = ("0", "1.5", "", "later")


class State:
    pass


def attempt(function):
    """(value, None) or (None, error)"""
    try:
        return function(), None
    except MISSING as error:
        return None, error


def again(machine, history):
    state = machine.start(history[0])
    for op in history[1:]:
        machine.apply(state, op)
    return state


def expect(value, wanted, what, key):
    if value != wanted:
        raise Violation(f"{what}: {value!r} instead of {wanted!r}", key)


class Element:
    """what one stored element has to contain"""

    def __init__(self, number, runs=0):
        self.number = number
        self.runs = runs

    def copy(self):
        return Element(self.number, self.runs)

    def __repr__(self):
        return f"Element({self.number}, {self.runs})"


def build_record(number):
    return MetadataRootRecord(UUID(int=number), f"d{number}", None, None)


def record_document(element):
    runs = {}
    if element.runs:
        runs = {"e": {("1", "{}"): (5.0, "n", "m", str(element.runs))}}
    return {"id": str(UUID(int=element.number)), "version": f"d{element.number}",
            "dlm": runs, "files": {}}


def change_record(record, element):
    element.runs = element.runs % 2 + 1
    metadata = record.get_dataset_level_metadata()
    if metadata is None:
        metadata = Metadata()
        record.set_dataset_level_metadata(metadata)
    metadata.add_extractor_run(5.0, "e", "n", "m", ExtractorConfiguration("1", {}), element.runs)


class Machine:
    """common parts; state.map is the reference"""

    def initial(self):
        return [("init", self.name), ("stored", self.name)]

    def start(self, op):
        state = State()
        state.world = W.get_world()
        state.world.reset()
        state.number = 0
        state.object = self.empty()
        state.map = {}
        self.prepare(state)
        if op[0] == "stored":
            for step in self.PREPARATION:
                self.apply(state, step)
        return state

    def prepare(self, state):
        pass

    def separate(self, state):
        """objects that were read again are different objects"""

    def storage(self, state, kind):
        realm = state.world.realms["R"]
        if kind == "save":
            state.object.write_out(realm)
        elif kind == "release":
            _, error = attempt(lambda: state.object.purge())
            if error is None:
                self.separate(state)
        elif kind == "reload":
            state.object.write_out(realm)
            reference = state.object.reference
            state.world.new_session()
            state.object = unloaded(self.cls, realm, reference)
            self.separate(state)

    def digest(self, state):
        return state.world.canon(state.object, state.map)

    def check(self, state, history):
        # read what is there, comparisons load elements, they are not part of the history
        self.compare(state)
        # save without reading anything before
        state = again(self, history)
        realm = state.world.realms["R"]
        state.object.write_out(realm)
        reference = state.object.reference
        self.compare(state)
        state.world.new_session()
        state.object = unloaded(self.cls, realm, reference)
        self.separate(state)
        self.compare(state)


class VersionMachine(Machine):
    """map: {(version, prefix): (stamp, Element)}; elements may be set at several keys"""
    PREPARATION = (("set", 0), ("set", 1), ("modify", 1), ("set", 2), ("reload",))
    TREE = False

    def __init__(self, cls, keys=KEYS):
        self.cls = cls
        self.name = cls
        self.keys = keys
        self.tree = cls == "TreeVersionList"

    def empty(self):
        return (TreeVersionList if self.tree else VersionList)()

    def ops(self, state):
        numbers = range(len(self.keys))
        result = [(kind, i) for kind in ("set", "get", "unget", "modify", "share", "restamp")
                  for i in numbers]
        result += [("all", v) for v in VERSIONS] + [("list",)]
        result += [("save",), ("release",), ("reload",)]
        return result

    # the methods of tree version lists differ in name
    def lookup(self, state, version, prefix):
        name = "get_dataset_tree" if self.tree else "get_versioned_element"
        return getattr(state.object, name)(version, MetadataPath(prefix))

    def lookup_all(self, state, version):
        name = "get_dataset_trees" if self.tree else "get_versioned_elements"
        return list(getattr(state.object, name)(version))

    def put(self, state, key, stamp, element):
        name = "set_dataset_tree" if self.tree else "set_versioned_element"
        getattr(state.object, name)(key[0], stamp, MetadataPath(key[1]), element)

    def document(self, element):
        record = record_document(element)
        return ("tree", {"s/d": record}) if self.tree else ("mrr", record)

    def build(self, number):
        record = build_record(number)
        if not self.tree:
            return record
        tree = DatasetTree()
        tree.add_dataset(MetadataPath("s/d"), record)
        return tree

    def content(self, state):
        return {key: (stamp, self.document(element))
                for key, (stamp, element) in state.map.items()}

    def separate(self, state):
        state.map = {key: (stamp, element.copy())
                     for key, (stamp, element) in state.map.items()}

    def missing(self, state, key):
        value, error = attempt(lambda: self.lookup(state, *key))
        if error is None and value is not None:
            raise Violation(f"lookup of {key} in {sorted(state.map)} returns an element",
                            "lookup of a missing version")

    def found(self, state, key, value):
        stamp, element = state.map[key]
        expect((value[0], str(value[1])), (stamp, key[1]), f"lookup of {key}",
               "time stamp or prefix path")
        expect(read_element(value[2]), self.document(element), f"lookup of {key}",
               "looked up element")

    def apply(self, state, op):
        kind = op[0]
        key = self.keys[op[1]] if isinstance(op[-1], int) else None
        if kind == "set":
            number = 1 + max([e.number for _, e in state.map.values()] or [0])
            stamp = STAMPS[number % len(STAMPS)]
            self.put(state, key, stamp, self.build(number))
            state.map[key] = (stamp, Element(number))
        elif kind == "share":
            # the element of the first other key
            others = sorted(k for k in state.map if k != key)
            if others:
                stamp, _, element = self.lookup(state, *others[0])
                self.put(state, key, stamp + "0", element)
                state.map[key] = (stamp + "0", state.map[others[0]][1])
        elif kind == "restamp":
            # the same element with a new time stamp
            if key in state.map:
                stamp, _, element = self.lookup(state, *key)
                stamp = "new" if stamp != "new" else "newer"
                self.put(state, key, stamp, element)
                state.map[key] = (stamp, state.map[key][1])
        elif kind in ("get", "modify"):
            if key not in state.map:
                return self.missing(state, key)
            value = self.lookup(state, *key)
            if kind == "modify":
                record = value[2]
                if self.tree:
                    record = record.get_metadata_root_record(MetadataPath("s/d"))
                change_record(record, state.map[key][1])
            self.found(state, key, value)
        elif kind == "unget":
            realm = state.world.realms["R"]
            if self.tree:
                call = lambda: state.object.unget_dataset_tree(     # noqa: E731
                    key[0], MetadataPath(key[1]), realm)
            else:
                call = lambda: state.object.unget_versioned_element(    # noqa: E731
                    key[0], MetadataPath(key[1]), realm)
            if key in state.map:
                call()
            elif attempt(call)[1] is None:
                raise Violation(f"release of the missing element {key} is not refused",
                                "release of a missing element")
        elif kind == "all":
            self.compare_version(state, op[1])
        elif kind == "list":
            self.compare_listings(state)
        else:
            self.storage(state, kind)

    def lenient(self):
        """a new version list delivers an empty result for a missing version"""
        empty = State()
        empty.object = self.empty()
        return attempt(lambda: self.lookup_all(empty, "v0"))[1] is None

    def compare_version(self, state, version):
        keys = sorted(k for k in state.map if k[0] == version)
        values, error = attempt(lambda: self.lookup_all(state, version))
        if not keys:
            # an error or an empty result, but always the same
            if error is None and values or (error is None) != self.lenient():
                raise Violation(f"request for elements of the missing version {version}: "
                                f"{values or error!r}", "elements of a missing version")
            return
        if error is not None:
            raise error
        listed = sorted((str(value[1]), value) for value in values)
        expect([(version, prefix) for prefix, _ in listed], keys,
               f"elements of {version}", "elements of a version")
        for prefix, value in listed:
            self.found(state, (version, prefix), value)

    def compare_listings(self, state):
        keys = sorted(state.map)
        expect(sorted(state.object.versions()), [k[0] for k in keys], "versions", "versions")
        expect(sorted((v, str(p)) for v, p in state.object.versions_and_prefix_paths()), keys,
               "versions and prefix paths", "versions and prefix paths")
        expect(len(state.object), len(keys), "count", "count")
        listed = {}
        for version, (stamp, prefix, element) in state.object.versioned_elements:
            key = (version, str(prefix))
            if key in listed:
                raise Violation(f"{key} is listed twice", "listed twice")
            listed[key] = (stamp, read_element(element))
        expect(listed, self.content(state), "all elements", "all elements")

    def compare(self, state):
        self.compare_listings(state)
        for version in VERSIONS + ("v3",):
            self.compare_version(state, version)
        for key in self.keys + ABSENT:
            if key in state.map:
                self.found(state, key, self.lookup(state, *key))
            else:
                self.missing(state, key)
        self.compare_listings(state)


class SetMachine(Machine):
    """map: {number: {"v1": runs, ...}}"""
    name = cls = "UUIDSet"
    IDENTIFIERS = (0, 5, 2 ** 128 - 1)
    PREPARATION = (("set", 5), ("set", 0), ("reload",))

    def empty(self):
        return UUIDSet()

    def ops(self, state):
        result = [(kind, i) for kind in ("set", "get", "unget", "add", "modify")
                  for i in self.IDENTIFIERS]
        result += [("list",), ("save",), ("release",), ("reload",)]
        return result

    def document(self, versions):
        return {(v, ""): ("1", ("mrr", record_document(element)))
                for v, element in versions.items()}

    def lookup(self, state, number):
        return state.object.get_version_list(UUID(int=number))

    def apply(self, state, op):
        kind = op[0]
        if kind == "list":
            return self.compare_listing(state)
        if len(op) == 1:
            return self.storage(state, kind)
        number = op[1]
        if kind == "set":
            fresh = 1 + max([e.number for vs in state.map.values() for e in vs.values()] or [0])
            versions = VersionList()
            versions.set_versioned_element("v1", "1", MetadataPath(""), build_record(fresh))
            state.object.set_version_list(UUID(int=number), versions)
            state.map[number] = {"v1": Element(fresh)}
        elif number not in state.map:
            self.missing(state, number, kind)
        elif kind == "unget":
            # refused, if there is no realm to which the list can be saved
            attempt(lambda: state.object.unget_version_list(UUID(int=number)))
        else:
            versions = self.lookup(state, number)
            if kind == "add":
                name = "v2"
                fresh = 1 + max(e.number for vs in state.map.values() for e in vs.values())
                versions.set_versioned_element(name, "1", MetadataPath(""), build_record(fresh))
                state.map[number] = dict(state.map[number], v2=Element(fresh))
            elif kind == "modify":
                record = versions.get_versioned_element("v1", MetadataPath(""))[2]
                change_record(record, state.map[number]["v1"])
            else:
                expect(read_version_list(versions), self.document(state.map[number]),
                       f"version list of {number}", "looked up version list")

    def missing(self, state, number, kind="get"):
        method = state.object.unget_version_list if kind == "unget" \
            else state.object.get_version_list
        value, error = attempt(lambda: method(UUID(int=number)))
        if error is None and (kind == "unget" or value is not None):
            raise Violation(f"{kind} of the missing identifier {number} is not refused",
                            "missing identifier")

    def compare_listing(self, state):
        expect(sorted(u.int for u in state.object.uuids()), sorted(state.map), "identifiers",
               "identifiers")

    def compare(self, state):
        self.compare_listing(state)
        for number in self.IDENTIFIERS + (7,):
            if number in state.map:
                expect(read_version_list(self.lookup(state, number)),
                       self.document(state.map[number]), f"version list of {number}",
                       "looked up version list")
            else:
                self.missing(state, number)
        self.compare_listing(state)


class RecordMachine(Machine):
    """map: {"dlm": None or number, "files": None or {path: number}}"""
    name = cls = "MetadataRootRecord"
    PREPARATION = (("set", "dlm"), ("set", "files"), ("reload",))

    def empty(self):
        return build_record(9)

    def prepare(self, state):
        state.map = {"dlm": None, "files": None}

    def ops(self, state):
        return [(kind, what) for kind in ("set", "none", "empty", "get", "modify", "release")
                for what in ("dlm", "files")] + [
            ("identifier",), ("save",), ("release",), ("reload",)]

    @staticmethod
    def run(number):
        return {"e": {("1", "{}"): (5.0, "n", "m", str(number))}}

    def part(self, state, what):
        return state.object.get_dataset_level_metadata() if what == "dlm" \
            else state.object.file_tree

    def put(self, state, what, value):
        if what == "dlm":
            state.object.set_dataset_level_metadata(value)
        else:
            state.object.file_tree = value

    def apply(self, state, op):
        kind = op[0]
        if kind == "identifier":
            return self.compare_identifiers(state)
        if len(op) == 1:
            return self.storage(state, kind)
        what = op[1]
        if kind == "none":
            self.put(state, what, None)
            state.map[what] = None
        elif kind in ("set", "empty"):
            value = Metadata() if what == "dlm" else FileTree()
            state.map[what] = {}
            if kind == "set":
                self.change(state, what, value)
            self.put(state, what, value)
        elif kind == "get":
            self.compare_part(state, what)
        elif kind == "modify":
            value = self.part(state, what)
            if value is not None:
                self.change(state, what, value)
        elif kind == "release":
            value = self.part(state, what)
            if value is not None:
                attempt(lambda: value.purge())

    def change(self, state, what, value):
        number = 2 if state.map[what] in (self.run(1), {"a/b": self.run(1)}) else 1
        arguments = (5.0, "e", "n", "m", ExtractorConfiguration("1", {}), number)
        if what == "dlm":
            value.add_extractor_run(*arguments)
            state.map[what] = self.run(number)
        else:
            value.add_extractor_run(MetadataPath("a/b"), *arguments)
            state.map[what] = {"a/b": self.run(number)}

    def compare_identifiers(self, state):
        state.object.ensure_mapped()
        expect((state.object.dataset_identifier, state.object.dataset_version),
               (UUID(int=9), "d9"), "identifiers of the record", "record identifiers")

    def compare_part(self, state, what):
        value = self.part(state, what)
        wanted = state.map[what]
        if wanted and value is None:
            raise Violation(f"{what} of the record is lost", "part lost")
        if value is not None:
            read = read_metadata if what == "dlm" else read_file_tree
            expect(read(value), wanted or {}, f"{what} of the record", "part of a record")

    def compare(self, state):
        self.compare_identifiers(state)
        self.compare_part(state, "dlm")
        self.compare_part(state, "files")


MACHINES = {m.name: m for m in (
    VersionMachine("VersionList"), VersionMachine("TreeVersionList"), SetMachine(),
    RecordMachine())}
DEPTHS = {"VersionList": (4, 6), "TreeVersionList": (3, 5), "UUIDSet": (4, 6),
          "MetadataRootRecord": (5, 8)}


def run(ctx):
    for name, machine in MACHINES.items():
        search = Search(ctx, machine, depth=DEPTHS[name][0 if ctx.quick else 1])
        search.run()
        for history in search.selection(5 if ctx.quick else 20):
            state = machine.start(history[0])
            with Trace(state.world) as trace:
                for op in history[1:]:
                    machine.apply(state, op)
                machine.check(state, history)
            validate_trace(ctx, trace)
    ctx.assume("a lookup of a missing key raises an error or returns nothing")
    ctx.assume("an absent and an empty part of a record are not distinguished")


def replay(case):
    machine = MACHINES[case[0][1]]
    state = Search(None, machine, 0).replay(case)
    machine.check(state, case)
