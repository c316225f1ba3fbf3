"""C26: listings can be consumed step by step while the model is used"""
from ..content import (
    DatasetTree, ExtractorConfiguration, FileTree, Metadata, MetadataPath, MetadataRootRecord,
    MTreeNode, UUID, UUIDSet, VersionList, TreeVersionList, diff, read_metadata,
)
from ..conformance import Trace, validate_trace
from ..framework import Search, Violation
from .. import world as W
from ..shapes import READ, unloaded

TECHNIQUE = "explicit-state model checking of the real code: interleavings of listings"
NOTE = ("All interleavings up to the stated depth of the steps of up to two listings of one object "
        "(every kind of listing of file trees, dataset trees, version lists, UUID sets and "
        "metadata) with lookups, modifications of objects that were looked up, additions, "
        "saves, releases and abandoned listings, from objects that are loaded, partly loaded or "
        "not loaded; every complete listing and the saved content are compared with a reference "
        "model.")

P = MetadataPath
NO = ExtractorConfiguration("1", {})


def record_run(metadata, number):
    metadata.add_extractor_run(5.0, "e", "n", "m", NO, number)


def runs(number):
    return {"e": {("1", "{}"): (5.0, "n", "m", str(number))}}


def new_metadata(number=0):
    metadata = Metadata()
    record_run(metadata, number)
    return metadata


class State:
    pass


class Listing:
    def __init__(self, kind, iterator, present, alone):
        self.kind = kind
        self.iterator = iterator
        self.present = present      # what has to be delivered
        self.allowed = set(present)
        self.delivered = []
        self.since = []             # other operations since the listing was opened
        self.alone = alone


class Machine:
    """model: {key: number}"""
    name = None
    listings = ()
    keys = ()
    looked = ()
    added = ()
    release_parts = False

    def __init__(self, most=2, listings=None, looked=None, kinds=None):
        self.most = most
        if listings is not None:
            self.listings = listings
        if looked is not None:
            self.looked = looked
        self.kinds = kinds

    # -- of the classes ---------------------------------------------------
    def build(self):
        """a new object with number 0 everywhere"""

    def open(self, thing, kind):
        """iterator over (key, element or None)"""

    def look(self, thing, key):
        """the object to modify"""

    def change(self, found, number):
        record_run(found, number)

    def document(self, model):
        """content of the stored object"""

    def number(self, element):
        """content of a delivered element"""

    # -- search -----------------------------------------------------------
    def initial(self):
        return [("init", how) for how in ("unloaded", "root", "all", "one")]

    def start(self, op):
        state = State()
        state.world = W.get_world()
        state.world.reset()
        realm = state.world.realms["R"]
        thing = self.build()
        reference = thing.write_out(realm)
        state.world.new_session()
        state.thing = unloaded(self.name, realm, reference)
        if op[1] in ("root", "all"):
            state.thing.ensure_mapped()
        if op[1] == "all":
            READ[self.name](state.thing)
        if op[1] == "one":
            self.look(state.thing, self.looked[0])
        state.model = {k: 0 for k in self.keys}
        state.held = {}
        state.open = []
        state.counter = 0
        state.extra = []
        return state

    def ops(self, state):
        result = []
        for i, listing in enumerate(state.open):
            result += [("step", i), ("drop", i)]
        if len(state.open) < self.most:
            result += [("open", kind) for kind in self.listings]
        result += [("look", key) for key in self.looked if key not in state.held]
        result += [("change", key) for key in state.held]
        result += [("add", key) for key in self.added if key not in state.model]
        result += [("save",), ("release",)]
        if self.release_parts:
            result += [("unget", key) for key in self.looked]
        if self.kinds:
            result = [op for op in result if op[0] in self.kinds]
        return result

    def apply(self, state, op):
        realm = state.world.realms["R"]
        kind = op[0]
        if kind not in ("step", "open", "drop"):
            for listing in state.open:
                listing.since.append(op)
        if kind == "open":
            for listing in state.open:
                listing.alone = False
            state.open.append(Listing(op[1], self.open(state.thing, op[1]), list(state.model),
                                      not state.open))
        elif kind == "step":
            if not self.step(state, state.open[op[1]]):
                del state.open[op[1]]
        elif kind == "drop":
            state.open[op[1]].iterator.close()
            del state.open[op[1]]
        elif kind == "look":
            state.held[op[1]] = self.look(state.thing, op[1])
        elif kind == "change":
            state.counter += 1
            self.change(state.held[op[1]], state.counter)
            state.model[op[1]] = state.counter
        elif kind == "add":
            self.add(state.thing, op[1])
            state.model[op[1]] = 0
            for listing in state.open:
                listing.allowed.add(op[1])
        elif kind == "save":
            state.thing.write_out(realm)
        elif kind == "release":
            try:
                state.thing.purge()
            except ValueError:
                return
            state.held = {}
            for listing in state.open:
                listing.alone = False
        elif kind == "unget":
            self.unget(state.thing, op[1], realm)
            state.held.pop(op[1], None)
            for listing in state.open:
                listing.alone = False

    def step(self, state, listing):
        try:
            key, element = next(listing.iterator)
        except StopIteration:
            missing = [k for k in listing.present if k not in listing.delivered]
            if missing:
                raise Violation(f"the listing {listing.kind!r} ended without {missing}, it "
                                f"delivered {listing.delivered}", "listing incomplete")
            return False
        if key in listing.delivered:
            raise Violation(f"the listing {listing.kind!r} delivers {key!r} twice",
                            "listed twice")
        if key not in listing.allowed:
            raise Violation(f"the listing {listing.kind!r} delivers {key!r}, which does not "
                            f"exist", "listed wrongly")
        listing.delivered.append(key)
        if element is not None and listing.alone:
            got = self.number(element)
            if got != state.model[key]:
                raise Violation(f"the listing {listing.kind!r} delivers content {got} at "
                                f"{key!r} instead of {state.model[key]}", "listed content")
        return True

    def digest(self, state):
        # progress of a listing depends on its history
        listings = [(listing.kind, listing.delivered, listing.since, listing.alone)
                    for listing in state.open]
        return state.world.canon(state.thing, state.model, state.held, listings)

    def check(self, state, history):
        while state.open:
            if not self.step(state, state.open[-1]):
                state.open.pop()
        # objects that were looked up still belong to the model
        for key in list(state.held):
            self.apply(state, ("change", key))
        for kind in self.listings:
            self.apply(state, ("open", kind))
            while self.step(state, state.open[0]):
                pass
            state.open.pop()
        realm = state.world.realms["R"]
        reference = state.thing.write_out(realm)
        state.world.new_session()
        got = READ[self.name](unloaded(self.name, realm, reference))
        expected = self.document(state.model)
        if got != expected:
            raise Violation(f"the saved content differs: {diff(expected, got)}",
                            "modification lost during a listing")


class Files(Machine):
    name = "FileTree"
    listings = ("paths", "content", "nodes")
    keys = ("a/x", "a/y", "b", "c/d/z")
    looked = ("a/x", "a/y", "c/d/z")
    added = ("a/n", "c/e/n")

    def build(self):
        tree = FileTree()
        for key in self.keys:
            tree.add_metadata(P(key), new_metadata())
        return tree

    def open(self, thing, kind):
        if kind == "nodes":
            return ((str(path), None) for path, node in thing.get_paths_recursive(True)
                    if not isinstance(node, MTreeNode))
        return ((str(path), node if kind == "content" else None)
                for path, node in thing.get_paths_recursive())

    def look(self, thing, key):
        return thing.get_metadata(P(key))

    def add(self, thing, key):
        thing.add_metadata(P(key), new_metadata())

    def number(self, element):
        content = read_metadata(element)
        return int(content["e"]["1", "{}"][3])

    def document(self, model):
        return {key: runs(number) for key, number in model.items()}


def new_record(number=0):
    return MetadataRootRecord(UUID(int=7), "v", new_metadata(number), None)


class Datasets(Files):
    name = "DatasetTree"
    keys = ("", "s", "s/t", "u")
    looked = ("", "s/t", "u")
    added = ("s/n",)

    def build(self):
        tree = DatasetTree()
        for key in self.keys:
            tree.add_dataset(P(key), new_record())
        return tree

    def open(self, thing, kind):
        def items():
            for path, node in thing.get_paths_recursive(kind == "nodes"):
                if not isinstance(node, MTreeNode):
                    yield "/".join(path.parts[:-1]), node if kind == "content" else None
        return items()

    def look(self, thing, key):
        return thing.get_metadata_root_record(P(key)).get_dataset_level_metadata()

    def add(self, thing, key):
        thing.add_dataset(P(key), new_record())

    def number(self, element):
        element.ensure_mapped()
        return super().number(element.get_dataset_level_metadata())

    def document(self, model):
        return {key: self.record(number) for key, number in model.items()}

    @staticmethod
    def record(number):
        return {"id": str(UUID(int=7)), "version": "v", "dlm": runs(number), "files": {}}


class Versions(Machine):
    name = "VersionList"
    listings = ("versions", "prefixes", "elements", "elements of v1")
    keys = (("v1", ""), ("v1", "p"), ("v2", ""))
    looked = keys
    release_parts = True

    def build(self):
        result = VersionList()
        for version, prefix in self.keys:
            result.set_versioned_element(version, "1", P(prefix), new_record())
        return result

    def open(self, thing, kind):
        def items():
            if kind == "versions":
                # one item per element
                seen = {}
                for version in thing.versions():
                    number = seen[version] = seen.get(version, -1) + 1
                    keys = [k for k in self.keys if k[0] == version]
                    yield (version, number) if number >= len(keys) else keys[number], None
            elif kind == "prefixes":
                for version, prefix in thing.versions_and_prefix_paths():
                    yield (version, str(prefix)), None
            elif kind == "elements":
                for version, (stamp, prefix, element) in thing.versioned_elements:
                    yield (version, str(prefix)), element
            else:
                for stamp, prefix, element in thing.get_versioned_elements("v1"):
                    yield ("v1", str(prefix)), element
        return items()

    def apply(self, state, op):
        super().apply(state, op)
        if op == ("open", "elements of v1"):
            state.open[-1].present = [k for k in state.model if k[0] == "v1"]

    def look(self, thing, key):
        return thing.get_versioned_element(key[0], P(key[1]))[2].get_dataset_level_metadata()

    def unget(self, thing, key, realm):
        thing.unget_versioned_element(key[0], P(key[1]), realm)

    def number(self, element):
        element.ensure_mapped()
        return Files.number(self, element.get_dataset_level_metadata())

    def document(self, model):
        return {key: ("1", ("mrr", Datasets.record(number))) for key, number in model.items()}


class Trees(Versions):
    name = "TreeVersionList"

    def build(self):
        result = TreeVersionList()
        for version, prefix in self.keys:
            tree = DatasetTree()
            tree.add_dataset(P("s"), new_record())
            result.set_dataset_tree(version, "1", P(prefix), tree)
        return result

    def look(self, thing, key):
        tree = thing.get_dataset_tree(key[0], P(key[1]))[2]
        return tree.get_metadata_root_record(P("s")).get_dataset_level_metadata()

    def unget(self, thing, key, realm):
        thing.unget_dataset_tree(key[0], P(key[1]), realm)

    def number(self, element):
        return super().number(element.get_metadata_root_record(P("s")))

    def document(self, model):
        return {key: ("1", ("tree", {"s": Datasets.record(number)}))
                for key, number in model.items()}


class Identifiers(Machine):
    name = "UUIDSet"
    listings = ("identifiers",)
    keys = (1, 2, 3)
    looked = keys
    release_parts = True

    def build(self):
        result = UUIDSet()
        for key in self.keys:
            versions = VersionList()
            versions.set_versioned_element("v", "0", P(""), new_record())
            result.set_version_list(UUID(int=key), versions)
        return result

    def open(self, thing, kind):
        return ((key.int, None) for key in thing.uuids())

    def look(self, thing, key):
        return thing.get_version_list(UUID(int=key))

    def change(self, found, number):
        stamp, prefix, element = found.get_versioned_element("v", P(""))
        found.set_versioned_element("v", str(number), prefix, element)

    def unget(self, thing, key, realm):
        if thing.get_version_list(UUID(int=key)).realm is not None:
            thing.unget_version_list(UUID(int=key))

    def document(self, model):
        return {str(UUID(int=key)): {("v", ""): (str(number), ("mrr", Datasets.record(0)))}
                for key, number in model.items()}


class Runs(Machine):
    name = "Metadata"
    listings = ("extractors", "runs", "instances")
    keys = ("e", "f", "g")
    looked = ("e", "g")

    def build(self):
        metadata = Metadata()
        for key in self.keys:
            self.record(metadata, key, 0)
        return metadata

    @staticmethod
    def record(metadata, key, number):
        for version in ("1", "2"):
            metadata.add_extractor_run(5.0, key, "n", "m", ExtractorConfiguration(version, {}),
                                       number)

    def open(self, thing, kind):
        def items():
            if kind == "extractors":
                for key in thing.extractors:
                    yield key, None
            elif kind == "runs":
                for key, instance_set in thing.extractor_runs:
                    yield key, instance_set
            else:
                # one item per configuration, an extractor is listed with the last one
                for key in self.keys:
                    count = 0
                    for instance in thing.extractor_runs_for_extractor(key):
                        count += 1
                        if count == 2:
                            yield key, None
        return items()

    def look(self, thing, key):
        return thing, key

    def change(self, found, number):
        self.record(*found, number)

    def number(self, element):
        numbers = {instance.metadata_content for instance in element}
        return numbers.pop() if len(numbers) == 1 else sorted(numbers)

    def document(self, model):
        return {key: {(version, "{}"): (5.0, "n", "m", str(number)) for version in ("1", "2")}
                for key, number in model.items()}


CORE = ("open", "step", "look", "change", "save", "drop")


def machines(quick):
    yield "files", Files(), 4 if quick else 6
    yield "files core", Files(1, ("paths",), ("a/x", "c/d/z"), CORE), 7 if quick else 10
    yield "files two", Files(2, ("paths",), ("a/y",), ("open", "step", "look", "change", "save")), \
        8 if quick else 12
    yield "datasets", Datasets(), 4 if quick else 5
    yield "datasets core", Datasets(1, ("paths",), ("s/t",), CORE + ("release",)), \
        7 if quick else 10
    yield "versions", Versions(), 3 if quick else 5
    yield "trees", Trees(), 3 if quick else 5
    yield "versions core", Versions(1, ("elements of v1",), (("v1", ""), ("v2", "")), CORE), \
        5 if quick else 8
    yield "trees core", Trees(1, ("elements", "elements of v1"), (("v1", ""), ("v2", "")),
                              CORE + ("unget",)), 4 if quick else 7
    yield "identifiers", Identifiers(), 4 if quick else 7
    yield "runs", Runs(), 5 if quick else 7


def run(ctx):
    for name, machine, depth in machines(ctx.quick):
        search = Search(ctx, machine, depth=depth)
        search.run()
        for history in search.selection(2 if ctx.quick else 10):
            world = W.get_world()
            state = machine.start(history[0])
            with Trace(world) as trace:
                for op in history[1:]:
                    machine.apply(state, op)
                machine.check(state, history)
            validate_trace(ctx, trace)
    ctx.assume("objects that a listing delivers from a part that was not loaded are not modified "
               "(they are looked up for that); removals during a listing are not judged")


def replay(case):
    error = None
    for name, machine, depth in machines(True):
        try:
            state = Search(None, machine, 0).replay(case)
            machine.check(state, case)
        except Violation:
            raise
        except (ValueError, AttributeError, KeyError, TypeError) as e:
            error = e
    if error:
        raise error
