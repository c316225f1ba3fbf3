"""C04: loading state is invisible to readers"""
import json

from ..content import *     # noqa: F401,F403
from ..content import (
    MetadataPath, TreeVersionList, UUIDSet, Metadata, MetadataRootRecord, DatasetTree,
    FileTree, UUID, load, diff, read_metadata, read_file_tree, read_mrr, read_tree,
    read_version_list, read_uuid_set, read_realm,
)
from ..conformance import Trace, real_read, validate_trace
from ..framework import Search, Violation
from .. import shapes
from .. import world as W
from ..shapes import unloaded

TECHNIQUE = "explicit-state model checking of the real code against a constant reference"
NOTE = ("All histories of read operations and releases up to the stated depth on held objects of "
        "every class, starting from a model in memory (saved or not), a completely loaded one "
        "and one of which only references are known. Every read must return the same constant "
        "value and must not issue a storing command. Plain attributes (dataset_identifier, ...) "
        "are not read operations.")

META_A = (("e", "1", "{}", 1.5, "n", "m", '{"x": 1}'), ("e", "2", '{"p": [1]}', 2.5, "n", "m", "2"))
META_B = (("f", "1", "{}", 3.5, "n", "m", '"b"'),)
# the same content in another order
META_A2 = tuple(reversed(META_A))
REC = (1, "v1", META_A2, (("a", META_A), ("d/b", META_B), ("d/c", ())))
SUB = (2, "w1", None, (("x", META_B),))
NONE = (3, "w2", None, None)
TREE = ("tree", (("", REC), ("s/d", SUB), ("s/n", NONE)))
TVL = (("v1", "", "10", TREE), ("v1", "p/q", "11", ("tree", (("", NONE),))), ("v2", "", "12", ("tree", ())))
UUIDS = ((1, (("v1", "", "10", ("mrr", REC)), ("v1", "p", "11", ("mrr", NONE)))),
         (2, (("w1", "", "10", ("mrr", SUB)),)), (3, ()))

P = MetadataPath


def mrr_summary(mrr):
    assert type(mrr) is MetadataRootRecord
    return read_mrr(mrr)


def listing(iterable, loaded_names):
    return sorted((str(path), type(node).__name__) for path, node in iterable)


# class -> name -> read operation
READS = {
    "tvl": {
        "len": len,
        "versions": lambda o: sorted(o.versions()),
        "keys": lambda o: sorted((v, str(p)) for v, p in o.versions_and_prefix_paths()),
        "elements": lambda o: sorted((v, s, str(p), type(e).__name__)
                                     for v, (s, p, e) in o.versioned_elements),
        "get": lambda o: (lambda r: (r[0], str(r[1]), type(r[2]).__name__))(
            o.get_versioned_element("v1", P("p/q"))),
        "tree": lambda o: (lambda r: (r[0], str(r[1]), len(r[2].dataset_paths)))(
            o.get_dataset_tree("v1", P(""))),
        "trees": lambda o: sorted((s, str(p), len(t.dataset_paths))
                                  for s, p, t in o.get_dataset_trees("v1")),
        "first": lambda o: type(next(iter(o.get_versioned_elements("v1")))[2]).__name__,
        "missing": lambda o: raises(KeyError, lambda: o.get_dataset_tree("v3", P(""))),
    },
    "uuids": {
        "uuids": lambda o: sorted(map(str, o.uuids())),
        "in": lambda o: [UUID(int=i) in o.uuids() for i in (1, 2, 3, 4)],
        "get": lambda o: len(o.get_version_list(UUID(int=1))),
        "missing": lambda o: raises(KeyError, lambda: o.get_version_list(UUID(int=9))),
    },
    "versions": {
        "len": len,
        "keys": lambda o: sorted((v, str(p)) for v, p in o.versions_and_prefix_paths()),
        "versions": lambda o: sorted(o.versions()),
        "get": lambda o: mrr_summary(o.get_versioned_element("v1", P(""))[2]),
        "all": lambda o: sorted((s, str(p)) for s, p, e in o.get_versioned_elements("v1")),
        "elements": lambda o: sorted((v, s, str(p), type(e).__name__)
                                     for v, (s, p, e) in o.versioned_elements),
    },
    "tree": {
        "in": lambda o: [P(p) in o for p in ("", "s", "s/d", "s/n", "x", "s/d/y")],
        "paths": lambda o: sorted(str(p) for p, _ in o.dataset_paths),
        "records": lambda o: sorted((str(p), mrr_summary(m)["version"])
                                    for p, m in o.dataset_paths),
        "get": lambda o: mrr_summary(o.get_metadata_root_record(P("s/d"))),
        "get none": lambda o: o.get_metadata_root_record(P("s")),
        "recursive": lambda o: listing(o.get_paths_recursive(), None),
        "intermediate": lambda o: listing(o.get_paths_recursive(True), None),
        "first": lambda o: next(iter(o.get_paths_recursive())) and 1,
        "nested": lambda o: sorted(
            (str(p), o.get_metadata_root_record(P("/".join(p.parts[:-1]))) is not None)
            for p, _ in o.get_paths_recursive()),
    },
    "record": {
        "files": lambda o: sorted(read_file_tree(o.file_tree)),
        "get_files": lambda o: P("d/b") in o.get_file_tree(),
        "dlm": lambda o: read_metadata(o.get_dataset_level_metadata()),
    },
    "none_record": {
        "files": lambda o: read_file_tree(o.file_tree),
        "dlm": lambda o: read_metadata(o.get_dataset_level_metadata()),
    },
    "files": {
        "in": lambda o: [P(p) in o for p in ("a", "d/b", "x", "d/x", "a/b")],
        "get": lambda o: read_metadata(o.get_metadata(P("a"))),
        "get inner": lambda o: read_metadata(o.get_metadata(P("d/b"))),
        "get none": lambda o: o.get_metadata(P("d/x")),
        "get below": lambda o: o.get_metadata(P("a/x")),
        "recursive": lambda o: listing(o.get_paths_recursive(), None),
        "intermediate": lambda o: listing(o.get_paths_recursive(True), None),
        "first": lambda o: next(iter(o.get_paths_recursive())) and 1,
        "content": lambda o: sorted((str(p), json.dumps(sorted(m.extractors)))
                                    for p, m in o.get_paths_recursive()),
        "nested": lambda o: sorted((str(p), len(read_metadata(o.get_metadata(p))))
                                   for p, _ in o.get_paths_recursive()),
    },
    "node": {
        "in": lambda o: [P(n) in o for n in ("b", "c", "x")],
        "child": lambda o: [o.contains_child(n) for n in ("b", "c", "x")],
        "get": lambda o: [type(o.get_child(n)).__name__ for n in ("b", "x")],
        "at": lambda o: [type(o.get_object_at_path(p)).__name__
                         for p in (P("b"), P("x"), P("b/c"), P(""), None)],
        "recursive": lambda o: listing(o.get_paths_recursive(), None),
    },
    "meta": {
        "extractors": lambda o: sorted(o.extractors),
        "runs": read_metadata,
        "of": lambda o: len(list(o.extractor_runs_for_extractor("e"))),
        "missing": lambda o: raises(KeyError, lambda: o.extractor_runs_for_extractor("z")),
        "json": lambda o: canonical(o.to_json()),
        "copy": lambda o: o == shapes.metadata(META_A),
        "copy right": lambda o: shapes.metadata(META_A) == o,
        "other": lambda o: o == shapes.metadata(META_B),
    },
    "empty_meta": {
        "extractors": lambda o: sorted(o.extractors),
        "json": lambda o: canonical(o.to_json()),
        "eq": lambda o: o == Metadata(),
        "ne": lambda o: o == shapes.metadata(META_B),
    },
    "pair": {
        "eq": lambda o: (o[0] == o[1], o[1] == o[0], o[0] == o[2], o[2] == o[0]),
    },
}


def canonical(text):
    return json.dumps(json.loads(text), sort_keys=True)


def raises(error, function):
    try:
        return ("returned", repr(function()))
    except error:
        return "raised"


def expected_values():
    """values read from a model that was only built in memory"""
    W.get_world().reset()
    objects = build_objects()
    return {(kind, name): function(objects[kind])
            for kind, functions in READS.items() for name, function in functions.items()}


def walk(tvl, uuids):
    """objects of all classes, reached from the top-level objects"""
    tree = tvl.get_dataset_tree("v1", P(""))[2]
    record = tree.get_metadata_root_record(P(""))
    files = record.file_tree
    meta = files.get_metadata(P("a"))
    dlm = record.get_dataset_level_metadata()
    empty = files.get_metadata(P("d/c"))
    other = tree.get_metadata_root_record(P("s/d")).file_tree.get_metadata(P("x"))
    return {
        "tvl": tvl, "uuids": uuids, "versions": uuids.get_version_list(UUID(int=1)),
        "tree": tree, "record": record,
        "none_record": tree.get_metadata_root_record(P("s/n")),
        "files": files, "node": files.mtree.get_object_at_path(P("d")),
        "meta": meta, "empty_meta": empty, "pair": (meta, dlm, other)}


def build_objects():
    return walk(shapes.versions(TVL, TreeVersionList), shapes.uuids(UUIDS))


class State:
    pass


class Machine:
    PURGE = ("tvl", "uuids", "versions", "tree", "record", "none_record", "files", "node",
             "meta", "empty_meta", "dlm")

    def __init__(self):
        self.expected = None
        self.expected_json = {}

    def initial(self):
        return [("init", n) for n in ("built", "saved", "loaded", "references")]

    def start(self, op):
        world = W.get_world()
        if self.expected is None:
            self.expected = expected_values()
            self.check_expected()
        realm = world.realms["R"]
        state = State()
        state.world = world
        state.kind = op[1]
        if op[1] in ("built", "saved"):
            world.reset()
            state.objects = build_objects()
            if op[1] == "saved":
                state.objects["tvl"].write_out(realm)
                state.objects["uuids"].write_out(realm)
        else:
            world.reset()
            objects = build_objects()
            objects["tvl"].write_out(realm)
            objects["uuids"].write_out(realm)
            references = {
                k: getattr(o, "reference", None) for k, o in objects.items()
                if k not in ("tvl", "uuids", "node")}
            references["dlm"] = objects["pair"][1].reference
            references["other"] = objects["pair"][2].reference
            node_reference = objects["node"].reference
            snapshot = world.snapshot()
            world.reset(snapshot)
            tvl, uuids = load(realm)
            if op[1] == "loaded":
                state.objects = walk(tvl, uuids)
            else:
                classes = {"versions": "VersionList", "tree": "DatasetTree",
                           "record": "MetadataRootRecord", "none_record": "MetadataRootRecord",
                           "files": "FileTree", "meta": "Metadata", "empty_meta": "Metadata",
                           "dlm": "Metadata", "other": "Metadata"}
                state.objects = {
                    k: unloaded(c, realm, references[k]) for k, c in classes.items()}
                from ..content import MTreeNode, Reference
                state.objects["node"] = MTreeNode(
                    Metadata, realm, Reference("MTreeNode", node_reference.location))
                state.objects["tvl"], state.objects["uuids"] = (
                    unloaded("TreeVersionList", realm, tvl.reference),
                    unloaded("UUIDSet", realm, uuids.reference))
                state.objects["pair"] = (state.objects["meta"], state.objects.pop("dlm"),
                                         state.objects.pop("other"))
        state.stored = world.git_state()
        return state

    def check_expected(self):
        """the constant values themselves are right"""
        e = self.expected
        facts = {
            ("tvl", "len"): 3, ("tvl", "versions"): ["v1", "v1", "v2"],
            ("tvl", "keys"): [("v1", ""), ("v1", "p/q"), ("v2", "")],
            ("tvl", "get"): ("11", "p/q", "DatasetTree"), ("tvl", "tree"): ("10", "", 3),
            ("tvl", "trees"): [("10", "", 3), ("11", "p/q", 1)],
            ("tvl", "elements"): [("v1", "10", "", "DatasetTree"),
                                  ("v1", "11", "p/q", "DatasetTree"),
                                  ("v2", "12", "", "DatasetTree")],
            ("tvl", "missing"): "raised", ("uuids", "missing"): "raised",
            ("uuids", "in"): [True, True, True, False], ("uuids", "get"): 2,
            ("uuids", "uuids"): [str(UUID(int=i)) for i in (1, 2, 3)],
            ("versions", "len"): 2, ("versions", "get"): shapes.record_doc(REC),
            ("versions", "all"): [("10", ""), ("11", "p")],
            ("versions", "keys"): [("v1", ""), ("v1", "p")],
            ("versions", "elements"): [("v1", "10", "", "MetadataRootRecord"),
                                       ("v1", "11", "p", "MetadataRootRecord")],
            ("tree", "in"): [True, False, True, True, False, False],
            ("tree", "paths"): ["", "s/d", "s/n"],
            ("tree", "get"): shapes.record_doc(SUB), ("tree", "get none"): None,
            ("record", "files"): ["a", "d/b", "d/c"], ("record", "get_files"): True,
            ("record", "dlm"): shapes.metadata_doc(META_A),
            ("none_record", "files"): {}, ("none_record", "dlm"): {},
            ("files", "in"): [True, True, False, False, False],
            ("files", "get"): shapes.metadata_doc(META_A),
            ("files", "get inner"): shapes.metadata_doc(META_B),
            ("files", "get none"): None, ("files", "get below"): None,
            ("files", "recursive"): [("a", "Metadata"), ("d/b", "Metadata"), ("d/c", "Metadata")],
            ("files", "intermediate"): [("", "MTreeNode"), ("a", "Metadata"), ("d", "MTreeNode"),
                                        ("d/b", "Metadata"), ("d/c", "Metadata")],
            ("node", "in"): [True, True, False], ("node", "child"): [True, True, False],
            ("node", "get"): ["Metadata", "NoneType"],
            ("node", "recursive"): [("b", "Metadata"), ("c", "Metadata")],
            ("meta", "extractors"): ["e"], ("meta", "runs"): shapes.metadata_doc(META_A),
            ("meta", "of"): 2, ("meta", "missing"): "raised",
            ("meta", "copy"): True, ("meta", "copy right"): True, ("meta", "other"): False,
            ("empty_meta", "extractors"): [], ("empty_meta", "eq"): True,
            ("empty_meta", "ne"): False,
            ("pair", "eq"): (True, True, False, False),
        }
        for key, value in facts.items():
            if e[key] != value:
                raise Violation(f"read operation {key} on a model in memory returns {e[key]!r} "
                                f"instead of {value!r}", f"{key} in memory")

    def ops(self, state):
        result = [("read", kind, name) for kind in READS for name in READS[kind]]
        result += [("purge", kind) for kind in self.PURGE]
        result += [("map", kind) for kind in ("tvl", "uuids", "tree", "record", "files", "node",
                                              "meta", "versions")]
        return result

    def apply(self, state, op):
        if op[0] == "purge":
            target = state.objects["pair"][1] if op[1] == "dlm" else state.objects[op[1]]
            try:
                target.purge()
            except (ValueError, RuntimeError):
                if state.kind != "built":
                    raise Violation(f"release of saved object {op[1]} was refused")
            return
        if op[0] == "map":
            state.objects[op[1]].ensure_mapped()
            return
        _, kind, name = op
        value = READS[kind][name](state.objects[kind])
        expected = self.expected[kind, name]
        if value != expected:
            raise Violation(
                f"read operation {name!r} on {kind} returns {value!r:.400} instead of "
                f"{expected!r:.400}", f"{name} on {kind}")
        if state.world.git_state() != state.stored:
            raise Violation(f"read operation {name!r} on {kind} changed the store",
                            f"{name} on {kind} stores")

    def digest(self, state):
        return state.world.canon(state.objects, state.kind)

    def check(self, state, history):
        # everything together, and saving afterwards stores the same content
        for kind, functions in READS.items():
            for name, function in functions.items():
                self.apply(state, ("read", kind, name))
        if state.kind == "built":
            return
        tvl, uuids = state.objects["tvl"], state.objects["uuids"]
        realm = state.world.realms["R"]
        tvl.write_out(realm)
        uuids.write_out(realm)
        refs = dict(state.world.repo().refs)
        before = {k: v for _, r, _ in state.stored for k, v in r}
        if refs != before:
            raise Violation("saving after read operations moved published references",
                            "save after reads")


def run(ctx):
    machine = Machine()
    search = Search(ctx, machine, depth=2 if ctx.quick else 3)
    search.run()
    ctx.assume("one model with three versions, three datasets and nested file trees")
    world = W.get_world()
    world.reset()
    with Trace(world) as trace:
        realm = world.realms["R"]
        objects = build_objects()
        objects["tvl"].write_out(realm)
        objects["uuids"].write_out(realm)
        world.new_session()
        loaded = walk(*load(realm))
        for kind, functions in READS.items():
            for function in functions.values():
                function(loaded[kind])
    validate_trace(ctx, trace)
    doc = {"tvl": shapes.versions_doc(TVL), "uuid": shapes.uuids_doc(UUIDS)}
    result = real_read([world.repo().copy()])[0]
    if result != ("ok", doc):
        ctx.violation(f"real process reads {result!r:.500}", [("init", "saved")],
                      "real process reads other content")
    ctx.count("real_process_reads")


def replay(case):
    machine = Machine()
    search = Search(None, machine, 0)
    machine.check(search.replay(case), case)
