"""C17: top-level lookup finds what exists and creates only what is missing"""
import itertools

from ..content import (
    ExtractorConfiguration, Metadata, MetadataPath, MetadataRootRecord, FileTree, Path, UUID,
    DatasetTree, TreeVersionList, UUIDSet, VersionList,
    diff, flush_object_references, get_top_nodes_and_metadata_root_record, load, read_mrr,
    read_top,
)
from ..conformance import Trace, validate_trace
from ..framework import Search, Violation
from .. import world as W

TECHNIQUE = "explicit-state model checking of the real code against a reference model"
NOTE = ("All sequences of lookups (with and without creation, for root and sub-datasets, several "
        "identifiers, versions, prefix and dataset-tree paths), modifications of the returned "
        "record, saves of one or both indices and losses of one index up to the stated depth; "
        "results and both indices are compared with a reference model of the documented "
        "behaviour.")

ROOTS = [(1, "v1", ""), (1, "v1", "p/q"), (1, "v2", ""), (2, "v1", "")]
# a version of a root dataset determines the versions of its sub-datasets
SUBS = {0: [("s", 3, "w1"), ("s/t", 4, "w1")], 1: [("s", 3, "w1")], 2: [("s", 3, "w2")]}
P = MetadataPath


def queries():
    for ident, version, prefix in ROOTS:
        yield (ident, version, prefix, "", None, None)
    for number, subs in SUBS.items():
        for path, sub, sub_version in subs:
            yield (*ROOTS[number], path, sub, sub_version)


QUERIES = list(queries())


def call(realm, query, auto):
    ident, version, prefix, path, sub, sub_version = query
    return get_top_nodes_and_metadata_root_record(
        "git", realm, UUID(int=ident), version, P(prefix), P(path),
        None if sub is None else UUID(int=sub), sub_version, auto)


# -- reference model ----------------------------------------------------------
# tvl: None | {(version, prefix): {path: record}}
# uuid: None | {uuid: {(version, prefix): record}}
# record: [uuid, version, files]; the records of both indices are shared until they were stored

def rec(ident, version):
    return {"id": str(UUID(int=ident)), "version": version, "dlm": {}, "files": {}}


class Model:
    def __init__(self):
        self.tvl = None
        self.uuid = None

    def copy(self):
        new = Model()
        memo = {}

        def dup(r):
            return memo.setdefault(id(r), {**r, "files": dict(r["files"])})
        if self.tvl is not None:
            new.tvl = {k: {p: dup(r) for p, r in t.items()} for k, t in self.tvl.items()}
        if self.uuid is not None:
            new.uuid = {u: {k: dup(r) for k, r in v.items()} for u, v in self.uuid.items()}
        return new

    def unshare(self):
        """stored and loaded again: no sharing of records"""
        new = Model()

        def dup(r):
            return {**r, "files": dict(r["files"])}
        if self.tvl is not None:
            new.tvl = {k: {p: dup(r) for p, r in t.items()} for k, t in self.tvl.items()}
        if self.uuid is not None:
            new.uuid = {u: {k: dup(r) for k, r in v.items()} for u, v in self.uuid.items()}
        return new

    def lookup(self, query):
        """record of the query or None, according to the documentation"""
        ident, version, prefix, path, sub, sub_version = query
        if self.tvl is None or self.uuid is None:
            return None
        tree = self.tvl.get((version, prefix))
        if tree is None or path not in tree or ident not in self.uuid:
            return None
        if sub is not None and (sub not in self.uuid or "" not in tree):
            return None
        return tree[path]

    def create(self, query):
        ident, version, prefix, path, sub, sub_version = query
        if self.tvl is None:
            self.tvl = {}
        if self.uuid is None:
            self.uuid = {}
        tree = self.tvl.setdefault((version, prefix), {})
        versions = self.uuid.setdefault(ident, {})
        if "" not in tree:
            tree[""] = rec(ident, version)
        versions.setdefault((version, prefix), tree[""])
        if sub is None:
            return tree[""]
        versions = self.uuid.setdefault(sub, {})
        if path not in tree:
            tree[path] = rec(sub, sub_version)
        versions.setdefault((sub_version, ""), tree[path])
        return tree[path]

    def doc(self):
        return {
            "tvl": None if self.tvl is None else {
                k: ("tree", t) for k, t in self.tvl.items()},
            "uuid": None if self.uuid is None else {
                str(UUID(int=u)): {k: ("mrr", r) for k, r in v.items()}
                for u, v in self.uuid.items()}}


def without_stamps(doc):
    """the time stamps of created elements are the time of creation"""
    def versions(v):
        return {k: e for k, (s, e) in v.items()}
    return {
        "tvl": None if doc["tvl"] is None else versions(doc["tvl"]),
        "uuid": None if doc["uuid"] is None else {u: versions(v) for u, v in doc["uuid"].items()}}


def stamps(doc):
    result = {}
    for k, (s, e) in (doc["tvl"] or {}).items():
        result["tvl", k] = s
    for u, v in (doc["uuid"] or {}).items():
        for k, (s, e) in v.items():
            result[u, k] = s
    return result


class State:
    pass


class Machine:
    """Every operation works on the stored content like a process of its own"""

    def __init__(self, queries, ops):
        self.queries = queries
        self.kinds = ops

    def initial(self):
        return [("init", "empty")]

    def start(self, op):
        state = State()
        state.world = W.get_world()
        state.world.reset()
        state.model = Model()
        state.stamps = {}
        return state

    def ops(self, state):
        result = []
        for kind in self.kinds:
            if kind == "lose":
                if state.model.tvl is not None and state.model.uuid is not None:
                    result += [("lose", "tvl"), ("lose", "uuid")]
            elif kind == "partly":
                # a tree or list without the record
                result += [("partly", i, what) for i in range(len(self.queries))
                           for what in ("tree", "list")]
            else:
                result += [(kind, i) for i in range(len(self.queries))]
        return result

    def apply(self, state, op):
        world = state.world
        realm = world.realms["R"]
        world.new_session()
        kind = op[0]
        if kind == "lose":
            # the realm holds only one of the two indices
            repo = world.repo()
            ref = {"tvl": "refs/datalad/dataset-tree-version-list",
                   "uuid": "refs/datalad/dataset-uuid-set"}[op[1]]
            repo.refs.pop(ref)
            setattr(state.model, op[1], None)
            state.stamps = {k: v for k, v in state.stamps.items()
                            if (k[0] == "tvl") != (op[1] == "tvl")}
            return
        query = self.queries[op[1]]
        if kind == "partly":
            self.partly(state, query, op[2])
            return
        before = world.git_state()
        tvl, uuids, record = call(realm, query, kind != "look")
        if kind == "look":
            self.check_lookup(state, query, tvl, uuids, record)
            if world.git_state() != before:
                raise Violation("lookup changed the store")
            return
        if record is None or tvl is None or uuids is None:
            raise Violation(f"creation for {query} yields no record", "no record created")
        if world.git_state() != before:
            raise Violation("creation changed the store before it was saved")
        model = state.model.copy()
        expected = model.create(query)
        got = without_stamps(read_top(tvl, uuids))
        if got != model.doc():
            raise Violation(f"creation for {query} yields other indices (expected / got): "
                            f"{diff(model.doc(), got)}", "content after creation")
        new_stamps = stamps(read_top(tvl, uuids))
        for key, stamp in state.stamps.items():
            if new_stamps.get(key) != stamp:
                raise Violation(f"creation changed the time stamp of {key}",
                                "time stamp changed by creation")
        for key in new_stamps.keys() - state.stamps.keys():
            try:
                float(new_stamps[key])
            except ValueError:
                raise Violation(f"time stamp {new_stamps[key]!r} of created {key}",
                                "time stamp of created element")
        if read_mrr(record) != expected:
            raise Violation(f"creation for {query} returns another record: "
                            f"{diff(expected, read_mrr(record))}", "record after creation")
        if kind == "add":
            # modify the returned record: it has to be the one in the tree
            path = f"f{len(expected['files'])}"
            if record.file_tree is None:
                record.set_file_tree(FileTree())
            record.file_tree.add_extractor_run(
                P(path), 1.0, "e", "n", "m", ExtractorConfiguration("1", {}), 1)
            expected["files"][path] = {"e": {("1", "{}"): (1.0, "n", "m", "1")}}
            got = without_stamps(read_top(tvl, uuids))
            if got != model.doc():
                raise Violation(f"modification of the record returned for {query} is not part "
                                f"of the indices: {diff(model.doc(), got)}",
                                "returned record is not part of the indices")
        tvl.write_out(realm)
        uuids.write_out(realm)
        flush_object_references(Path(realm))
        state.stamps = new_stamps
        state.model = model.unshare()
        self.compare(state)

    def partly(self, state, query, what):
        """another tool stored parts of the indices"""
        world = state.world
        realm = world.realms["R"]
        tvl, uuids = load(realm)
        ident, version, prefix, path, sub, sub_version = query
        if what == "tree":
            if tvl is None:
                tvl, state.model.tvl = TreeVersionList(), {}
            if (version, prefix) not in state.model.tvl:
                tree = DatasetTree()
                key = path or "z"
                tree.add_dataset(P(key), MetadataRootRecord(UUID(int=9), "z", None, None))
                tvl.set_dataset_tree(version, "5.5", P(prefix), tree)
                state.model.tvl[version, prefix] = {key: rec(9, "z")}
                state.stamps["tvl", (version, prefix)] = "5.5"
            tvl.write_out(realm)
        else:
            if uuids is None:
                uuids, state.model.uuid = UUIDSet(), {}
            if ident not in state.model.uuid:
                versions = VersionList()
                versions.set_versioned_element(
                    "z", "6.5", P("z"), MetadataRootRecord(UUID(int=ident), "z", None, None))
                uuids.set_version_list(UUID(int=ident), versions)
                state.model.uuid[ident] = {("z", "z"): rec(ident, "z")}
                state.stamps[str(UUID(int=ident)), ("z", "z")] = "6.5"
            uuids.write_out(realm)
        flush_object_references(Path(realm))
        self.compare(state)

    def check_lookup(self, state, query, tvl, uuids, record):
        expected = state.model.lookup(query)
        if expected is None:
            if record is not None:
                raise Violation(f"lookup of missing {query} yields a record",
                                "record for missing element")
        else:
            if record is None:
                raise Violation(f"lookup of {query} yields no record", "record not found")
            if read_mrr(record) != expected:
                raise Violation(f"lookup of {query} yields another record: "
                                f"{diff(expected, read_mrr(record))}", "other record found")
        if tvl is not None and uuids is not None:
            got = without_stamps(read_top(tvl, uuids))
            if got != state.model.doc():
                raise Violation(f"lookup of {query} changed the indices: "
                                f"{diff(state.model.doc(), got)}", "lookup changed the indices")
        elif state.model.tvl is not None and state.model.uuid is not None:
            raise Violation(f"lookup of {query} yields no indices", "no indices found")

    def compare(self, state):
        state.world.new_session()
        tvl, uuids = load(state.world.realms["R"])
        got = without_stamps(read_top(tvl, uuids))
        if got != state.model.doc():
            raise Violation(f"stored content (expected / got): {diff(state.model.doc(), got)}",
                            "stored content")

    def digest(self, state):
        # time stamps differ between histories, they do not influence lookups
        return W.canon((state.model.doc(), sorted(state.world.repo().refs)))

    def check(self, state, history):
        world = state.world
        realm = world.realms["R"]
        for query in self.queries:
            world.new_session()
            self.check_lookup(state, query, *call(realm, query, False))
        for query in self.queries:
            # a second creation finds everything
            snapshot = world.snapshot()
            saved = state.model, state.stamps
            self.apply(state, ("make", self.queries.index(query)))
            first = {k: v for k, v in world.repo().refs.items()}
            self.apply(state, ("make", self.queries.index(query)))
            if world.repo().refs != first:
                raise Violation(f"second creation for {query} changed the indices",
                                "second creation")
            state.model, state.stamps = saved
            world.reset(snapshot)


def machine(quick=True):
    return Machine(QUERIES, ("make", "add", "lose", "partly"))


def run(ctx):
    search = Search(ctx, machine(), depth=2 if ctx.quick else 3)
    search.run()
    few = Machine([QUERIES[0], QUERIES[3], QUERIES[4], QUERIES[5]], ("make", "add", "lose"))
    Search(ctx, few, depth=3 if ctx.quick else 5).run()
    for history in search.selection(12 if ctx.quick else 60):
        if any(op[0] == "lose" for op in history):
            continue        # not done by a command
        m = machine()
        state = m.start(history[0])
        with Trace(state.world) as trace:
            for op in history[1:]:
                m.apply(state, op)
        validate_trace(ctx, trace)
    ctx.assume("sub-datasets are recorded in the UUID set with an empty prefix path, as "
               "implemented; queries are consistent: one version of a root dataset contains at most "
               "one dataset version per dataset-tree path; the time stamps of created elements are not predicted")


def replay(case):
    for m in (machine(), Machine([QUERIES[0], QUERIES[3], QUERIES[4], QUERIES[5]],
                                 ("make", "add", "lose"))):
        state = Search(None, m, 0).replay(case)
        m.check(state, case)
