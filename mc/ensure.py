"""
Session machine with idempotent operations: a process that repeats them on the
content that it finds gets to the intended content, whatever part of it was
already stored.
"""
from .content import (
    DatasetTree, ExtractorConfiguration, FileTree, Metadata, MetadataPath, MetadataRootRecord,
    TreeVersionList, UUIDSet, VersionList, Path, flush_object_references, freeze, load,
)
from .session import Access, D3, IDS, ROOT, SessionMachine, State, V1, fresh_content
from . import refmodel as ref
from . import world as W

SETUP = [("tree",), ("dataset", ""), ("dataset", "s/d"), ("set", "T", "", "a", 1),
         ("set", "T", "", "d/b", 1), ("set", "T", "", None, 1), ("set", "T", "s/d", "a", 1),
         ("set", "T", "s/d", None, 1)]


class EnsureMachine(SessionMachine):
    """
    initial states: "unsaved" (everything new), "stored" (loaded from the
    realm).  ("base",) performs the whole setup.
    """
    flush = True

    def __init__(self, operations=(), initial=("unsaved", "stored")):
        super().__init__(operations, initial)

    def start(self, op):
        state = State(self, self.realm_names)
        world = state.world
        if op[1] == "stored":
            memo = world.__dict__.setdefault("ensure_memo", {})
            if "stored" not in memo:
                built = self.start(("init", "unsaved"))
                self.op_save(built)
                memo["stored"] = (world.snapshot(), built.model.stored)
            snapshot, stored = memo["stored"]
            world.reset(snapshot)
            W.CLOCK.now = 2000.0
            state.model.stored = stored
            self.op_reload(state)
            return state
        world.reset()
        self.fresh_objects(state)
        if op[1] != "nothing":
            self.prepare(state)
        return state

    def fresh_objects(self, state):
        state.tvl, state.uuids = TreeVersionList(), UUIDSet()
        state.model.tvl, state.model.uuids = ref.RVersions(), ref.RUuids()

    def prepare(self, state):
        for step in SETUP:
            self.apply(state, step)

    def resume(self, world, history):
        """
        A new process on the stores of the world repeats the history.
        Returns the state before the final save.
        """
        state = State(self, self.realm_names)
        content = fresh_content(world)
        world.new_session()
        state.tvl, state.uuids = load(self.realm)
        state.model = ref.rebuild(content)
        if state.tvl is None:
            state.tvl, state.model.tvl = TreeVersionList(), ref.RVersions()
        if state.uuids is None:
            state.uuids, state.model.uuids = UUIDSet(), ref.RUuids()
        if history[0][1] == "unsaved":
            self.prepare(state)
        for op in history[1:]:
            if self.enabled(state, op):
                self.apply(state, op)
        return state

    # -- idempotent operations -------------------------------------------
    def op_tree(self, state):
        if (V1, "") not in state.model.tvl.versions:
            super().op_tree(state)

    def op_tree2(self, state):
        tree = DatasetTree()
        tree.add_dataset(ROOT, MetadataRootRecord(D3, "v2", None, None))
        state.tvl.set_dataset_tree("v2", "20", ROOT, tree)
        rtree = ref.RTree()
        rtree.datasets[""] = ref.RRecord(str(D3), "v2")
        state.model.tvl.versions["v2", ""] = ["20", rtree]
        state.model.tvl.clean = False

    def op_dataset(self, state, ds):
        acc = Access(state)
        on_tree, in_set = acc.r_record("T", ds), acc.r_record("U", ds)
        if on_tree is None and in_set is None:
            super().op_dataset(state, ds)
        elif in_set is None:
            record = acc.record("T", ds)
            if IDS[ds] in state.uuids.uuids():
                versions = state.uuids.get_version_list(IDS[ds])
            else:
                versions = VersionList()
                state.uuids.set_version_list(IDS[ds], versions)
            versions.set_versioned_element(V1, "11", ROOT, record)
            rversions = state.model.uuids.uuids.setdefault(str(IDS[ds]), ref.RVersions())
            rversions.versions[V1, ""] = ["11", on_tree]
            rversions.clean = False
            state.model.uuids.clean = False
        elif on_tree is None:
            acc.tree().add_dataset(MetadataPath(ds), acc.record("U", ds))
            tree = state.model.tvl.versions[V1, ""][1]
            tree.datasets[ds] = in_set
            tree.clean = False

    def op_delete(self, state, path):
        tree = state.model.tvl.versions[V1, ""][1]
        if any(p == path or p.startswith(path + "/") for p in tree.datasets):
            super().op_delete(state, path)

    def op_subtree(self, state, path):
        tree = state.model.tvl.versions[V1, ""][1]
        if not any(p == path or p.startswith(path + "/") for p in tree.datasets):
            super().op_subtree(state, path)

    def op_set(self, state, side, ds, path, value):
        acc = Access(state)
        record, rrecord = acc.record(side, ds), acc.r_record(side, ds)
        configuration = ExtractorConfiguration("1", {})
        if path is None:
            meta = record.get_dataset_level_metadata()
            if meta is None:
                meta = Metadata()
                record.set_dataset_level_metadata(meta)
            if rrecord.dlm is None:
                rrecord.dlm = ref.RMeta()
            rmeta = rrecord.dlm
            meta.add_extractor_run(5.0, "e", "n", "m", configuration, {"v": value})
        else:
            files = record.get_file_tree()
            if files is None:
                files = FileTree()
                record.set_file_tree(files)
            if rrecord.files is None:
                rrecord.files = ref.RFiles()
            rmeta = rrecord.files.files.setdefault(path, ref.RMeta())
            files.add_extractor_run(
                MetadataPath(path), 5.0, "e", "n", "m", configuration, {"v": value})
            rrecord.files.clean = False
        rmeta.runs.setdefault("e", {})["1", freeze({})] = (5.0, "n", "m", freeze({"v": value}))
        rmeta.clean = False
        rrecord.clean = False

    def enabled(self, state, op):
        acc = Access(state)
        if op[0] == "set":
            return acc.r_record(op[1], op[2]) is not None
        if op[0] in ("dataset", "delete", "subtree"):
            return (V1, "") in state.model.tvl.versions
        return super().enabled(state, op)

    def op_flush(self, state):
        flush_object_references(Path(self.realm))
