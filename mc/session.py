"""
Session machine: operation histories of one process (with reloads) on one or
more realms, executed on the real objects and on the reference model.
"""
from .content import *      # noqa: F401,F403
from .content import (
    MetadataPath, Path, UUID, TreeVersionList, UUIDSet, VersionList, DatasetTree,
    FileTree, Metadata, MetadataRootRecord, ExtractorConfiguration,
    flush_object_references, load, read_top, diff, freeze,
)
from .framework import Violation
from . import refmodel as ref
from . import gitmodel
from . import world as W

D1, D2, D3 = UUID(int=1), UUID(int=2), UUID(int=3)
IDS = {"": D1, "s/d": D2, "n": D3, "k": D3}
V1 = "v1"
ROOT = MetadataPath("")
PREFIX = "p/q"


def fresh_content(world, realm="R"):
    """
    Content of a realm in a new process.

    The result is remembered per top-level references together with the
    objects that were accessed: it is the same as long as they all exist.
    """
    memo = world.__dict__.setdefault("fresh_memo", {})
    repo = world.repo(realm)
    key = (realm, repo.refs.get("refs/datalad/dataset-tree-version-list"),
           repo.refs.get("refs/datalad/dataset-uuid-set"))
    found = memo.get(key)
    if found is not None and found[1] <= repo.objects.keys():
        return found[0]
    world.new_session()
    gitmodel.READ_LOG = set()
    try:
        content = read_top(*load(world.realms[realm]))
        objects = gitmodel.READ_LOG - {gitmodel.EMPTY_TREE}
    finally:
        gitmodel.READ_LOG = None
    if objects <= repo.objects.keys() and world.git.policy is None:
        memo[key] = (content, objects)
    return content


class State:
    def __init__(self, machine, realms=("R",)):
        self.world = W.get_world(realms)
        self.tvl = None
        self.uuids = None
        self.model = ref.RModel()
        self.mode = 0


def raw_runs(meta, path_extractor, content):
    return None


class Access:
    """Finds real objects and reference objects, always from the top."""

    def __init__(self, state):
        self.s = state

    # -- reference -----------------------------------------------------
    # sides: "T" dataset tree, "U" UUID set; "P" and "Q": the same for the
    # elements of the version below the prefix path "p/q"
    def r_record(self, side, ds):
        model = self.s.model
        if side in "TP":
            prefix = PREFIX if side == "P" else ""
            if model.tvl is None or (V1, prefix) not in model.tvl.versions:
                return None
            return model.tvl.versions[V1, prefix][1].datasets.get(ds)
        if model.uuids is None:
            return None
        prefix = PREFIX if side == "Q" else ""
        versions = model.uuids.uuids.get(str(IDS[ds]))
        if versions is None or (V1, prefix) not in versions.versions:
            return None
        return versions.versions[V1, prefix][1]

    # -- real ----------------------------------------------------------
    def tree(self):
        return self.s.tvl.get_dataset_tree(V1, ROOT)[2]

    def versions(self, ds):
        return self.s.uuids.get_version_list(IDS[ds])

    def record(self, side, ds):
        if side == "T":
            return self.tree().get_metadata_root_record(MetadataPath(ds))
        if side == "P":
            tree = self.s.tvl.get_dataset_tree(V1, MetadataPath(PREFIX))[2]
            return tree.get_metadata_root_record(MetadataPath(ds))
        prefix = MetadataPath(PREFIX if side == "Q" else "")
        return self.versions(ds).get_versioned_element(V1, prefix)[2]


class SessionMachine:
    realm_names = ("R",)
    flush = True

    def __init__(self, operations, initial=("empty", "stored", "memory")):
        self.operations = operations
        self.initial_names = initial

    def initial(self):
        return [("init", name) for name in self.initial_names]

    # -- building -----------------------------------------------------
    def start(self, op):
        state = State(self, self.realm_names)
        name = op[1]
        if name == "stored":
            return self.start_stored(state)
        state.world.reset()
        state.tvl = TreeVersionList()
        state.uuids = UUIDSet()
        state.model.tvl = ref.RVersions()
        state.model.uuids = ref.RUuids()
        for step in self.setup_steps(name):
            self.apply(state, step)
        return state

    def start_stored(self, state):
        """the state after "memory" and a reload"""
        memo = state.world.__dict__.setdefault("stored_memo", {})
        kind = type(self)
        if kind not in memo:
            built = self.start(("init", "memory"))
            memo[kind] = (state.world.snapshot(), built.model.stored, W.CLOCK.now)
        snapshot, stored, now = memo[kind]
        state.world.reset(snapshot)
        W.CLOCK.now = now
        state.model.stored = stored
        self.op_reload(state)
        return state

    def setup_steps(self, name):
        base = [("tree",), ("dataset", ""), ("dataset", "s/d")]
        fill = [("run", "T", "", "a"), ("run", "T", "", "d/b"), ("run", "T", "", None),
                ("run", "T", "s/d", "a"), ("run", "T", "s/d", None)]
        if name == "empty":
            return base[:2]
        if name == "memory":
            return base + fill + [("save",)]
        if name == "unsaved":
            return base + fill
        raise ValueError(name)

    @property
    def realm(self):
        return W.get_world(self.realm_names).realms["R"]

    # -- enabledness ----------------------------------------------------
    def ops(self, state):
        return [op for op in self.operations if self.enabled(state, op)]

    def enabled(self, state, op):
        acc = Access(state)
        kind = op[0]
        if kind in ("run", "newfiles", "newdlm"):
            return acc.r_record(op[1], op[2]) is not None
        if kind == "dataset":
            return (V1, "") in state.model.tvl.versions and \
                acc.r_record("T", op[1]) is None and acc.r_record("U", op[1]) is None
        if kind == "tree":
            return (V1, "") not in state.model.tvl.versions
        if kind == "tree2":
            return True
        if kind == "restamp":
            if op[1] == "T":
                return (V1, "") in state.model.tvl.versions
            return acc.r_record("U", op[2]) is not None
        if kind == "prefixed":
            return str(D1) in state.model.uuids.uuids
        if kind == "relist":
            return str(IDS[op[1]]) in state.model.uuids.uuids
        if kind == "delete":
            tree = state.model.tvl.versions.get((V1, ""))
            return tree is not None and any(
                p == op[1] or p.startswith(op[1] + "/") for p in tree[1].datasets)
        if kind == "subtree":
            tree = state.model.tvl.versions.get((V1, ""))
            return tree is not None and not any(
                p == op[1] or p.startswith(op[1] + "/") for p in tree[1].datasets)
        if kind in ("write", "purge", "unget"):
            return self.node_pair(state, op, reference_only=True) is not None
        if kind in ("write_node", "purge_node"):
            return self.inner_nodes(state, op) is not None
        if kind == "default_save":
            return state.tvl.realm is not None and state.uuids.realm is not None
        return True

    def node_pair(self, state, op, reference_only=False):
        """(reference node, real object getter) of a write/purge/unget operation"""
        acc = Access(state)
        what = op[1]
        model = state.model
        if what == "tvl":
            return model.tvl, (lambda: state.tvl)
        if what == "uuids":
            return model.uuids, (lambda: state.uuids)
        if what == "tree":
            entry = model.tvl.versions.get((V1, ""))
            return entry and (entry[1], acc.tree)
        if what == "versions":
            node = model.uuids.uuids.get(str(IDS[op[2]]))
            if node is None:
                return None
            return node, (lambda: acc.versions(op[2]))
        side, ds = op[2], op[3]
        record = acc.r_record(side, ds)
        if record is None:
            return None
        if what == "record":
            return record, (lambda: acc.record(side, ds))
        if what == "dlm":
            return record.dlm and (
                record.dlm, lambda: acc.record(side, ds).get_dataset_level_metadata())
        if what == "files":
            return record.files and (
                record.files, lambda: acc.record(side, ds).file_tree)
        if what == "meta":
            node = record.files and record.files.files.get(op[4])
            return node and (
                node, lambda: acc.record(side, ds).file_tree.get_metadata(MetadataPath(op[4])))
        raise ValueError(op)

    # -- operations ---------------------------------------------------
    def apply(self, state, op):
        getattr(self, "op_" + op[0])(state, *op[1:])

    def op_tree(self, state):
        state.tvl.set_dataset_tree(V1, "10", ROOT, DatasetTree())
        state.model.tvl.versions[V1, ""] = ["10", ref.RTree()]
        state.model.tvl.clean = False

    def op_tree2(self, state):
        """replace or add the second version"""
        new = state.model.tvl.versions.get(("v2", ""))
        stamp = "20" if new is None or new[0] == "21" else "21"
        tree = DatasetTree()
        record = MetadataRootRecord(D3, "v2", None, None)
        tree.add_dataset(ROOT, record)
        state.tvl.set_dataset_tree("v2", stamp, ROOT, tree)
        rtree = ref.RTree()
        rtree.datasets[""] = ref.RRecord(str(D3), "v2")
        state.model.tvl.versions["v2", ""] = [stamp, rtree]
        state.model.tvl.clean = False

    def op_dataset(self, state, ds):
        """new dataset in both indices, one root record"""
        acc = Access(state)
        record = MetadataRootRecord(IDS[ds], V1, Metadata(), FileTree())
        acc.tree().add_dataset(MetadataPath(ds), record)
        if IDS[ds] in state.uuids.uuids():
            versions = state.uuids.get_version_list(IDS[ds])
        else:
            versions = VersionList()
            state.uuids.set_version_list(IDS[ds], versions)
        versions.set_versioned_element(V1, "11", ROOT, record)
        rrecord = ref.RRecord(str(IDS[ds]), V1)
        rtree = state.model.tvl.versions[V1, ""][1]
        rtree.datasets[ds] = rrecord
        rtree.clean = False
        if str(IDS[ds]) not in state.model.uuids.uuids:
            state.model.uuids.uuids[str(IDS[ds])] = ref.RVersions()
            state.model.uuids.clean = False
        rversions = state.model.uuids.uuids[str(IDS[ds])]
        rversions.versions[V1, ""] = ["11", rrecord]
        rversions.clean = False

    def op_delete(self, state, path):
        Access(state).tree().delete_subtree(MetadataPath(path))
        tree = state.model.tvl.versions[V1, ""][1]
        for p in [p for p in tree.datasets if p == path or p.startswith(path + "/")]:
            del tree.datasets[p]
        tree.clean = False

    def op_subtree(self, state, path):
        sub = DatasetTree()
        sub.add_dataset(ROOT, MetadataRootRecord(D3, "v3", None, None))
        Access(state).tree().add_subtree(sub, MetadataPath(path))
        tree = state.model.tvl.versions[V1, ""][1]
        tree.datasets[path] = ref.RRecord(str(D3), "v3")
        tree.clean = False

    def op_run(self, state, side, ds, path, variant=None):
        """
        Toggle one part of one extractor run (default: its content), the
        variants "config", "version" and "extractor" concern other runs.
        """
        acc = Access(state)
        rrecord = acc.r_record(side, ds)
        record = acc.record(side, ds)
        if record is None:
            raise Violation(f"root record {ds!r} not found on side {side}")
        configuration = ExtractorConfiguration("1", {})
        if path is None:
            meta = record.get_dataset_level_metadata()
            if meta is None:
                meta = Metadata()
                record.set_dataset_level_metadata(meta)
            if rrecord.dlm is None:
                rrecord.dlm = ref.RMeta()
                rrecord.clean = False
            rmeta = rrecord.dlm
        else:
            if rrecord.files is None:
                rrecord.files = ref.RFiles()
                rrecord.clean = False
            if path not in rrecord.files.files:
                rrecord.files.files[path] = ref.RMeta()
                rrecord.files.clean = False
            rmeta = rrecord.files.files[path]
            files = record.file_tree
            if files is None:
                files = FileTree()
                record.set_file_tree(files)
        version = "2" if variant == "version" else "1"
        parameter = {"p": 1} if variant == "config" else {}
        extractor = "f" if variant == "extractor" else "e"
        configuration = ExtractorConfiguration(version, parameter)
        key = (version, freeze(parameter))
        new = list(rmeta.runs.get(extractor, {}).get(key, (5.0, "n", "m", freeze({"c": 2}))))
        index = {"stamp": 0, "author": 1, "email": 2}.get(variant, 3)
        values = ((5.0, 6.0), ("n", "N"), ("m", "M"), (freeze({"c": 1}), freeze({"c": 2})))[index]
        new[index] = values[1] if new[index] == values[0] else values[0]
        content = {"c": 1} if new[3] == freeze({"c": 1}) else {"c": 2}
        if path is None:
            meta.add_extractor_run(new[0], extractor, new[1], new[2], configuration, content)
        else:
            files.add_extractor_run(MetadataPath(path), new[0], extractor, new[1], new[2],
                                    configuration, content)
        rmeta.runs.setdefault(extractor, {})[key] = tuple(new)
        rmeta.clean = False

    def op_restamp(self, state, side, ds):
        """record the same element again, with another time stamp"""
        acc = Access(state)
        if side == "T":
            rversions = state.model.tvl
            element, target = acc.tree(), state.tvl.set_dataset_tree
        else:
            rversions = state.model.uuids.uuids[str(IDS[ds])]
            element, target = acc.record("U", ds), acc.versions(ds).set_versioned_element
        stamp = "30" if rversions.versions[V1, ""][0] != "30" else "31"
        target(V1, stamp, ROOT, element)
        rversions.versions[V1, ""][0] = stamp
        rversions.clean = False

    def op_prefixed(self, state):
        """add or replace an element of the same version below another prefix path"""
        acc = Access(state)
        prefix = MetadataPath(PREFIX)
        old = state.model.tvl.versions.get((V1, PREFIX))
        stamp = "40" if old is None or old[0] == "41" else "41"
        tree = DatasetTree()
        tree.add_dataset(MetadataPath("o"), MetadataRootRecord(D3, V1 + stamp, None, None))
        state.tvl.set_dataset_tree(V1, stamp, prefix, tree)
        rtree = ref.RTree()
        rtree.datasets["o"] = ref.RRecord(str(D3), V1 + stamp)
        state.model.tvl.versions[V1, PREFIX] = [stamp, rtree]
        state.model.tvl.clean = False
        versions = state.model.uuids.uuids[str(D1)]
        acc.versions("").set_versioned_element(
            V1, stamp, prefix, MetadataRootRecord(D1, V1 + stamp, None, None))
        versions.versions[V1, PREFIX] = [stamp, ref.RRecord(str(D1), V1 + stamp)]
        versions.clean = False

    def op_newlist(self, state, ds):
        """replace a version list"""
        rversions = state.model.uuids.uuids.get(str(IDS[ds]))
        old = rversions.versions.get(("v7", "")) if rversions else None
        stamp = "50" if old is None or old[0] == "51" else "51"
        versions = VersionList()
        versions.set_versioned_element(
            "v7", stamp, ROOT, MetadataRootRecord(IDS[ds], "v7", None, None))
        state.uuids.set_version_list(IDS[ds], versions)
        rversions = ref.RVersions()
        rversions.versions["v7", ""] = [stamp, ref.RRecord(str(IDS[ds]), "v7")]
        state.model.uuids.uuids[str(IDS[ds])] = rversions
        state.model.uuids.clean = False

    def op_relist(self, state, ds):
        """set the version list that is already there"""
        state.uuids.set_version_list(IDS[ds], Access(state).versions(ds))
        state.model.uuids.clean = False

    def op_newfiles(self, state, side, ds):
        """replace the file tree by a new one with one entry"""
        acc = Access(state)
        files = FileTree()
        rfiles = ref.RFiles()
        meta = Metadata()
        meta.add_extractor_run(
            6.0, "g", "n", "m", ExtractorConfiguration("1", {}), {"new": 1})
        files.add_metadata(MetadataPath("z"), meta)
        rmeta = ref.RMeta()
        rmeta.runs = {"g": {("1", freeze({})): (6.0, "n", "m", freeze({"new": 1}))}}
        rfiles.files["z"] = rmeta
        acc.record(side, ds).set_file_tree(files)
        rrecord = acc.r_record(side, ds)
        rrecord.files = rfiles
        rrecord.clean = False

    def op_newdlm(self, state, side, ds):
        """replace the dataset-level metadata by empty metadata"""
        acc = Access(state)
        acc.record(side, ds).set_dataset_level_metadata(Metadata())
        rrecord = acc.r_record(side, ds)
        rrecord.dlm = ref.RMeta()
        rrecord.clean = False

    # -- saving and releasing -------------------------------------------
    def op_write(self, state, *what):
        node, getter = self.node_pair(state, ("write",) + what)
        real = getter()
        real.write_out(self.realm)
        ref.mark_saved(node)
        self.after_write(state, what)

    def after_write(self, state, what):
        if what[0] == "tvl":
            state.model.stored = dict(state.model.stored, tvl=state.model.tvl.doc())
        if what[0] == "uuids":
            state.model.stored = dict(state.model.stored, uuid=state.model.uuids.doc())

    def op_purge(self, state, *what):
        node, getter = self.node_pair(state, ("purge",) + what)
        real = getter()
        has_to_succeed = ref.completely_saved(node)
        try:
            real.purge()
        except (ValueError, RuntimeError) as error:
            if has_to_succeed:
                raise Violation(
                    f"release of completely saved object {what} was refused: {error}",
                    f"release of saved {what[0]} refused")
            return
        if hasattr(node, "release"):
            node.release()

    def op_unget(self, state, *what):
        """save and release through the unget_* operations"""
        acc = Access(state)
        node, getter = self.node_pair(state, ("unget",) + what)
        if what[0] == "tree":
            state.tvl.unget_dataset_tree(V1, ROOT, self.realm)
        elif what[0] == "versions":
            if acc.versions(what[1]).realm is None:
                acc.versions(what[1]).write_out(self.realm)
            state.uuids.unget_version_list(IDS[what[1]])
        elif what[0] == "record":
            acc.versions(what[2]).unget_versioned_element(V1, ROOT, self.realm)
        elif what[0] == "meta":
            acc.record(what[1], what[2]).file_tree.unget_metadata(getter(), self.realm)
        else:
            raise ValueError(what)
        ref.mark_saved(node)
        if hasattr(node, "release"):
            node.release()

    # inner nodes of trees, they are not represented in the reference model
    def inner_nodes(self, state, op):
        """reference nodes below an inner tree node"""
        acc = Access(state)
        if op[1] == "files":
            record = acc.r_record(op[2], op[3])
            if record is None or record.files is None:
                return None
            path = op[4]
            below = {p: m for p, m in record.files.files.items()
                     if p.startswith(path + "/")}
        else:
            entry = state.model.tvl.versions.get((V1, ""))
            if entry is None:
                return None
            path = op[2]
            below = {p: r for p, r in entry[1].datasets.items()
                     if p.startswith(path + "/")}
        return below or None

    def real_inner(self, state, op):
        acc = Access(state)
        if op[1] == "files":
            tree, path = acc.record(op[2], op[3]).file_tree, op[4]
        else:
            tree, path = acc.tree(), op[2]
        tree.ensure_mapped()
        node = tree.mtree.get_object_at_path(MetadataPath(path))
        node.ensure_mapped()
        return node

    def op_write_node(self, state, *what):
        below = self.inner_nodes(state, ("write_node",) + what)
        self.real_inner(state, ("write_node",) + what).write_out(self.realm)
        for node in below.values():
            ref.mark_saved(node)

    def op_purge_node(self, state, *what):
        try:
            self.real_inner(state, ("purge_node",) + what).purge()
        except (ValueError, RuntimeError):
            return
        if what[0] == "tree":
            tree = state.model.tvl.versions[V1, ""][1]
            for path in self.inner_nodes(state, ("purge_node",) + what):
                tree.datasets[path] = tree.datasets[path].copy()

    def op_save(self, state):
        self.save(state, self.realm)

    def op_default_save(self, state):
        state.tvl.write_out()
        state.uuids.write_out()
        if self.flush:
            flush_object_references(Path(self.realm))
        self.mark_all_saved(state)

    def op_force_save(self, state):
        state.tvl.write_out(self.realm, force_write=True)
        state.uuids.write_out(self.realm, force_write=True)
        flush_object_references(Path(self.realm))
        self.mark_all_saved(state)

    def op_save_uuids_first(self, state):
        state.uuids.write_out(self.realm)
        state.tvl.write_out(self.realm)
        flush_object_references(Path(self.realm))
        self.mark_all_saved(state)

    def save(self, state, realm):
        state.tvl.write_out(realm)
        state.uuids.write_out(realm)
        if self.flush:
            flush_object_references(Path(realm))
        self.mark_all_saved(state)

    def mark_all_saved(self, state):
        ref.mark_saved(state.model.tvl)
        ref.mark_saved(state.model.uuids)
        state.model.stored = state.model.doc()

    def op_reload(self, state):
        """a new process continues with what is stored"""
        state.world.new_session()
        state.tvl, state.uuids = load(self.realm)
        state.model.reload()
        if (state.tvl is None) != (state.model.tvl is None) or \
                (state.uuids is None) != (state.model.uuids is None):
            raise Violation("top-level objects missing or unexpected after reload")
        if state.tvl is None:
            state.tvl, state.model.tvl = TreeVersionList(), ref.RVersions()
        if state.uuids is None:
            state.uuids, state.model.uuids = UUIDSet(), ref.RUuids()

    # -- identification and oracle ------------------------------------
    def digest(self, state):
        return state.world.canon(state.tvl, state.uuids, state.model)

    def observe(self, state):
        """content through the objects of the session"""
        return read_top(state.tvl, state.uuids)

    def fresh(self, state, realm="R"):
        """content in a new process"""
        return fresh_content(state.world, realm)

    def expect(self, what, got, expected):
        difference = diff(expected, got)
        if difference is not None or got != expected:
            raise Violation(f"{what} (expected / got): {difference}", what)

    def check(self, state, history):
        raise NotImplementedError
