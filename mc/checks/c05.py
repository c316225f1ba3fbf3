"""C05: work is limited to the part of the model in focus"""
from ..conformance import validate_histories
from ..content import MetadataPath, read_metadata, load
from ..framework import Search, Violation
from ..session import Access, IDS, ROOT, SessionMachine, V1
from .. import gitmodel
from .. import refmodel as ref
from .. import storage
from .. import world as W

TECHNIQUE = "explicit-state model checking of the real code, monitoring object accesses"
NOTE = ("All histories up to the stated depth of lookups, modifications, partial saves and "
        "releases; the git model records every object that a command reads or writes. Reads "
        "have to stay on the way to the looked-up path, writes have to belong to modified "
        "objects and their containers. Object reference trees (flush) are not counted.")

# lookups: (side, dataset path, file path or None for dataset-level metadata)
LOOKUPS = [("T", "", "a"), ("T", "", "d/b"), ("T", "", None), ("T", "s/d", "a"),
           ("T", "s/d", None), ("U", "", "a"), ("U", "s/d", None), ("T", "n", "a")]
LOOKUP = [("look",) + l for l in LOOKUPS]
MODIFY = [("run", "T", "", "a"), ("run", "T", "", "d/b"), ("run", "T", "", None),
          ("run", "T", "s/d", "a"), ("run", "U", "", "d/b"), ("run", "U", "s/d", None),
          ("run", "T", "", "n/x"), ("newdlm", "T", ""), ("dataset", "n"), ("tree2",)]
OTHER = [("write", "files", "T", ""), ("write", "record", "U", ""), ("write", "tree"),
         ("purge", "record", "T", ""), ("purge", "tree"), ("purge", "versions", ""),
         ("purge", "tvl"), ("purge", "uuids"), ("unget", "tree"), ("save",), ("reload",)]


def prefix_of(side, ds):
    """part of the record"""
    if side == "T":
        return ("T", V1, "", "rec", ds)
    return ("U", str(IDS[ds]), V1, "")


class Machine(SessionMachine):
    flush = True

    def setup_steps(self, name):
        # other elements around those that are looked up
        steps = super().setup_steps(name)
        return steps[:-1] + [("prefixed",), ("tree2",)] + steps[-1:]

    def enabled(self, state, op):
        if op[0] == "look":
            return True
        return super().enabled(state, op)

    def op_look(self, state, side, ds, path):
        """one lookup, reads only what is on the way"""
        rrecord = Access(state).r_record(side, ds)
        gitmodel.READ_LOG = set()
        try:
            if side == "T":
                record = Access(state).tree().get_metadata_root_record(MetadataPath(ds)) \
                    if (V1, "") in state.model.tvl.versions else None
            elif IDS[ds] in state.uuids.uuids() and rrecord is not None:
                record = Access(state).record(side, ds)
            else:
                record = None
            meta = None
            if record is not None:
                if path is None:
                    meta = record.get_dataset_level_metadata()
                else:
                    files = record.file_tree
                    meta = files.get_metadata(MetadataPath(path)) if files else None
            content = read_metadata(meta)
            accessed = gitmodel.READ_LOG - {gitmodel.EMPTY_TREE}
        finally:
            gitmodel.READ_LOG = None
        node = None
        if rrecord is not None:
            node = rrecord.dlm if path is None else (
                rrecord.files and rrecord.files.files.get(path))
        self.expect("content of a lookup", content, node.doc() if node else {})
        part = prefix_of(side, ds) + (("dlm",) if path is None else ("files", "meta", path))
        repo = state.world.repo()
        # (objects of partial saves that were never published are not located)
        located = remember(state)
        allowed, other = set(), set()
        on_the_way = storage.containers(part)
        for p, ids in located.items():
            if p in on_the_way:
                allowed |= ids
            else:
                other |= ids
        beyond = accessed & (other - allowed)
        if beyond:
            names = sorted(str(p) for p, ids in located.items() if ids & beyond)
            raise Violation(f"lookup of {part} read objects of {names}",
                            "lookup reads other objects")

    def apply(self, state, op):
        if op[0] == "save":
            return self.monitored_save(state)
        super().apply(state, op)

    def monitored_save(self, state):
        """save, writes only what was modified and its containers"""
        dirty = dirty_parts(state.model)
        world = state.world
        repo = world.repo()
        before, refs = dict(repo.objects), dict(repo.refs)
        gitmodel.WRITE_LOG = set()
        realm = self.realm
        try:
            state.tvl.write_out(realm)
            state.uuids.write_out(realm)
            written = gitmodel.WRITE_LOG
        finally:
            gitmodel.WRITE_LOG = None
        repo = world.repo()
        written = written | (repo.objects.keys() - before.keys())
        moved = repo.refs != refs
        from ..content import Path, flush_object_references
        flush_object_references(Path(realm))
        located = storage.locate(world.repo())
        allowed = set()
        closed = set()
        for part in dirty:
            closed |= storage.containers(part)
        for part, ids in located.items():
            if part in closed or any(inner(part, d) for d in dirty):
                allowed |= ids
        beyond = written - allowed
        if beyond:
            names = sorted(str(p) for p, ids in located.items() if ids & beyond)
            raise Violation(
                f"saving wrote unmodified objects {names or beyond}; modified: "
                f"{sorted(map(str, dirty))}", "save writes unmodified objects")
        if moved and not dirty:
            raise Violation("saving an unmodified model moved a published reference",
                            "save of unmodified model moves reference")
        self.mark_all_saved(state)
        remember(state)

    def digest(self, state):
        return state.world.canon(state.tvl, state.uuids, state.model)

    def check(self, state, history):
        self.monitored_save(state)
        # unchanged now: saving again, loaded, released and reloaded, writes nothing
        self.monitored_save(state)
        for release in (("purge", "tvl"), ("purge", "uuids")):
            SessionMachine.apply(self, state, release)
        self.monitored_save(state)
        SessionMachine.apply(self, state, ("reload",))
        for look in LOOKUPS:
            self.op_look(state, *look)
        self.monitored_save(state)


def remember(state):
    """part -> ids over all saves of the history: objects in memory may be older or newer
    than the published ones"""
    history = state.__dict__.setdefault("located", {})
    for part, ids in storage.locate(state.world.repo()).items():
        history.setdefault(part, set()).update(ids)
    return history


def inner(part, dirty):
    """part is an inner tree node of a structurally modified tree"""
    return "node" in part and dirty[-1:] == ("*",) and part[:len(dirty) - 1] == dirty[:-1] \
        and "node" == part[len(dirty) - 1]


def dirty_parts(model):
    """parts that are not completely saved according to the reference model"""
    result = set()

    def visit(part, node):
        if ref.completely_saved(node):
            return
        result.add(part)
        if isinstance(node, ref.RMeta):
            return
        if isinstance(node, ref.RRecord):
            # absent members might be stored as empty ones
            for name, member in (("dlm", node.dlm), ("files", node.files)):
                if member is None:
                    result.add(part + (name,))
                else:
                    visit(part + (name,), member)
        elif isinstance(node, ref.RFiles):
            if not node.clean:
                result.add(part + ("*",))
            for path, meta in node.files.items():
                visit(part + ("meta", path), meta)
        elif isinstance(node, ref.RTree):
            if not node.clean:
                result.add(part + ("*",))
            for path, record in node.datasets.items():
                visit(part + ("rec", path), record)
        elif isinstance(node, ref.RVersions):
            for (version, prefix), (stamp, element) in node.versions.items():
                visit(part + (version, prefix), element)
        elif isinstance(node, ref.RUuids):
            for uuid, versions in node.uuids.items():
                visit(part + (uuid,), versions)

    visit(("T",), model.tvl)
    visit(("U",), model.uuids)
    return result


def machine():
    return Machine(LOOKUP + MODIFY + OTHER, ("stored", "memory"))


def run(ctx):
    search = Search(ctx, machine(), depth=3 if ctx.quick else 4)
    search.run()
    core = Machine(LOOKUP[:4] + MODIFY[:4] + OTHER[3:6] + OTHER[-2:], ("stored",))
    Search(ctx, core, depth=5 if ctx.quick else 7).run()
    validate_histories(ctx, machine(), search, search.selection(6 if ctx.quick else 30))
    ctx.assume("one realm, two datasets; the stored format is read by an independent reader "
               "(mc/storage.py)")


def replay(case):
    m = machine()
    search = Search(None, m, 0)
    state = search.replay(case)
    m.check(state, case)
