"""C16: deep copies are complete and independent"""
from .. import world as W
from ..conformance import Trace, real_read, validate_trace
from ..content import (
    ExtractorConfiguration, FileTree, Metadata, MetadataPath, MetadataRootRecord, DatasetTree,
    Path, UUID, VersionList, diff, flush_object_references, load, read_version_list,
    read_uuid_set, read_top,
)
from ..framework import Search, Violation, run_cases
from ..session import Access, SessionMachine, fresh_content, V1, ROOT
from ..shapes import BUILD, DOC, READ, all_shapes, unloaded

TECHNIQUE = "explicit-state exploration of the real code on a git model"
NOTE = ("Every model shape of mc/shapes.py from every listed loading state of the source, copied "
        "to another and to the same realm, with modifications of either side; and copies after "
        "every operation history up to the stated depth of a session. Survival of garbage "
        "collection is claimed for copies of top-level objects.")
LEVEL = "exploration"

STATES = ("memory", "saved", "released", "loaded", "partial", "modified", "reloaded-modified")
CFG = ExtractorConfiguration("1", {})


def expect(got, expected, what, cls):
    if got != expected:
        raise Violation(f"{cls}: {what} (expected / got): {diff(expected, got)}",
                        f"{cls}: {what}")


def modify(cls, obj, tag):
    """a modification at the top and one as deep as possible"""
    if cls == "Metadata":
        for name in sorted(obj.extractors)[:1]:
            runs = obj.extractor_runs_for_extractor(name)
            obj.add_extractor_run(9.0, name, "n", "m", list(runs.configurations)[0], {"t": tag})
        obj.add_extractor_run(8.0, "zz" + tag, "n", "m", CFG, {"t": tag})
    elif cls == "FileTree":
        paths = [path for path, _ in obj.get_paths_recursive()]
        for path in paths[:1] + paths[-1:]:
            obj.add_extractor_run(path, 9.0, "zz" + tag, "n", "m", CFG, {"t": tag})
        obj.add_extractor_run(MetadataPath("zz/" + tag), 9.0, "e", "n", "m", CFG, {"t": tag})
    elif cls == "MetadataRootRecord":
        dlm = obj.get_dataset_level_metadata()
        if dlm is None:
            dlm = Metadata()
            obj.set_dataset_level_metadata(dlm)
        modify("Metadata", dlm, tag)
        files = obj.get_file_tree()
        if files is None:
            files = FileTree()
            obj.set_file_tree(files)
        modify("FileTree", files, tag)
    elif cls == "DatasetTree":
        paths = [path for path, _ in obj.dataset_paths]
        for path in paths[-1:]:
            modify("MetadataRootRecord", obj.get_metadata_root_record(path), tag)
        obj.add_dataset(MetadataPath("zz/" + tag),
                        MetadataRootRecord(UUID(int=77), "v77", None, None))
    elif cls in ("VersionList", "TreeVersionList"):
        for version, prefix in list(obj.versions_and_prefix_paths())[:1]:
            element = obj.get_versioned_element(version, prefix)[2]
            modify(type(element).__name__, element, tag)
        obj.set_versioned_element("zz" + tag, "99", MetadataPath(""), DatasetTree())
    elif cls == "UUIDSet":
        for ident in sorted(obj.uuids(), key=str)[:1]:
            modify("VersionList", obj.get_version_list(ident), tag)
        obj.set_version_list(UUID(int=78 + len(tag)), VersionList())
    elif cls == "Text":
        obj.content = (obj.content or "") + tag
        obj.touch()


def touch_some(cls, obj):
    """load only a part"""
    if cls == "FileTree":
        obj.get_metadata(MetadataPath("d/e/f"))
    elif cls == "DatasetTree":
        obj.get_metadata_root_record(MetadataPath("a/b"))
    elif cls == "MetadataRootRecord":
        obj.get_file_tree()
    elif cls in ("VersionList", "TreeVersionList"):
        list(obj.versions())
    elif cls == "UUIDSet":
        list(obj.uuids())
    else:
        obj.ensure_mapped()


def source(world, cls, shape, state):
    """(object, expected content)"""
    realm = world.realms["R"]
    world.reset()
    obj = BUILD[cls](shape)
    expected = DOC[cls](shape)
    if state == "memory":
        return obj, expected
    reference = obj.write_out(realm)
    if state == "released":
        obj.purge()
    elif state in ("loaded", "partial", "reloaded-modified"):
        world.new_session()
        obj = unloaded(cls, realm, reference)
        if state == "partial":
            touch_some(cls, obj)
    if state in ("modified", "reloaded-modified"):
        obj.ensure_mapped()
        modify(cls, obj, "m")
        other = BUILD[cls](shape)
        modify(cls, other, "m")
        expected = READ[cls](other)
    return obj, expected


def prefixed(cls, doc, prefix):
    if not prefix or cls not in ("VersionList", "TreeVersionList"):
        return doc
    return {(v, "/".join(p for p in (prefix, path) if p)): value
            for (v, path), value in doc.items()}


def store_of(world, name):
    return dict(world.repo(name).refs), dict(world.repo(name).objects)


def case(item):
    cls, shape, state, target, prefix = item
    world = W.get_world(("R", "C"))
    destination = world.realms[target]
    read = READ[cls]
    obj, expected = source(world, cls, shape, state)
    before = store_of(world, "R")

    kwargs = {"path_prefix": MetadataPath(prefix)} if prefix else {}
    copied = obj.deepcopy("git", destination, **kwargs)
    copy_doc = prefixed(cls, expected, prefix)
    after = store_of(world, "R")
    if target != "R" and after != before:
        raise Violation(f"{cls}: copying to another realm changed the realm of the source")
    if not before[1].items() <= after[1].items():
        raise Violation(f"{cls}: copying removed stored objects")
    snapshot = world.snapshot()

    # modifications of either side do not show in the other one
    expect(read(copied), copy_doc, "content of the copy", cls)
    expect(read(obj), expected, "content of the source after copying", cls)
    modify(cls, copied, "c")
    expect(read(obj), expected, "content of the source after a modification of the copy", cls)
    modified_copy = read(copied)
    modify(cls, obj, "s")
    expect(read(copied), modified_copy, "content of the copy after a modification of the source",
           cls)
    modified_source = read(obj)
    source_reference = obj.write_out(world.realms["R"])
    copy_reference = copied.write_out(destination)
    world.new_session()
    expect(read(unloaded(cls, world.realms["R"], source_reference)), modified_source,
           "modified and saved source in a new process", cls)
    expect(read(unloaded(cls, destination, copy_reference)), modified_copy,
           "modified and saved copy in a new process", cls)

    # completely stored: the source realm disappears
    obj, _ = source(world, cls, shape, state)
    copied = obj.deepcopy("git", destination, **kwargs)
    reference = copied.write_out(destination)
    flush_object_references(Path(destination))
    if target != "R":
        world.repo("R").objects.clear()
        world.repo("R").refs.clear()
    expect(read(copied), copy_doc, "content of the copy without the source realm", cls)
    world.new_session()
    expect(read(unloaded(cls, destination, reference)), copy_doc,
           "content of the copy in a new process without the source realm", cls)
    if cls in ("TreeVersionList", "UUIDSet"):
        missing = world.repo(target).gc()
        if missing:
            raise Violation(f"{cls}: references to missing objects after copying")
        world.new_session()
        tvl, uuids = load(destination)
        got = read_version_list(tvl) if cls == "TreeVersionList" else read_uuid_set(uuids)
        expect(got, copy_doc, "published copy after garbage collection", cls)

    # the unsaved source is saved after it was copied
    obj, _ = source(world, cls, shape, state)
    obj.deepcopy("git", destination, **kwargs)
    reference = obj.write_out(world.realms["R"])
    world.new_session()
    expect(read(unloaded(cls, world.realms["R"], reference)), expected,
           "source saved after copying, in a new process", cls)
    return repr((cls, expected)) if expected else None


def items(full):
    for cls, shape in all_shapes(full):
        for state in STATES:
            for target in ("C", "R"):
                prefixes = ("",)
                if cls in ("VersionList", "TreeVersionList"):
                    prefixes = ("", "x/y")
                for prefix in prefixes:
                    yield cls, shape, state, target, prefix


# -- copies in the course of a session ----------------------------------------
OPS = [("run", "T", "", "a"), ("run", "T", "s/d", None), ("run", "U", "", "a"), ("delete", "s"),
       ("tree2",), ("write", "meta", "T", "", "a"), ("write", "files", "T", ""),
       ("write", "record", "T", ""), ("write", "tree"), ("write", "versions", ""),
       ("purge", "files", "T", ""), ("purge", "record", "T", ""), ("purge", "tree"),
       ("purge", "versions", ""), ("purge", "tvl"), ("purge", "uuids"), ("unget", "tree"),
       ("unget", "record", "U", ""), ("save",), ("reload",), ("copy",)]


class Machine(SessionMachine):
    realm_names = ("R", "C")
    flush = True

    def enabled(self, state, op):
        return True if op[0] == "copy" else super().enabled(state, op)

    def op_copy(self, state):
        """copy everything, the session continues with its own objects"""
        expected = state.model.doc()
        destination = state.world.realms["C"]
        before = store_of(state.world, "R")
        state.tvl.deepcopy(None, destination)
        state.uuids.deepcopy(None, destination)
        flush_object_references(Path(destination))
        if store_of(state.world, "R") != before:
            raise Violation("copying to another realm changed the realm of the source")
        state.copied = expected

    def check(self, state, history):
        expected = state.model.doc()
        stored = state.model.stored
        self.op_copy(state)
        acc = Access(state)
        singles = []
        for side, ds in (("T", ""), ("T", "s/d"), ("U", "")):
            rrecord = acc.r_record(side, ds)
            if rrecord is not None:
                record = acc.record(side, ds).deepcopy(None, state.world.realms["C"])
                singles.append((record.write_out(), rrecord.doc()))
        self.op_save(state)
        self.expect("content of the source in a new process", self.fresh(state), expected)
        repo = state.world.repo("R")
        saved = repo.copy()
        repo.objects.clear()
        repo.refs.clear()
        state.world.new_session()
        for reference, doc in singles:
            got = READ["MetadataRootRecord"](
                unloaded("MetadataRootRecord", state.world.realms["C"], reference))
            self.expect("copied root record in a new process", got, doc)
        state.world.repo("C").gc()
        self.expect("copy in a new process without the source realm",
                    fresh_content(state.world, "C"), expected)
        repo.objects, repo.refs = saved.objects, saved.refs


def run(ctx):
    values = run_cases(ctx, case, list(items(not ctx.quick)))
    ctx.count("evaluations", len(values))
    ctx.count("distinct_nontrivial", len({v for v in values if v}))
    ctx.note("rule", "all shapes of mc/shapes.py x source states x destinations x path prefixes; "
                     "non-trivial: the content is not empty; distinct: by class and content")
    search = Search(ctx, Machine(OPS, ("stored", "memory", "unsaved")),
                    depth=2 if ctx.quick else 3).run()
    repos, expected, kept = [], [], []
    for history in search.selection(5 if ctx.quick else 25):
        machine = Machine(OPS)
        state = machine.start(history[0])
        for op in history[1:]:
            machine.apply(state, op)
        with Trace(state.world) as trace:
            machine.op_copy(state)
        validate_trace(ctx, trace)
        repos.append(state.world.repo("C").copy())
        expected.append(state.copied)
        kept.append(history)
    for history, content, result in zip(kept, expected, real_read(repos)):
        if result != ("ok", content):
            ctx.violation(f"copy read by a new process with the real git differs: "
                          f"{result!r:.500} instead of {content!r:.500}", history,
                          "real process reads other content")
        ctx.count("real_process_reads")
    ctx.assume("survival of garbage collection: for copies that are published, i.e. tree version "
               "lists and UUID sets and everything in them")


def replay(item):
    if item and item[0] in BUILD:
        return case(item)
    machine = Machine(OPS)
    machine.check(Search(None, machine, 0).replay(item), item)
