"""C19: batched writing is equivalent to immediate writing"""
import itertools

from ..content import (
    ExtractorConfiguration, FileTree, Metadata, MetadataPath, MetadataRootRecord, Path, UUID,
    DatasetTree, TreeVersionList, diff, flush_object_references, read_file_tree,
    read_version_list, load,
)
from ..conformance import Trace, validate_trace
from ..framework import Violation, run_cases
from ..shapes import unloaded
from .. import gitmodel
from .. import world as W

from dataladmetadatamodel.mapper.gitmapper import metadatamapper    # noqa: E402
from dataladmetadatamodel.mapper.gitmapper.gitblobcache import GitBlobCache     # noqa: E402

LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of store sequences and batch sizes, real code on a git model"
NOTE = ("All sequences of blobs and flushes up to the stated length for batch sizes 1 to 4 through "
        "the write cache; all numbers of metadata objects around every multiple of small batch "
        "sizes and around the default batch size through file trees; references, stored objects "
        "and object references are compared with immediate writing.")

BLOBS = ("", "a", "\u00e9\r\n\u2028\U0001f600", b"", b"\xff\x00\n", b"a", "b")


def data(blob):
    return blob.encode() if isinstance(blob, str) else bytes(blob)


def cache_case(item):
    """item: (maxsize, sequence of blob numbers or "flush")"""
    size, sequence = item
    world = W.get_world()
    world.reset()
    realm = world.realms["R"]
    cache = GitBlobCache(realm, size)
    handed = []
    try:
        for step in sequence:
            if step == "flush":
                cache.flush()
                check_stored(world, handed, "after a flush")
            else:
                blob = BLOBS[step]
                sha = cache.cache_blob(realm, blob)
                expected = gitmodel.obj_id("blob", data(blob))
                if sha != expected:
                    raise Violation(f"reference of {blob!r} is {sha} instead of {expected}",
                                    "reference differs from immediate writing")
                handed.append((sha, data(blob)))
        cache.flush()
    finally:
        cache.discard() if hasattr(cache, "discard") else None
    check_stored(world, handed, "at the end")
    objects = {s: d for s, (k, d) in world.repo().objects.items()}
    expected = dict(handed)
    if objects != expected:
        raise Violation(f"stored objects {objects!r:.200} instead of {expected!r:.200}",
                        "stored objects differ from immediate writing")
    return len(handed) > size


def check_stored(world, handed, when):
    objects = world.repo().objects
    for sha, content in handed:
        if objects.get(sha) != ("blob", content):
            raise Violation(f"{content!r} is not stored {when}", "not stored after flush")


# -- file trees ---------------------------------------------------------------
class Small:
    """the cache of the metadata mapper with another batch size"""

    def __init__(self, size):
        self.size = size

    def __enter__(self):
        self.original = getattr(metadatamapper, "GitBlobCache", None)
        if self.original is not None and self.size is not None:
            original, size = self.original, self.size

            def create(realm, *args, **kwargs):
                return original(realm, size)
            metadatamapper.GitBlobCache = create

    def __exit__(self, *exc):
        if self.original is not None:
            metadatamapper.GitBlobCache = self.original


def meta(number, kinds):
    result = Metadata()
    text = {"all": f"\u00e9{number}", "pairs": str(number // 2), "same": "x"}[kinds]
    if text != "0":
        result.add_extractor_run(1.0, "e", "n", "m", ExtractorConfiguration("1", {}), text)
    return result


def build(spec):
    number, kinds, layout = spec
    tree = FileTree()
    metas = []
    for i in range(number):
        path = {"flat": f"f{i}", "deep": f"d{i % 3}/e{i % 2}/f{i}"}[layout]
        metas.append(meta(i, kinds))
        tree.add_metadata(MetadataPath(path), metas[-1])
    return tree, metas


def outcome(world, reference):
    realm = world.realms["R"]
    flush_object_references(Path(realm))
    refs = dict(world.repo().refs)
    world.new_session()
    if reference.is_none_reference():
        return str(reference), refs, None, {}
    content = read_file_tree(unloaded("FileTree", realm, reference))
    return str(reference), refs, dict(world.repo().objects), content


def tree_case(item):
    size, spec = item
    world = W.get_world()
    realm = world.realms["R"]
    world.reset()
    tree, metas = build(spec)
    for m in metas:
        m.write_out(realm)
    immediate = outcome(world, tree.write_out(realm))
    world.reset()
    with Small(size):
        tree, metas = build(spec)
        reference = tree.write_out(realm)
        for m in metas:
            for location in (m.reference.location,):
                if location not in world.repo().objects:
                    raise Violation(f"metadata {location} is not stored after the tree was saved",
                                    "not stored after flush")
        # all objects of the batch are flushed, the next save writes only the changed one
        batched = outcome(world, reference)
    for what, a, b in zip(("reference", "references", "objects", "content"), immediate, batched):
        if a != b:
            raise Violation(f"batch size {size}, {spec}: {what} differ from immediate writing "
                            f"(immediate / batched): {diff(a, b)}", f"{what} differ")
    return spec[0] > (size or 1000) // 2


def record_case(item):
    """several trees in one save, on two realms"""
    size, numbers = item
    world = W.get_world(("R", "S"))
    world.reset()
    result = []
    for immediate in (True, False):
        world.reset()
        with Small(size):
            for realm in ("R", "S"):
                world.new_session()
                path = world.realms[realm]
                datasets = DatasetTree()
                for i, number in enumerate(numbers):
                    tree, metas = build((number, "all", "flat"))
                    dlm = meta(i, "pairs")
                    if immediate:
                        for m in metas + [dlm]:
                            m.write_out(path)
                    datasets.add_dataset(
                        MetadataPath(f"d{i}"), MetadataRootRecord(UUID(int=i), "v", dlm, tree))
                versions = TreeVersionList()
                versions.set_dataset_tree("v", "1", MetadataPath(""), datasets)
                versions.write_out(path)
                flush_object_references(Path(path))
                world.new_session()
                result.append((dict(world.repo(realm).refs), dict(world.repo(realm).objects),
                               read_version_list(load(path)[0])))
    for a, b in ((0, 2), (1, 3)):
        if result[a] != result[b]:
            raise Violation(f"trees with {numbers} entries, batch size {size}: "
                            f"{diff(result[a], result[b])}", "records differ")
    return any(n > (size or 1000) // 2 for n in numbers)


def dispatch(item):
    return {"cache": cache_case, "tree": tree_case, "record": record_case}[item[0]](item[1])


def cases(full):
    steps = list(range(len(BLOBS))) + ["flush"]
    length = 5 if full else 4
    for size in (1, 2, 3, 4):
        for n in range(length + 1):
            for sequence in itertools.product(steps, repeat=n):
                yield "cache", (size, sequence)
        # longer sequences over less blobs
        for sequence in itertools.product((1, 2, "flush"), repeat=9 if full else 7):
            yield "cache", (size, sequence)
    for size in range(1, 9 if full else 7):
        for number in range(0, 14 if full else 10):
            for kinds in ("all", "pairs", "same"):
                for layout in ("flat", "deep"):
                    yield "tree", (size, (number, kinds, layout))
    for size in (1, 2, 3, 4):
        for numbers in itertools.product(range(0, 4), repeat=3 if full else 2):
            yield "record", (size, numbers)
    boundary = (998, 999, 1000, 1001, 1002)
    if full:
        boundary += (1999, 2000, 2001, 2002, 3000, 3001)
    for number in boundary:
        for kinds in ("all", "pairs"):
            yield "tree", (None, (number, kinds, "flat"))


def run(ctx):
    items = list(cases(not ctx.quick))
    items.sort(key=lambda i: i[1][0] is None, reverse=True)
    values = run_cases(ctx, dispatch, items, chunk=8)
    ctx.count("evaluations", len(values))
    ctx.count("distinct_nontrivial", sum(1 for v in values if v))
    ctx.note("rule", "non-trivial: more objects than fit into one batch")
    for item in items[::max(1, len(items) // 8)]:
        ctx.sample(item)
    world = W.get_world()
    for size in (2, 3):
        world.reset()
        with Trace(world) as trace, Small(size):
            for kinds in ("all", "pairs", "same"):
                build((7, kinds, "deep"))[0].write_out(world.realms["R"])
        validate_trace(ctx, trace)
    ctx.assume("batch sizes of at least 1; default batch size 2000 blobs, i.e. 1000 metadata "
               "objects")


def replay(item):
    return dispatch(item)
