"""
Small model shapes as nested tuples, builders for the real objects and the
content they must have.

metadata: tuple of runs (extractor, cfg_version, cfg_params_json, stamp, name,
          mail, content_json)
files:    None | tuple of (path, metadata)
record:   (uuid int | None, version | None, dlm: None | metadata, files)
tree:     ("tree", tuple of (path, record))
versions: tuple of (version, prefix, stamp, element)   element: tree | ("mrr", record)
uuids:    tuple of (uuid int, versions)
"""
import itertools
import json

from .content import *      # noqa: F401,F403
from .content import (
    UUID, DatasetTree, ExtractorConfiguration, FileTree, Metadata, MetadataPath,
    MetadataRootRecord, Text, TreeVersionList, UUIDSet, VersionList, Reference,
    freeze, read_element, read_file_tree, read_metadata, read_mrr, read_tree,
    read_uuid_set, read_version_list,
)


# -- building ---------------------------------------------------------------
def metadata(spec):
    result = Metadata()
    for extractor, version, parameter, stamp, name, mail, content in spec:
        result.add_extractor_run(
            stamp, extractor, name, mail,
            ExtractorConfiguration(version, json.loads(parameter)), json.loads(content))
    return result


def files(spec):
    if spec is None:
        return None
    result = FileTree()
    for path, meta in spec:
        result.add_metadata(MetadataPath(path), metadata(meta))
    return result


def record(spec):
    ident, version, dlm, file_spec = spec
    return MetadataRootRecord(
        None if ident is None else UUID(int=ident), version,
        None if dlm is None else metadata(dlm), files(file_spec))


def tree(spec):
    result = DatasetTree()
    for path, rec in spec[1]:
        result.add_dataset(MetadataPath(path), record(rec))
    return result


def element(spec):
    return tree(spec) if spec[0] == "tree" else record(spec[1])


def versions(spec, cls=VersionList):
    result = cls()
    for version, prefix, stamp, elem in spec:
        result.set_versioned_element(version, stamp, MetadataPath(prefix), element(elem))
    return result


def uuids(spec):
    result = UUIDSet()
    for ident, vers in spec:
        result.set_version_list(UUID(int=ident), versions(vers))
    return result


BUILD = {
    "Text": lambda s: Text(s), "Metadata": metadata, "FileTree": files,
    "MetadataRootRecord": record, "DatasetTree": tree, "VersionList": versions,
    "TreeVersionList": lambda s: versions(s, TreeVersionList), "UUIDSet": uuids}


# -- expected content ---------------------------------------------------------
def metadata_doc(spec):
    result = {}
    for extractor, version, parameter, stamp, name, mail, content in spec or ():
        result.setdefault(extractor, {})[version, freeze(json.loads(parameter))] = (
            stamp, name, mail, freeze(json.loads(content)))
    return result


def files_doc(spec):
    return {p: metadata_doc(m) for p, m in spec or ()}


def record_doc(spec):
    return {"id": None if spec[0] is None else str(UUID(int=spec[0])), "version": spec[1],
            "dlm": metadata_doc(spec[2]), "files": files_doc(spec[3])}


def tree_doc(spec):
    return {p: record_doc(r) for p, r in spec[1]}


def element_doc(spec):
    return ("tree", tree_doc(spec)) if spec[0] == "tree" else ("mrr", record_doc(spec[1]))


def versions_doc(spec, prepend=""):
    def join(prefix):
        return "/".join(p for p in (prepend, prefix) if p)
    return {(v, join(p)): (s, element_doc(e)) for v, p, s, e in spec}


def uuids_doc(spec):
    return {str(UUID(int=u)): versions_doc(v) for u, v in spec}


DOC = {
    "Text": lambda s: s, "Metadata": metadata_doc, "FileTree": files_doc,
    "MetadataRootRecord": record_doc, "DatasetTree": tree_doc, "VersionList": versions_doc,
    "TreeVersionList": versions_doc, "UUIDSet": uuids_doc}


def read_text(text):
    text.ensure_mapped()
    return text.content


READ = {
    "Text": read_text, "Metadata": read_metadata, "FileTree": read_file_tree,
    "MetadataRootRecord": read_mrr, "DatasetTree": read_tree,
    "VersionList": read_version_list, "TreeVersionList": read_version_list,
    "UUIDSet": read_uuid_set}


def unloaded(cls, realm, reference):
    """object of the given class in a process that only knows the reference"""
    new = Reference(reference.class_name, reference.location)
    return {
        "Text": lambda: Text(None, realm, new),
        "Metadata": lambda: Metadata(realm, new),
        "FileTree": lambda: FileTree(realm=realm, reference=new),
        "MetadataRootRecord": lambda: MetadataRootRecord.get_empty_instance(realm, new),
        "DatasetTree": lambda: DatasetTree(realm=realm, reference=new),
        "VersionList": lambda: VersionList(realm=realm, reference=new),
        "TreeVersionList": lambda: TreeVersionList(realm=realm, reference=new),
        "UUIDSet": lambda: UUIDSet(realm=realm, reference=new)}[cls]()


# -- enumeration ------------------------------------------------------------
def subsets(items, most=None):
    items = list(items)
    for size in range(len(items) + 1 if most is None else most + 1):
        yield from itertools.combinations(items, size)


STAMPS = (1.5, 0, 1700000000.123456)
NAMES = ("a b", "", "\u00e9\u4e2d \U0001f600", "x\ny\r\n\"'\\")
CONTENTS = ("null", "true", "0", "1.5", '""', '"\\u00e9\\u2028\\u0000"', "[]", "{}",
            '[1, null, {"a": [{}]}]', '{"b": 1, "a": {"": "x\\r\\ny\\tz"}}', "123456789012345678901",
            '"line\\nline"', "-0.0", "1e300")
PARAMS = ("{}", '{"p": 1}', '{"p": "1"}', '{"q": [1, {"r": null}], "p": 1}', '{"p": 1.5}')
RUN = ("e", "1", "{}", 1.5, "n", "m", '{"x": 1}')
RUN2 = ("f", "2", '{"p": 1}', 2.5, "n", "m", '{"y": [1]}')
META = (RUN,)


def metadata_shapes(full):
    yield ()
    for content in CONTENTS:
        yield (("e", "1", "{}", 1.5, "n", "m", content),)
    for name in NAMES:
        yield ((name or "e", name, "{}", 1.5, name, name, '{"k": 1}'),)
    for stamp in STAMPS:
        yield (("e", "1", "{}", stamp, "n", "m", "{}"),)
    space = [(e, v, p) for e in ("e", "f") for v in ("1", "2") for p in PARAMS]
    for chosen in subsets(space, 3 if full else 2):
        if chosen:
            yield tuple((e, v, p, 1.0, "n", "m", json.dumps(i))
                        for i, (e, v, p) in enumerate(chosen))
    # replaced runs, in any order of recording
    base = [("e", "1", "{}", 1.0, "n", "m", "1"), ("e", "1", '{"p": 1}', 2.0, "n", "m", "2"),
            ("e", "1", "{}", 3.0, "n", "m", "3"), ("f", "1", "{}", 3.0, "n", "m", "1")]
    for size in (2, 3, 4):
        yield from itertools.permutations(base, size)


PATHS = ("a", "b", "d/a", "d/e/f", "d/e/g/h")


def file_shapes(full):
    yield ()
    for chosen in subsets(PATHS):
        if chosen:
            yield tuple((p, META) for p in chosen)
    for chosen in subsets(PATHS[:4]):
        for empty in range(len(chosen)):
            yield tuple((p, () if i == empty else (RUN2,)) for i, p in enumerate(chosen))
    if full:
        for chosen in itertools.permutations(PATHS, 3):
            yield tuple((p, (RUN, RUN2)) for p in chosen)


def record_shapes(full):
    for ident in (1, 2 ** 128 - 1, None):
        for version in ("v1", "", None, "None", "a b/\u00e9\"\n"):
            for dlm in (None, (), META, (RUN, RUN2)):
                for file_spec in (None, (), (("a", META),), (("d/e/f", META), ("a", ()))):
                    yield (ident, version, dlm, file_spec)


R_FULL = (1, "v1", META, (("a", META), ("d/b", (RUN2,))))
R_NONE = (2, "v2", None, None)
R_EMPTY = (3, "v3", (), ())
R_DLM = (4, "v4", META, None)
R_FILES = (5, "v5", None, (("x", META),))
R_ANONYMOUS = (None, None, META, None)
RECORDS = (R_FULL, R_ANONYMOUS, R_NONE, R_EMPTY, R_DLM, R_FILES)
DATASET_PATHS = ("", "a", "a/b", "c/d/e")


def tree_shapes(full):
    yield ("tree", ())
    for chosen in subsets(DATASET_PATHS):
        if chosen:
            for rec in RECORDS:
                yield ("tree", tuple((p, rec) for p in chosen))
    for first, second in itertools.permutations(RECORDS, 2):
        for a, b in itertools.combinations(DATASET_PATHS, 2):
            yield ("tree", ((a, first), (b, second)))
    if full:
        for records in itertools.product(RECORDS, repeat=3):
            yield ("tree", tuple(zip(DATASET_PATHS, records)))


ELEMENTS = (("tree", ()), ("tree", (("", R_FULL),)), ("tree", (("", R_NONE), ("a/b", R_EMPTY))),
            ("mrr", R_FULL), ("mrr", R_NONE), ("mrr", R_EMPTY))
AWKWARD = (".hidden", "dot.", "..x", ". .", " lead", "trail ", "a b", "-", "~", "*", "#", "@{0}",
           "\u00e9", "e\u0301", "\u4e2d", "\U0001f600", "q\"", "'", "\\", "a\\nb", "tab\t",
           "line\nline", "\r", "\u2028", "\x7f", "null", "0", "*None*", "refs/x", "x.git", "A", "a")
KEYS = (("v1", ""), ("v1", "p/q"), ("v2", ""), ("v2", "p q/\u00e9"))


def version_shapes(full, trees_only=False):
    elements = [e for e in ELEMENTS if e[0] == "tree" or not trees_only]
    yield ()
    for name in AWKWARD:
        yield ((name, name, name, elements[0]), (name, "d/" + name + "/e", "1", elements[1]),
               ("v1", name, "2", elements[2]), (name + " ", "", "3", elements[0]))
    for size in (1, 2, 3) if full else (1, 2):
        for keys in itertools.combinations(KEYS, size):
            for elems in itertools.product(elements, repeat=size):
                yield tuple((v, p, f"{i}.5", e)
                            for i, ((v, p), e) in enumerate(zip(keys, elems)))


def uuid_shapes(full):
    yield ()
    some = [(), (("v1", "", "1", ("mrr", R_FULL)),),
            (("v1", "", "1", ("mrr", R_NONE)), ("v1", "p", "2", ("tree", ()))),
            (("v2", "", "1", ("mrr", R_EMPTY)), ("v1", "", "0", ("mrr", R_FILES)))]
    for size in (1, 2, 3) if full else (1, 2):
        for idents in itertools.combinations((1, 2, 2 ** 128 - 1), size):
            for vers in itertools.product(some, repeat=size):
                yield tuple(zip(idents, vers))


def texts(full):
    alphabet = "a \n\r\t\u00e9\u2028\x0b\x85\U0001f600\x00"
    for size in range(4 if full else 3):
        for chars in itertools.product(alphabet, repeat=size):
            yield "".join(chars)


def all_shapes(full=False):
    seen = set()
    for cls, shapes in (
            ("Text", texts(full)), ("Metadata", metadata_shapes(full)),
            ("FileTree", file_shapes(full)), ("MetadataRootRecord", record_shapes(full)),
            ("DatasetTree", tree_shapes(full)), ("VersionList", version_shapes(full)),
            ("TreeVersionList", version_shapes(full, True)), ("UUIDSet", uuid_shapes(full))):
        for shape in shapes:
            if (cls, shape) not in seen:
                seen.add((cls, shape))
                yield cls, shape
