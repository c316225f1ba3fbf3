"""C07: every path name survives storage unchanged"""
import itertools

from ..content import *     # noqa: F401,F403
from ..content import (
    DatasetTree, ExtractorConfiguration, FileTree, Metadata, MetadataPath, MetadataRootRecord,
    TreeVersionList, UUID, load, read_metadata, read_version_list,
)
from ..conformance import Trace, real_read, validate_trace
from ..framework import Violation, run_cases
from .. import world as W
from ..shapes import unloaded

LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of small names through the real code on a git model"
NOTE = ("All names up to the stated length over an alphabet of special characters, every single "
        "character up to U+0250 and samples of the other planes, as file, directory and dataset "
        "name, alone and together with similar names, with both settings of core.quotepath; all "
        "single names are also stored and read by real processes with the real git.")

ALPHABET = "aA 1\"\\\t\n\r\x0b\x1c\x85\u2028\u00e9\u4e2d\U0001f600'-.*$`:~\x7f\x01"
SHORT = "a \"\\\t\n\r\u00e9n0t."
FIXED = ("a.b", "..a", "...", "-rf", "--", " a", "a ", "\"a\"", "\"a", "a\"", "\\n", "\\\\n",
         "\\303\\251", "\"\\303\\251\"", "100644 blob 0", "*None*", ".git", ".gitmodules",
         "a\tb\tc", "%s", "@", "@{", "HEAD", "refs", "tree", "blob\t", "\\u00e9", "e\u0301",
         "\ufeff", "\u200b", "con", "a\r\nb", "\r\n", "'", "$(x)", ";", "#", "!", "&", "|", "<",
         "a" * 255, "\u4e2d" * 85)


def singles():
    for code in range(1, 0x250):
        yield chr(code)
    for code in (0x2028, 0x2029, 0x3000, 0x4e2d, 0xac00, 0xe000, 0xfeff, 0xfffd, 0xffff,
                 0x10000, 0x1f600, 0x10ffff):
        yield chr(code)


def legal(name):
    return "/" not in name and "\0" not in name and name not in ("", ".", "..")


def names(full):
    seen = set()
    for name in itertools.chain(
            singles(), FIXED,
            ("".join(c) for c in itertools.product(ALPHABET, repeat=2)),
            ("".join(c) for c in itertools.product(SHORT, repeat=3)),
            ("".join(c) for c in itertools.product(SHORT, repeat=4)) if full else ()):
        if legal(name) and name not in seen:
            seen.add(name)
            yield name


def meta(text):
    result = Metadata()
    result.add_extractor_run(1.0, "e", "n", "m", ExtractorConfiguration("1", {}), text)
    return result


def value(text):
    return read_metadata(meta(text))


def file_paths(chosen):
    """the names as files and as directories"""
    result = {}
    for name in chosen:
        result[name + "_d/x"] = None    # keeps them apart from their use as file
        result[name] = None
        result["dir-1/" + name] = None
        result["dir-2/" + name + "/" + name] = None
    return list(result)


def case(item):
    quotepath, chosen = item
    world = W.get_world()
    world.reset()
    world.git.quotepath = quotepath
    realm = world.realms["R"]
    # file tree
    tree = FileTree()
    paths = file_paths(chosen)
    for path in paths:
        tree.add_metadata(MetadataPath(path), meta(path))
    tree.write_out(realm)
    reference = tree.reference
    world.new_session()
    tree = unloaded("FileTree", realm, reference)
    listed = {str(p): read_metadata(m) for p, m in tree.get_paths_recursive()}
    expected = {p: value(p) for p in paths}
    if listed != expected:
        missing = sorted(set(expected) - set(listed))
        extra = sorted(set(listed) - set(expected))
        raise Violation(f"file tree: paths {missing!r:.300} are listed as {extra!r:.300} after "
                        f"a reload" if missing or extra else
                        "file tree: paths are listed with other content", "file tree listing")
    for path in paths:
        found = tree.get_metadata(MetadataPath(path))
        if found is None or read_metadata(found) != expected[path]:
            raise Violation(f"file tree: path {path!r} is not found after a reload",
                            "file tree lookup")
        if MetadataPath(path) not in tree:
            raise Violation(f"file tree: {path!r} is not a member", "file tree membership")
    # dataset tree
    datasets = DatasetTree()
    paths = [n for n in chosen] + ["dir-1/" + n for n in chosen] + \
        ["dir-2/" + n + "/" + n for n in chosen]
    paths = [p for p in dict.fromkeys(paths) if ".datalad_metadata_root_record" not in p]
    for number, path in enumerate(paths):
        datasets.add_dataset(
            MetadataPath(path), MetadataRootRecord(UUID(int=number), path, None, None))
    versions = TreeVersionList()
    versions.set_dataset_tree("v", "1", MetadataPath(chosen[0]), datasets)
    versions.write_out(realm)
    world.new_session()
    versions = load(realm)[0]
    keys = [(v, str(p)) for v, p in versions.versions_and_prefix_paths()]
    if keys != [("v", chosen[0])]:
        raise Violation(f"version list: prefix path {chosen[0]!r} is listed as {keys}",
                        "prefix path")
    datasets = versions.get_dataset_tree("v", MetadataPath(chosen[0]))[2]
    listed = {str(p): (m.ensure_mapped(), m.dataset_version)[1] for p, m in datasets.dataset_paths}
    if listed != {p: p for p in paths}:
        raise Violation(f"dataset tree: paths {paths!r:.300} are listed as {listed!r:.300}",
                        "dataset tree listing")
    for path in paths:
        found = datasets.get_metadata_root_record(MetadataPath(path))
        if found is None or found.dataset_version != path:
            raise Violation(f"dataset tree: path {path!r} is not found after a reload",
                            "dataset tree lookup")
    # a further entry next to the loaded ones
    tree.add_metadata(MetadataPath("further"), meta("further"))
    for path in file_paths(chosen):
        try:
            tree.add_metadata(MetadataPath(path), meta("other"))
        except ValueError:
            continue
        raise Violation(f"file tree: existing path {path!r} was added again", "added twice")
    tree.write_out(realm)
    reference = tree.reference
    world.new_session()
    tree = unloaded("FileTree", realm, reference)
    listed = {str(p): read_metadata(m) for p, m in tree.get_paths_recursive()}
    if listed != dict(expected, further=value("further")):
        raise Violation(f"file tree: listing {sorted(listed)!r:.300} after adding a path",
                        "file tree listing after addition")
    return len(chosen)


def similar(name):
    """names that might be confused with the name"""
    result = [name]
    quoted = '"' + name.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
    for other in (quoted, name.strip(), name + "\n", name + "\r", '"' + name + '"',
                  name.encode().decode("latin-1"), name.replace("\\", "\\\\"),
                  name.replace("\t", "\\t"), name.replace("\n", "\\n"), name.replace("\n", " ")):
        if legal(other) and other not in result and len(other.encode()) < 250:
            result.append(other)
    return tuple(result)


def cases(full):
    for name in names(full):
        yield True, (name,)
        if any(ord(c) > 127 for c in name) or len(name) == 1 or full:
            yield False, (name,)
        if len(name) < 3:
            yield True, similar(name)
    everything = tuple(n for n in singles() if legal(n))
    for quotepath in (True, False):
        yield quotepath, everything


def run(ctx):
    items = list(cases(not ctx.quick))
    values = run_cases(ctx, case, items)
    ctx.count("evaluations", len(values))
    ctx.count("distinct_nontrivial", len(set(items)))
    ctx.note("rule", "a case is a set of names stored together; all are non-trivial")
    for item in items[::max(1, len(items) // 8)]:
        ctx.sample(item)
    # real git: all single characters and fixed names
    chosen = list(dict.fromkeys(n for n in list(singles()) + list(FIXED) if legal(n)))
    repos, expected = [], []
    for quotepath in (True, False):
        world = W.get_world()
        world.reset()
        world.git.quotepath = quotepath
        versions = TreeVersionList()
        datasets = DatasetTree()
        files = FileTree()
        for name in chosen:
            files.add_metadata(MetadataPath(name), meta(name))
            if ord(name[0]) < 0xc0 or ord(name[0]) > 0x240:
                datasets.add_dataset(MetadataPath("x", name), MetadataRootRecord(
                    UUID(int=1), name, None, None))
        datasets.add_dataset(MetadataPath(""), MetadataRootRecord(UUID(int=2), "f", None, files))
        versions.set_dataset_tree("v", "1", MetadataPath(""), datasets)
        with Trace(world) as trace:
            versions.write_out(world.realms["R"])
            world.new_session()
            loaded = load(world.realms["R"])[0]
            tree = loaded.get_dataset_tree("v", MetadataPath(""))[2]
            list(tree.get_metadata_root_record(MetadataPath("")).file_tree.get_paths_recursive())
        validate_trace(ctx, trace)
        content = read_version_list(loaded)
        repos.append((world.repo().copy(), quotepath))
        expected.append(content)
    for (repo, quotepath), content in zip(repos, expected):
        result = real_read([repo], quotepath)[0]
        if result != ("ok", {"tvl": content, "uuid": None}):
            ctx.violation(f"real process reads {result!r:.300}", [quotepath, chosen],
                          "real process reads other content")
        ctx.count("real_process_reads")
    ctx.assume("names without NUL and '/', encodable as UTF-8, other than '.' and '..'")


def replay(item):
    return case(item)
