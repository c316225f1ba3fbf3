"""C21: foreign format versions are rejected, old class names are accepted"""
import itertools
import json

from ..content import *     # noqa: F401,F403
from ..content import (
    ExtractorConfiguration, Metadata, Reference, TreeVersionList, UUIDSet, Path, diff,
    flush_object_references, load, read_realm, read_top,
)
from ..conformance import Trace, real_read, validate_trace
from ..framework import Violation, run_cases
from .. import gitmodel, shapes
from .. import world as W

LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of mutated stores through the real code on a git model"
NOTE = ("For complete stored models, every place in any stored object where a format version is "
        "recorded times a set of replacement versions (and pairs of places in the thorough "
        "tier), with all containers rebuilt; every reference times former class names and former "
        "additional fields, alone and all together.")

VERSIONS = ("1.0", "2.1", "3.0", "2", "", "2.0 ", " 2.0", "2.0.0", "02.0", "x", None, 2, 2.0, [],
            ["2.0"], True)
TREES = {
    "rich": (("v1", "", "1.5", ("tree", (("", shapes.R_FULL), ("a/b", shapes.R_FILES),
                                         ("c", shapes.R_DLM), ("e", shapes.R_NONE)))),
             ("v2", "p/q", "2.5", ("tree", (("", shapes.R_DLM),)))),
}
UUIDS = ((1, (("v1", "", "1", ("mrr", shapes.R_FULL)),)),
         (5, (("v5", "p", "2", ("mrr", shapes.R_FILES)),
              ("v6", "", "3", ("tree", (("", shapes.R_FULL),))))))


def stored(world):
    """snapshot of a realm with a complete model and its content"""
    world.reset()
    realm = world.realms["R"]
    tvl = shapes.versions(TREES["rich"], TreeVersionList)
    uuids = shapes.uuids(UUIDS)
    tvl.write_out(realm)
    uuids.write_out(realm)
    flush_object_references(Path(realm))
    world.new_session()
    content = read_realm(realm)
    expected = {"tvl": shapes.versions_doc(TREES["rich"]), "uuid": shapes.uuids_doc(UUIDS)}
    assert content == expected, diff(expected, content)
    return world.snapshot(), content


def places(value, path=()):
    """paths of all dictionaries with a recorded format version"""
    if isinstance(value, dict):
        if isinstance(value.get("@"), dict) and "version" in value["@"]:
            yield path
        for k, v in value.items():
            yield from places(v, path + (k,))
    elif isinstance(value, list):
        for i, v in enumerate(value):
            yield from places(v, path + (i,))


def at(value, path):
    for step in path:
        value = value[step]
    return value


def decoded(data):
    try:
        return json.loads(data)
    except ValueError:
        return None


def all_places(repo):
    seen, _ = repo.reachable()
    # also the objects that are mentioned in texts
    seen = set(repo.objects)
    result = []
    for sha in sorted(seen):
        kind, data = repo.objects[sha]
        if kind == "blob":
            value = decoded(data)
            if value is not None:
                for path in places(value):
                    result.append((sha, path))
    return result


def rebuild(repo, mutate):
    """
    The repository with mutated objects, all containers refer to the new ones.

    mutate(sha, JSON value) -> JSON value or None
    """
    new = gitmodel.Repo()
    memo = {}
    known = [s for s in repo.objects]

    def visit(sha):
        if sha in memo:
            return memo[sha]
        memo[sha] = sha             # not reached, there are no cycles
        kind, data = repo.objects[sha]
        if kind == "tree":
            entries = []
            for mode, name, child in gitmodel.decode_tree(data):
                entries.append((mode, name, visit(child) if child in repo.objects else child))
            memo[sha] = new.put("tree", gitmodel.encode_tree(entries))
            return memo[sha]
        value = decoded(data)
        if value is not None:
            changed = mutate(sha, value)
            if changed is not None:
                data = json.dumps(changed).encode()
        for other in known:
            if other != sha and other.encode() in data:
                data = data.replace(other.encode(), visit(other).encode())
        memo[sha] = new.put("blob", data)
        return memo[sha]

    for name, sha in repo.refs.items():
        if name != "refs/datalad/object-references-2.0":
            new.refs[name] = visit(sha)
    return new


_BASE = {}


def base(world):
    key = id(world)
    if key not in _BASE:
        _BASE[key] = stored(world)
    return _BASE[key]


def install(world, repo):
    world.reset()
    key = next(iter(world.git.repos))
    world.git.repos[key] = repo


def read_parts(realm):
    """reads every top-level object and whatever can be reached one by one;
    returns the documents that could be read and the number of errors"""
    errors = 0
    try:
        tvl, uuids = load(realm)
    except Exception:
        return {}, 1
    documents = {}
    for name, top in (("tvl", tvl), ("uuid", uuids)):
        try:
            documents[name] = read_top(tvl if name == "tvl" else None,
                                       uuids if name == "uuid" else None)[name]
        except Exception:
            errors += 1
    return documents, errors


def version_case(item):
    """item: ((sha, path, version), ...)"""
    world = W.get_world()
    snapshot, content = base(world)
    repo = next(iter(snapshot.values()))
    wanted = {}
    for sha, path, version in item:
        wanted.setdefault(sha, []).append((path, version))

    def mutate(sha, value):
        if sha not in wanted:
            return None
        for path, version in wanted[sha]:
            at(value, path)["@"]["version"] = version
        return value

    install(world, rebuild(repo, mutate))
    realm = world.realms["R"]
    kinds = [at(decoded(repo.objects[sha][1]), path)["@"].get("type")
             for sha, path, _ in item]
    try:
        got = read_realm(realm)
    except Exception:
        pass
    else:
        same = "" if got == content else ", with other content"
        raise Violation(f"version {[v for _, _, v in item]!r} recorded in {kinds} was "
                        f"accepted{same}", f"foreign version accepted in {kinds}")
    # the parts that do not depend on the mutated objects are still read
    world.new_session()
    documents, errors = read_parts(realm)
    for name, document in documents.items():
        if document != content[name]:
            raise Violation(f"version {item[0][2]!r} in {kinds}: {name} reads "
                            f"{diff(content[name], document)}", "object made of foreign version")
    if errors == 0:
        raise Violation(f"no error with version {item[0][2]!r} in {kinds}", "no error")
    return 1


# -- objects read directly from JSON ---------------------------------------------
def direct_objects():
    meta = shapes.metadata((shapes.RUN, shapes.RUN2))
    yield "Metadata", json.loads(meta.to_json()), [lambda o: Metadata.from_json(json.dumps(o))]
    instances = meta.extractor_runs_for_extractor("e")
    yield "MetadataInstanceSet", json.loads(instances.to_json_str()), [
        type(instances).from_json_obj, lambda o: type(instances).from_json_str(json.dumps(o))]
    instance = next(iter(instances))
    yield "MetadataInstance", json.loads(instance.to_json_str()), [
        type(instance).from_json_obj, lambda o: type(instance).from_json_str(json.dumps(o))]
    yield "Reference", Reference("Text", "a" * 40).to_json_obj(), [
        Reference.from_json_obj, lambda o: Reference.from_json_str(json.dumps(o))]
    configuration = ExtractorConfiguration("1", {"p": 1})
    yield "ExtractorConfiguration", configuration.to_json_obj(), [
        ExtractorConfiguration.from_json_obj,
        lambda o: ExtractorConfiguration.from_json_str(json.dumps(o))]


def direct_case(item):
    number, path, version = item
    name, obj, readers = list(direct_objects())[number]
    obj = json.loads(json.dumps(obj))
    for reader in filter(None, readers):
        reader(json.loads(json.dumps(obj)))        # the unchanged form is accepted
        bad = json.loads(json.dumps(obj))
        at(bad, path)["@"]["version"] = version
        try:
            reader(bad)
        except Exception:
            continue
        raise Violation(f"{name} with version {version!r} at {path} was accepted",
                        f"foreign version accepted in {name}")
    return 1


# -- former forms -------------------------------------------------------------
FORMER = {"MTreeNode": ("FileTree", "DatasetTree")}


def reference_places(repo):
    """(sha, path, kind): kind of object the reference belongs to"""
    result = []
    for sha, (kind, data) in sorted(repo.objects.items()):
        if kind != "blob":
            continue
        value = decoded(data)
        if value is None:
            continue
        for path in places(value):
            entry = at(value, path)
            if entry["@"].get("type") == "Reference":
                result.append((sha, path, path[-1] if path else "metadata",
                               entry["class_name"]))
    return result


def former_names(place):
    sha, path, field, class_name = place
    if field == "file_tree":
        return [n for n in ("FileTree", "MTreeNode") if n != class_name]
    if field == "dataset_tree" and class_name != "MetadataRootRecord":
        return [n for n in ("DatasetTree", "MTreeNode") if n != class_name]
    return []


EXTRA = ({"mapper_family": "git", "realm": "/tmp/x"}, {"mapper_family": "git"}, {"realm": "/x"},
         {"realm": None, "mapper_family": None}, {"realm": "https://x.y/z"})


def former_case(item):
    """item: ((sha, path, class name or None, extra number or None), ...)"""
    world = W.get_world()
    snapshot, content = base(world)
    repo = next(iter(snapshot.values()))
    wanted = {}
    for sha, path, name, extra in item:
        wanted.setdefault(sha, []).append((path, name, extra))

    def mutate(sha, value):
        if sha not in wanted:
            return None
        for path, name, extra in wanted[sha]:
            entry = at(value, path)
            if name is not None:
                entry["class_name"] = name
            if extra is not None:
                entry.update(EXTRA[extra])
        return value

    install(world, rebuild(repo, mutate))
    realm = world.realms["R"]
    try:
        got = read_realm(realm)
    except Exception as error:
        raise Violation(f"former form {item!r:.300} can not be read: "
                        f"{type(error).__name__}: {str(error)[:200]}",
                        "former form can not be read")
    if got != content:
        raise Violation(f"former form {item!r:.300}: {diff(content, got)}",
                        "former form reads other content")
    # and they can be modified and saved again
    world.new_session()
    tvl, uuids = load(realm)
    record = tvl.get_dataset_tree("v1", MetadataPath(""))[2].get_metadata_root_record(
        MetadataPath("a/b"))
    record.file_tree.add_metadata(MetadataPath("new"), shapes.metadata(shapes.META))
    tvl.write_out(realm)
    uuids.write_out(realm)
    flush_object_references(Path(realm))
    world.new_session()
    got = read_realm(realm)
    expected = dict(content)
    tree = dict(content["tvl"])
    stamp, (kind, members) = tree["v1", ""]
    members = dict(members)
    members["a/b"] = dict(members["a/b"], files=dict(
        members["a/b"]["files"], new=shapes.metadata_doc(shapes.META)))
    tree["v1", ""] = (stamp, (kind, members))
    expected["tvl"] = tree
    if got != expected:
        raise Violation(f"former form {item!r:.300} after a modification: "
                        f"{diff(expected, got)}", "former form after modification")
    return 1




def dispatch(item):
    return {"version": version_case, "direct": direct_case, "former": former_case}[item[0]](
        item[1])


def cases(full):
    world = W.get_world()
    snapshot, _ = base(world)
    repo = next(iter(snapshot.values()))
    found = all_places(repo)
    for sha, path in found:
        for version in VERSIONS:
            yield "version", ((sha, path, version),)
    if full:
        for (a, p), (b, q) in itertools.combinations(found, 2):
            yield "version", ((a, p, "1.0"), (b, q, "1.0"))
    yield "version", tuple((s, p, "1.0") for s, p in found)
    for number, (name, obj, _) in enumerate(direct_objects()):
        for path in places(json.loads(json.dumps(obj))):
            for version in VERSIONS:
                yield "direct", (number, path, version)
    references = reference_places(repo)
    for place in references:
        for name in [None] + former_names(place):
            for extra in (None,) + tuple(range(len(EXTRA))):
                yield "former", ((place[0], place[1], name, extra),)
    for extra in (None,) + tuple(range(len(EXTRA))):
        yield "former", tuple((p[0], p[1], (former_names(p) or [None])[0], extra)
                              for p in references)
    for a, b in itertools.combinations(references, 2):
        yield "former", ((a[0], a[1], (former_names(a) or [None])[0], 0),
                         (b[0], b[1], (former_names(b) or [None])[0], 0))


def run(ctx):
    world = W.get_world()
    items = list(cases(not ctx.quick))
    snapshot, content = base(world)
    # control: rebuilding without a change of the content
    repo = next(iter(snapshot.values()))
    world.reset()
    install(world, rebuild(repo, lambda sha, value: value))
    if read_realm(world.realms["R"]) != content:
        raise RuntimeError("rebuilt store reads other content")
    result = real_read([rebuild(repo, lambda sha, value: value)])
    if result != [("ok", content)]:
        ctx.violation("real process reads other content", [], "real process")
    values = run_cases(ctx, dispatch, items)
    ctx.count("evaluations", sum(values))
    ctx.count("distinct_nontrivial", sum(values))
    ctx.note("rule", "every place and replacement is a case of its own")
    ctx.note("places_with_version", len(all_places(repo)))
    ctx.note("references", len(reference_places(repo)))
    for item in items[::max(1, len(items) // 8)]:
        ctx.sample(item)
    ctx.assume("a missing version field is not a foreign version; the types of objects are kept")


def replay(item):
    return dispatch(item)
