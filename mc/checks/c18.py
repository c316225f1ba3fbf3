"""C18: adding objects to a stored tree is an exact merge"""
import itertools

from ..conformance import Trace, validate_trace
from ..framework import Violation, run_cases
from .. import gitmodel
from .. import world as W

W.setup()

from pathlib import Path    # noqa: E402
from dataladmetadatamodel.mapper.gitmapper.treeupdater import (     # noqa: E402
    EntryType, PathInfo, _get_dir, add_paths)

LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of small trees and small sets of additions, real code on a git model"
NOTE = ("All stored trees up to the stated depth over two names that sort around the directory "
        "separator, and all sequences of up to the stated number of additions (files and "
        "directories, equal and different objects, all paths up to depth 3); the stored result "
        "is compared with a map oracle, conflicts have to be refused.")

NAMES = ("a", "a-b")
SUBTREE = ("x",)            # content of directories that are added as an object
OLD = gitmodel.obj_id("blob", b"old")
SUB = gitmodel.obj_id("blob", b"sub")
NEW = [gitmodel.obj_id("blob", b"new%d" % i) for i in range(4)]


def trees(depth):
    """nested tuples (name, None | subtree)"""
    options = [None, "file"]
    if depth > 1:
        options += [t for t in trees(depth - 1) if t]
    for chosen in itertools.product(options, repeat=len(NAMES)):
        yield tuple((n, c) for n, c in zip(NAMES, chosen) if c is not None)


def additions(depth=3):
    for size in range(1, depth + 1):
        for path in itertools.product(NAMES, repeat=size):
            yield path, "F"
            yield path, "D"


def flat(tree, prefix=()):
    result = {}
    for name, sub in tree:
        if sub == "file":
            result[prefix + (name,)] = OLD
        else:
            result.update(flat(sub, prefix + (name,)))
    return result


def store(repo, tree):
    entries = []
    for name, sub in tree:
        if sub == "file":
            entries.append((b"100644", name.encode(), repo.put("blob", b"old")))
        else:
            entries.append((b"40000", name.encode(), store(repo, sub)))
    return repo.put("tree", gitmodel.encode_tree(entries))


def listing(repo, sha, prefix=()):
    """{path: hash}; no empty directories occur"""
    result = {}
    names = set()
    for mode, name, child in gitmodel.decode_tree(repo.objects[sha][1]):
        name = name.decode()
        if name in names:
            raise Violation(f"entry {'/'.join(prefix + (name,))} exists twice", "entry twice")
        names.add(name)
        if mode == b"40000":
            below = listing(repo, child, prefix + (name,))
            if not below:
                raise Violation(f"empty directory {name}", "empty directory")
            result.update(below)
        elif mode == b"100644":
            result[prefix + (name,)] = child
        else:
            raise Violation(f"mode {mode}", "mode")
    return result


def oracle(existing, infos):
    """the merged map, or None if the additions have to be refused"""
    paths = [p for p, _, _ in infos]
    if len(set(paths)) < len(paths):
        return None
    for p in paths:
        for q in paths:
            if len(q) > len(p) and q[:len(p)] == p:
                return None
    files = set(existing)
    directories = {f[:i] for f in files for i in range(1, len(f))}
    result = dict(existing)
    for path, kind, sha in infos:
        if any(path[:i] in files for i in range(1, len(path))):
            return None
        if path in (files if kind == "D" else directories):
            return None
        if kind == "D":
            for f in [f for f in result if f[:len(path)] == path]:
                del result[f]
            result[path + SUBTREE] = SUB
        else:
            result[path] = sha
    return result


def evaluate(world, repo, root, existing, infos):
    realm = Path(world.realms["R"])
    subtree = repo.put("tree", gitmodel.encode_tree(
        [(b"100644", b"x", repo.put("blob", b"sub"))]))
    expected = oracle(existing, infos)
    path_infos = [
        PathInfo(list(path), sha if kind == "F" else subtree,
                 EntryType.File if kind == "F" else EntryType.Directory)
        for path, kind, sha in infos]
    before = dict(repo.objects)
    root_entries = [] if root is None else _get_dir(realm, root)
    try:
        result = add_paths(realm, path_infos, root_entries)
    except ValueError:
        if expected is not None:
            raise Violation(f"adding {infos} to {existing} was refused", "addition refused")
        return False
    repo = world.repo()
    if expected is None:
        raise Violation(f"adding {infos} to {existing} was not refused", "conflict accepted")
    got = listing(repo, result)
    if got != expected:
        raise Violation(f"adding {infos} to {existing}: result is {got}", "other result")
    for sha, obj in before.items():
        if repo.objects.get(sha) != obj:
            raise Violation("stored object changed")
    return True


def prepare(tree):
    world = W.get_world()
    world.reset()
    repo = world.repo()
    return world, repo, (store(repo, tree) if tree else None), flat(tree)


def variants(infos):
    """objects: all different, all equal, or equal to the existing one"""
    infos = list(infos)
    yield tuple((p, k, NEW[i]) for i, (p, k) in enumerate(infos))
    yield tuple((p, k, NEW[0]) for p, k in infos)
    yield tuple((p, k, OLD if i == 0 else NEW[0]) for i, (p, k) in enumerate(infos))


def sequences(spec):
    kind, size = spec
    make = {"ordered": itertools.product,
            "unordered": lambda a, repeat: itertools.combinations_with_replacement(a, repeat)}
    return make[kind](list(additions()), repeat=size)


def case(item):
    tree, spec, first = item
    world, repo, root, existing = prepare(tree)
    snapshot = world.snapshot()
    accepted = refused = 0
    for infos in sequences(spec):
        if first is not None and infos and infos[0] != first:
            continue
        seen = set()
        for chosen in variants(infos):
            if chosen in seen:
                continue
            seen.add(chosen)
            if len(world.repo().objects) > 2000:
                world.git.restore(snapshot)
            if evaluate(world, world.repo(), root, existing, chosen):
                accepted += 1
            else:
                refused += 1
    return accepted, refused


def history_case(item):
    """several additions one after the other; the same result as the map oracle"""
    tree, steps = item
    world, repo, root, existing = prepare(tree)
    realm = Path(world.realms["R"])
    number = 0
    for infos in steps:
        chosen = tuple((p, k, NEW[(i + number) % 4]) for i, (p, k) in enumerate(infos))
        number += 1
        expected = oracle(existing, chosen)
        path_infos = [PathInfo(list(p), s, EntryType.File) for p, k, s in chosen]
        try:
            result = add_paths(realm, path_infos,
                               [] if root is None else _get_dir(realm, root))
        except ValueError:
            if expected is not None:
                raise Violation(f"adding {chosen} to {existing} was refused", "addition refused")
            continue
        if expected is None:
            raise Violation(f"adding {chosen} to {existing} was not refused",
                            "conflict accepted")
        got = listing(world.repo(), result)
        if got != expected:
            raise Violation(f"adding {chosen} to {existing}: {got}", "other result")
        root, existing = result, expected
    return len(steps), 0


def run(ctx):
    deep = list(trees(3))
    flat_trees = list(trees(2))
    options = list(additions())
    items = []
    for tree in deep:
        for size in (0, 1):
            items.append((tree, ("ordered", size), None))
    for tree in deep if not ctx.quick else deep[::2] + flat_trees:
        items.append((tree, ("unordered", 2), None))
    for tree in flat_trees:
        for first in options:
            items.append((tree, ("ordered", 2), first))
            if not ctx.quick or len(tree) < 2:
                items.append((tree, ("unordered", 3), first))
    values = run_cases(ctx, case, items)
    files = [o for o in options if o[1] == "F"]
    steps = [(f,) for f in files]
    histories = [(tree, s) for tree in flat_trees[:: 1 if not ctx.quick else 5]
                 for s in itertools.product(steps, repeat=3)]
    values += run_cases(ctx, history_case, histories)
    ctx.count("evaluations", sum(a + r for a, r in values))
    ctx.count("distinct_nontrivial", sum(a for a, r in values))
    ctx.count("conflicts_refused", sum(r for a, r in values))
    ctx.note("rule", "non-trivial: the addition is accepted and its result compared")
    for item in items[::max(1, len(items) // 6)]:
        ctx.sample(item)
    # the answers of the git model that were used here
    for tree in deep[::97]:
        world, repo, root, existing = prepare(tree)
        repo.put("blob", b"sub")
        world.repo().put("tree", gitmodel.encode_tree([(b"100644", b"x", SUB)]))
        for sha in NEW:
            repo.put("blob", b"new%d" % NEW.index(sha))
        with Trace(world) as trace:
            for infos in itertools.combinations(options[::3], 2):
                for chosen in variants(infos):
                    evaluate(world, world.repo(), root, existing, chosen)
        validate_trace(ctx, trace)
    ctx.assume("names that git lists without quotes; the updater is used with parts of object "
               "hashes only")


def replay(item):
    if len(item) == 3:
        return case(item)
    return history_case(item)
