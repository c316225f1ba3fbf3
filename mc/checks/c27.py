"""C27: incomplete realms: what is missing is reported, and can be supplied later"""
import itertools

from .. import refmodel as ref
from .. import storage
from .. import world as W
from ..conformance import Trace, validate_trace
from ..content import (
    MetadataPath, Path, diff, flush_object_references, get_top_nodes_and_metadata_root_record,
    load, read_file_tree, read_metadata, read_mrr, read_top, read_tree,
)
from ..ensure import EnsureMachine
from ..framework import Violation, run_cases
from ..session import Access, D1, IDS, PREFIX, ROOT, State, V1, fresh_content

TECHNIQUE = "exhaustive fault enumeration on the real code with a git model"
LEVEL = "fault_enumeration"
NOTE = ("A realm with two dataset trees, versions, prefix paths and nested datasets; every single "
        "stored object, those that make up the object references included, and every pair of "
        "objects of the model (thorough: every pair, and triples for lookups) is missing during every "
        "listed lookup, listing, modification with save and "
        "flush, and copy; then the objects are supplied and the operation is repeated in the "
        "same and in a new process. Collecting garbage while objects are missing and remote "
        "realms are not covered.")

P = MetadataPath
U1 = str(D1)


class Machine(EnsureMachine):
    """the content of both indices differs below "s/d" """
    realm_names = ("R", "C")


SETUP = [("set", "T", "", "d/b", 4), ("set", "U", "s/d", "a", 5), ("set", "T", "s/d", "x/y", 2), ("set", "U", "s/d", None, 3), ("prefixed",), ("tree2",)]


class Base:
    """the complete realm"""


def base():
    world = W.get_world(("R", "C"))
    found = world.__dict__.get("c27_base")
    if found is None:
        machine = Machine()
        state = machine.start(("init", "stored"))
        for step in SETUP:
            machine.apply(state, step)
        machine.op_save(state)
        found = Base()
        found.world = world
        found.machine = machine
        found.snapshot = world.snapshot()
        found.now = W.CLOCK.now
        found.doc = state.model.stored
        repo = world.repo()
        found.parts = storage.locate(repo)
        located = set().union(*found.parts.values())
        roots = [sha for name, sha in repo.refs.items() if "object-references" in name]
        found.references = repo.reachable(roots)[0] - located
        found.objects = sorted(located) + sorted(found.references)
        world.c27_base = found
    found.world.reset(found.snapshot)
    W.CLOCK.now = found.now
    return found


def take(base, numbers):
    """remove objects, returns them"""
    repo = base.world.repo()
    taken = {}
    for number in numbers:
        sha = base.objects[number]
        taken[sha] = repo.objects.pop(sha)
    return taken


def supply(base, taken):
    repo = base.world.repo()
    for sha, content in taken.items():
        repo.objects.setdefault(sha, content)


def attempt(function, *args):
    """(result, None) or (None, error)"""
    try:
        return function(*args), None
    except Exception as error:      # any report is fine
        return None, error


def expect(what, got, expected):
    if got != expected:
        raise Violation(f"{what} (expected / got): {diff(expected, got)}", what)


# -- reading ------------------------------------------------------------------
def record_part(side, ds):
    if side == "T":
        return ("T", V1, "", "rec", ds)
    return ("U", str(IDS[ds]), V1, "")


META = [("T", "", "a"), ("T", "", "d/b"), ("T", "", None), ("T", "s/d", "a"),
        ("T", "s/d", "x/y"), ("T", "s/d", None), ("U", "", "a"), ("U", "s/d", "a"),
        ("U", "s/d", None),
        # these do not exist
        ("T", "", "d/z"), ("T", "", "z"), ("T", "n", "a"), ("T", "s/z", None), ("U", "", "d/z")]
TREES = [(V1, ""), (V1, PREFIX), ("v2", "")]
READS = [("whole",), ("versions", "T"), ("uuids",), ("versions", ""), ("versions", "s/d")] + \
    [("datasets",) + t for t in TREES] + [("tree",) + t for t in TREES] + \
    [("files", side, ds) for side in "TU" for ds in ("", "s/d")] + \
    [("meta",) + m for m in META] + \
    [("in",) + m for m in META] + \
    [("top", ds, path) for ds, path in (("", ""), ("s/d", "s/d"), ("n", "n"))]


def read(what, tops):
    """performs one read operation on loaded top-level objects"""
    tvl, uuids = tops
    kind = what[0]
    if kind == "whole":
        return read_top(tvl, uuids)
    if kind == "versions":
        versions = tvl if what[1] == "T" else uuids.get_version_list(IDS[what[1]])
        return sorted((v, str(p)) for v, p in versions.versions_and_prefix_paths())
    if kind == "uuids":
        return sorted(map(str, uuids.uuids()))
    if kind in ("datasets", "tree"):
        tree = tvl.get_dataset_tree(what[1], P(what[2]))[2]
        if kind == "tree":
            return read_tree(tree)
        return sorted(str(path) for path, _ in tree.dataset_paths)
    if kind == "top":
        record = get_top_nodes_and_metadata_root_record(
            "git", W.get_world(("R", "C")).realms["R"], D1, V1, ROOT, P(what[2]),
            IDS[what[1]] if what[1] else None, V1, False)[2]
        return record and read_mrr(record)
    side, ds = what[1:3]
    if side == "T":
        record = tvl.get_dataset_tree(V1, ROOT)[2].get_metadata_root_record(P(ds))
    else:
        record = uuids.get_version_list(IDS[ds]).get_versioned_element(V1, ROOT)[2]
    if kind == "files":
        return sorted(str(path) for path, _ in record.get_file_tree().get_paths_recursive())
    if kind == "in":
        # membership of a dataset or of a file
        if what[3] is None:
            return P(ds) in (tvl.get_dataset_tree(V1, ROOT)[2])
        files = record and record.get_file_tree()
        return files is not None and P(what[3]) in files
    if record is None:
        return None
    if what[3] is None:
        return read_metadata(record.get_dataset_level_metadata())
    files = record.get_file_tree()
    return read_metadata(files.get_metadata(P(what[3])) if files is not None else None)


def expected_read(what, doc):
    kind = what[0]
    if kind == "whole":
        return doc
    if kind == "versions":
        return sorted(doc["tvl"] if what[1] == "T" else doc["uuid"][str(IDS[what[1]])])
    if kind == "uuids":
        return sorted(doc["uuid"])
    if kind in ("datasets", "tree"):
        tree = doc["tvl"][what[1:]][1][1]
        return tree if kind == "tree" else sorted(tree)
    if kind == "top":
        return doc["tvl"][V1, ""][1][1].get(what[2])
    side, ds = what[1:3]
    if side == "T":
        record = doc["tvl"][V1, ""][1][1].get(ds)
    else:
        record = doc["uuid"][str(IDS[ds])][V1, ""][1][1]
    if kind == "files":
        return sorted(record["files"])
    if kind == "in":
        if what[3] is None:
            return ds in doc["tvl"][V1, ""][1][1]
        return record is not None and any(
            path == what[3] or path.startswith(what[3] + "/") for path in record["files"])
    if record is None:
        return None
    if what[3] is None:
        return record["dlm"]
    return record["files"].get(what[3], {})


def needed(what, located):
    """parts whose objects a read operation may need"""
    kind = what[0]
    parts = {("T",), ("U",)}
    if kind == "whole":
        return set(located)
    if kind == "versions" and what[1] != "T":
        parts.add(("U", str(IDS[what[1]])))
    elif kind in ("datasets", "tree"):
        root = ("T",) + what[1:]
        parts |= {p for p in located if p == root or
                  p[:4] == root + ("node",) or (kind == "tree" and p[:3] == root)}
    elif kind == "top":
        for part in (record_part("T", what[2]), record_part("T", ""), record_part("U", "")):
            parts |= storage.containers(part)
        full = [record_part("T", what[2])]
        if str(IDS[what[1]]) in dict(located).keys() or what[1]:
            parts |= storage.containers(record_part("U", what[1]))
        parts |= {p for p in located if any(p[:len(f)] == f for f in full)}
    elif kind == "files":
        root = record_part(*what[1:]) + ("files",)
        parts |= storage.containers(root)
        parts |= {p for p in located if p[:len(root) + 1] == root + ("node",)}
    elif kind in ("meta", "in"):
        record = record_part(*what[1:3])
        parts |= storage.containers(
            record + (("dlm",) if what[3] is None else ("files", "meta", what[3])))
        if kind == "in":
            parts |= storage.containers(record_part("T", what[2]))
    return parts


def ids_of(parts, located):
    return set().union(*(located.get(part, ()) for part in parts))


def check_reads(base, taken, doc, located, what_for, only=READS, current=None):
    """every read operation in its own process, and again after the objects are supplied"""
    world = base.world
    realm = world.realms["R"]
    repo = world.repo()
    performed = 0
    for what in only:
        world.new_session()
        involved = ids_of(needed(what, located), located) & taken.keys()
        expected = expected_read(what, doc)
        tops, error = attempt(load, realm)
        performed += 1
        if error is None:
            if None in tops:
                raise Violation(f"{what_for}: loading takes what is missing for absent",
                                "missing object is taken for absent")
            got, error = attempt(read, what, tops)
        if error is not None:
            if not involved:
                raise Violation(
                    f"{what_for}: {what} fails although no object of it is missing: "
                    f"{type(error).__name__}: {error}", f"{what[0]} fails, others are missing")
        elif got != expected:
            raise Violation(f"{what_for}: {what} with missing {sorted(map(str, involved))} "
                            f"(expected / got): {diff(expected, got)}",
                            f"{what[0]}: missing object is taken for absent")
        elif what[0] in ("whole", "tree") and taken.keys() & ids_of(
                needed(what, current or located), current or located):
            raise Violation(f"{what_for}: {what} succeeded without {involved}",
                            "reading everything succeeded")
        if error is None or what_for != "lookup":
            continue
        # the same process tries again
        supply(base, taken)
        if tops is None:
            tops = load(realm)
        expect(f"{what[0]}, tried again when the missing object was supplied",
               read(what, tops), expected)
        for sha in taken:
            del repo.objects[sha]
    return performed


def lookups(item):
    numbers = item[1]
    b = base()
    taken = take(b, numbers)
    before = b.world.git_state()
    performed = check_reads(b, taken, b.doc, b.parts, "lookup")
    if b.world.git_state() != before:
        raise Violation("reading an incomplete realm changed it", "lookup changed the realm")
    return {"reads": performed}


# -- modifying ----------------------------------------------------------------
MODIFY = [("set", "T", "", "a", 7), ("set", "T", "", "d/b", 7), ("set", "T", "", "d/new", 7),
          ("set", "T", "", None, 7), ("set", "T", "s/d", "a", 7), ("set", "T", "s/d", None, 7),
          ("set", "U", "", "d/b", 7), ("set", "U", "s/d", "a", 7), ("dataset", "n"),
          ("dataset", "s/e"), ("delete", "s"), ("subtree", "m"), ("tree2",), ("prefixed",),
          ("newfiles", "T", ""), ("newdlm", "T", "s/d"), ("newlist", "s/d"), ("restamp", "T", ""),
          ("restamp", "U", ""), ("auto", "", ""), ("auto", "s/d", "s/d"), ("same",)]
IDS.setdefault("s/e", IDS["n"])


def modify_needs(op, located):
    parts = {("T",), ("U",)}
    kind = op[0]
    tree = ("T", V1, "")
    if kind == "set":
        record = record_part(*op[1:3])
        parts |= storage.containers(
            record + (("dlm",) if op[3] is None else ("files", "meta", op[3])))
    elif kind == "dataset":
        parts |= storage.containers(record_part("T", op[1]))
    elif kind == "delete":
        parts |= storage.containers(tree + ("node", op[1]))
        parts |= {p for p in located if p[:4] in (tree + ("node",), tree + ("rec",))
                  and (p[4] + "/").startswith(op[1] + "/")}
    elif kind == "subtree":
        parts |= storage.containers(tree + ("node", op[1]))
    elif kind == "prefixed":
        parts.add(("U", U1))
    elif kind in ("newfiles", "newdlm"):
        parts |= storage.containers(record_part(*op[1:]))
    elif kind == "restamp":
        parts |= {tree} if op[1] == "T" else storage.containers(record_part("U", op[2]))
    elif kind == "auto":
        for ds in ("", op[1]):
            parts |= storage.containers(record_part("T", ds))
            parts |= storage.containers(record_part("U", ds))
    return parts


def start(base):
    """a new process"""
    state = State(base.machine, ("R", "C"))
    base.world.new_session()
    state.model = ref.rebuild(base.doc)
    state.tvl, state.uuids = load(base.world.realms["R"])
    return state


def perform(base, state, op):
    if op[0] == "auto":
        top = get_top_nodes_and_metadata_root_record(
            "git", base.world.realms["R"], D1, V1, ROOT, P(op[2]),
            IDS[op[1]] if op[1] else None, V1, True)
        state.tvl, state.uuids = top[:2]
    elif op[0] != "same":
        base.machine.apply(state, op)


def intended(base, op):
    """the content after the operation on the complete realm"""
    memo = base.__dict__.setdefault("intended", {})
    if op not in memo:
        now = base.world.snapshot()
        base.world.reset(base.snapshot)
        state = start(base)
        perform(base, state, op)
        base.machine.op_save(state)
        located = dict(base.parts)
        current = storage.locate(base.world.repo())
        for part, ids in current.items():
            located[part] = located.get(part, set()) | ids
        expect("operation on the complete realm", fresh_content(base.world), state.model.doc())
        memo[op] = state.model.doc(), located, current
        base.world.reset(now)
    return memo[op]


def modification(item):
    _, numbers, op = item
    b = base()
    new, located, current = intended(b, op)
    taken = take(b, numbers)
    world = b.world
    # a process modifies and saves
    involved = bool(taken.keys() & (ids_of(modify_needs(op, b.parts), b.parts) | b.references))
    phase, error = "load", None
    try:
        state = start(b)
        phase = "modify"
        perform(b, state, op)
        phase = "save"
        b.machine.op_save(state)
        phase = None
    except Violation:
        raise
    except Exception as caught:
        error = caught
    if error is not None and not involved:
        raise Violation(
            f"{op} fails in {phase} although it concerns none of the missing objects: "
            f"{type(error).__name__}: {error}", f"{op[0]} fails, others are missing")
    still = {sha: c for sha, c in taken.items() if sha not in world.repo().objects}
    if error is None:
        # whatever is there is correct, and nothing else got lost
        check_reads(b, still, new, located, f"after {op}",
                    [r for r in READS if r[0] in ("whole", "meta", "datasets", "files")
                     and readable(r, new)], current)
        supply(b, taken)
        expect(f"content after {op[0]} in an incomplete realm", fresh_content(world), new)
    else:
        supply(b, taken)
        content = fresh_content(world)
        for index in ("tvl", "uuid"):
            if content[index] not in (b.doc[index], new[index]):
                raise Violation(f"{op} failed ({error}) and left {index}: "
                                f"{diff(b.doc[index], content[index])}",
                                f"content after failed {op[0]}")
        if phase == "save" or phase == "modify" and op[0] not in (
                "dataset", "delete", "prefixed"):
            # the same process tries again
            if phase == "modify":
                perform(b, state, op)
            b.machine.op_save(state)
            expect(f"{op[0]} tried again in the completed realm", fresh_content(world), new)
        else:
            state = State(b.machine, ("R", "C"))
            world.new_session()
            state.model = ref.rebuild(content)
            state.tvl, state.uuids = load(world.realms["R"])
            perform(b, state, op)
            b.machine.op_save(state)
            expect(f"{op[0]} repeated in the completed realm", fresh_content(world), new)
    world.repo().gc()
    expect(f"content after {op[0]} and collecting garbage", fresh_content(world), new)
    return {"modifications": 1, "reported": error is not None}


def readable(what, doc):
    if what[0] == "datasets":
        return what[1:] in doc["tvl"]
    if what[0] in ("meta", "files"):
        if what[1] == "T":
            found = doc["tvl"][V1, ""][1][1].get(what[2])
            return found is not None or what[0] == "meta"
        return (V1, "") in doc["uuid"].get(str(IDS[what[2]]), {})
    return True


# -- copying ------------------------------------------------------------------
def copying(item):
    _, numbers, which = item
    b = base()
    world = b.world
    taken = take(b, numbers)
    side = which[0]
    involved = taken.keys() & ids_of([p for p in b.parts if p[0] == side], b.parts)
    other_index = taken.keys() & ids_of([("T",), ("U",)], b.parts)
    realm, target = world.realms["R"], world.realms["C"]
    world.new_session()
    tops, error = attempt(load, realm)
    if error is None:
        source = tops["TU".index(side)]
        _, error = attempt(copy, source, target, which)
    if error is None and involved:
        raise Violation(f"copying {which} succeeded without the objects {involved}",
                        "incomplete copy")
    if error is not None and not involved and not other_index:
        raise Violation(f"copying {which} fails although all its objects exist: "
                        f"{type(error).__name__}: {error}", "copy fails, others are missing")
    index = {"T": "tvl", "U": "uuid"}[side]
    expected = dict.fromkeys(("tvl", "uuid"))
    if error is not None:
        got, failed = attempt(fresh_content, world, "C")
        if failed is not None:
            raise Violation(f"what a failed copy published is not readable: {failed}",
                            "incomplete copy published")
        if got not in (expected, dict(expected, **{index: b.doc[index]})):
            raise Violation("a failed copy published something else", "incomplete copy published")
        supply(b, taken)
        if tops is None or None in tops:
            tops = load(realm)
        copy(tops["TU".index(side)], target, which)
    world.repo("C").gc()
    expected[index] = b.doc[index]
    expect("copy", fresh_content(world, "C"), expected)
    return {"copies": 1, "reported": error is not None}


def copy(source, target, which):
    copied = source.deepcopy("git", target)
    copied.write_out(target)
    flush_object_references(Path(target))


# -- driver -------------------------------------------------------------------
def case(item):
    return {"lookups": lookups, "modify": modification, "copy": copying}[item[0]](item)


def traced(item):
    """the commands of an operation in an incomplete realm"""
    kind, numbers = item[:2]
    b = base()
    take(b, numbers)
    world = b.world
    world.new_session()
    with Trace(world) as trace:
        if kind == "modify":
            attempt(change, b, item[2])
        elif kind == "copy":
            attempt(lambda: copy(load(world.realms["R"])["TU".index(item[2][0])],
                                 world.realms["C"], item[2]))
        else:
            for what in READS:
                attempt(lambda: read(what, load(world.realms["R"])))
    return trace


def change(b, op):
    state = start(b)
    perform(b, state, op)
    b.machine.op_save(state)


def run(ctx):
    b = base()
    number, located = len(b.objects), len(b.objects) - len(b.references)
    ctx.note("stored_objects", number)
    ctx.note("of_the_model", located)
    singles = [(i,) for i in range(number)]
    pairs = list(itertools.combinations(range(number), 2))
    inner = list(itertools.combinations(range(located), 2))
    changes = [()] + singles + (inner if ctx.quick else pairs)
    items = [("lookups", n) for n in [()] + singles + inner]
    if not ctx.quick:
        items += [("lookups", n) for n in itertools.combinations(range(located), 3)]
    items += [("modify", n, op) for op in MODIFY for n in changes]
    items += [("copy", n, which) for which in "TU" for n in changes]
    values = [v for v in run_cases(ctx, case, items) if v is not None]
    for value in values:
        for name, amount in value.items():
            ctx.count(name, int(amount))
    ctx.count("evaluations", sum(v.get("reads", 1) for v in values))
    ctx.count("distinct_nontrivial", len(values) - len(MODIFY) - 3)
    ctx.note("rule", "every listed operation with every enumerated set of missing objects, each "
                     "followed by the repetition with the objects supplied; non-trivial: at "
                     "least one object is missing")
    for item in items[::max(1, len(items) // (24 if ctx.quick else 100))]:
        ctx.sample(item)
        validate_trace(ctx, traced(item))


def replay(item):
    case(item)
