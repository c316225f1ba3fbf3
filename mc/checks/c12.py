"""C12: concurrent writers do not lose each other's metadata"""
import itertools
import os
from pathlib import Path

from .. import gitmodel
from .. import world as W
from ..conc import Scenario, explore
from ..conformance import Trace, validate_trace, real_read
from ..content import (
    DatasetTree, ExtractorConfiguration, FileTree, Metadata, MetadataPath, MetadataRootRecord,
    TreeVersionList, UUID, UUIDSet, VersionList, flush_object_references,
    get_top_nodes_and_metadata_root_record, load, read_top,
)
from ..ensure import EnsureMachine
from ..framework import Violation, run_cases
from ..session import IDS, ROOT, V1, fresh_content

TECHNIQUE = ("stateless model checking of the real code in controlled processes on a git model "
             "with real file locks, all interleavings")
NOTE = ("All interleavings (no preemption bound) of the storage and lock operations of two or "
        "three processes of the listed kinds: flushes of enumerated references, unlocked "
        "modifications followed by a flush, and locked load-modify-save-flush sessions; also "
        "with one killed process or one failed command. A git command is one atomic step.")

REFERENCES = "refs/datalad/object-references-2.0"
H = {
    "1": "1" * 40, "1'": "1" * 39 + "2", "1a": "111" + "2" * 37, "1b": "111111" + "3" * 34,
    "1c": "1" * 9 + "4" * 31, "2": "2" * 40, "3": "3" * 40,
}


def spelled(world, spelling):
    path = Path(world.realms["R"])
    if spelling == "link":
        link = Path(world.root) / "link-R"
        return link
    if spelling == "dots":
        return path / ".." / "R"
    return path


def references(entries, path):
    from dataladmetadatamodel.mapper.gitmapper import objectreference
    for kind, name in entries:
        getattr(objectreference, f"add_{kind}_reference")(H[name], path)


def pending():
    from dataladmetadatamodel.mapper.gitmapper.objectreference import cached_object_references
    return sorted({key[1] for key in cached_object_references})


# -- programs -------------------------------------------------------------

def flush_program(world, spelling, entries, rounds=1):
    def run(proxy):
        path = spelled(world, spelling)
        recorded = []
        for entry in ([entries] if rounds == 1 else [[e] for e in entries]):
            references(entry, path)
            recorded += [H[n] for _, n in entry]
            flush_object_references(path)
        return recorded
    return run


def modify(kind, number, tvl, uuids, realm):
    """one modification, returns the top-level objects"""
    name = f"x{number}"
    configuration = ExtractorConfiguration("1", {})
    if kind == "create":
        return get_top_nodes_and_metadata_root_record(
            "git", realm, UUID(int=70 + number), name, ROOT, ROOT, None, None, True)[:2]
    if kind == "create_sub":
        return get_top_nodes_and_metadata_root_record(
            "git", realm, IDS[""], V1, ROOT, MetadataPath(f"s/{name}"),
            UUID(int=80 + number), name, True)[:2]
    tvl = tvl or TreeVersionList()
    uuids = uuids or UUIDSet()
    if kind == "version":
        tree = DatasetTree()
        record = MetadataRootRecord(UUID(int=50 + number), name, None, FileTree())
        record.file_tree.add_extractor_run(
            MetadataPath("f"), 1.0, name, "n", "m", configuration, {"v": number})
        tree.add_dataset(ROOT, record)
        tvl.set_dataset_tree(name, "1", ROOT, tree)
        versions = VersionList()
        versions.set_versioned_element(name, "1", ROOT, record)
        uuids.set_version_list(UUID(int=50 + number), versions)
        return tvl, uuids
    if kind == "same_version":
        tree = DatasetTree()
        tree.add_dataset(ROOT, MetadataRootRecord(UUID(int=60 + number), name, None, None))
        tvl.set_dataset_tree("w", str(number), MetadataPath(name), tree)
        return tvl, uuids
    tree = tvl.get_dataset_tree(V1, ROOT)[2]
    if kind == "front":
        # new elements whose names sort before the existing ones
        record = MetadataRootRecord(UUID(int=0), "!", None, FileTree())
        record.file_tree.add_extractor_run(
            MetadataPath("!"), 1.0, name, "n", "m", configuration, {"v": number})
        tree.add_dataset(MetadataPath("!"), record)
        tree.get_metadata_root_record(ROOT).get_file_tree().add_extractor_run(
            MetadataPath("!"), 1.0, name, "n", "m", configuration, {"v": number})
        versions = VersionList()
        versions.set_versioned_element("!", "1", ROOT, record)
        uuids.set_version_list(UUID(int=0), versions)
        return tvl, uuids
    if kind == "dataset":
        record = MetadataRootRecord(UUID(int=50 + number), name, None, None)
        tree.add_dataset(MetadataPath(f"s/{name}"), record)
        versions = VersionList()
        versions.set_versioned_element(name, "1", ROOT, record)
        uuids.set_version_list(UUID(int=50 + number), versions)
        return tvl, uuids
    if kind == "delete":
        if tree.get_metadata_root_record(MetadataPath("s/d")) is not None:
            tree.delete_subtree(MetadataPath("s/d"))
        return tvl, uuids
    if kind == "uuid":
        record = uuids.get_version_list(IDS[""]).get_versioned_element(V1, ROOT)[2]
    elif kind == "sub":
        record = tree.get_metadata_root_record(MetadataPath("s/d"))
        if record is None:
            return tvl, uuids
    else:
        record = tree.get_metadata_root_record(ROOT)
    if kind == "dlm":
        metadata = record.get_dataset_level_metadata()
        metadata.add_extractor_run(1.0, name, "n", "m", configuration, {"v": number})
    else:
        path = {"file": "a", "deep": "d/b", "new": f"d/{name}", "uuid": "a", "sub": "a"}[kind]
        record.get_file_tree().add_extractor_run(
            MetadataPath(path), 1.0, name, "n", "m", configuration, {"v": number})
    return tvl, uuids


def session(world, kind, number, path, order="tvl"):
    realm = str(path)
    W.CLOCK.now = 5000.0 + 100 * number
    tvl, uuids = load(realm)
    tvl, uuids = modify(kind, number, tvl, uuids, realm)
    for part in ((tvl, uuids) if order == "tvl" else (uuids, tvl)):
        part.write_out(realm)
    recorded = pending()
    flush_object_references(path)
    return recorded


def session_program(world, kind, number, spelling, lock):
    def run(proxy):
        from dataladmetadatamodel.mapper.gitmapper import utils
        path = spelled(world, spelling)
        if lock == "none":
            return session(world, kind, number, path)
        if lock == "with":
            with utils.locked_backend(path):
                return session(world, kind, number, path)
        utils.lock_backend(path)
        try:
            return session(world, kind, number, path, "uuids")
        finally:
            utils.unlock_backend(path)
    return run


def object_program(world, number):
    """saves a single object and flushes, without a lock"""
    def run(proxy):
        path = spelled(world, "abs")
        metadata = Metadata()
        metadata.add_extractor_run(1.0, f"x{number}", "n", "m",
                                   ExtractorConfiguration("1", {}), {"v": number})
        record = MetadataRootRecord(UUID(int=40 + number), "v", metadata, None)
        record.write_out(str(path))
        recorded = pending()
        flush_object_references(path)
        return recorded
    return run


# -- scenarios --------------------------------------------------------------

class Writers(Scenario):
    """
    processes: ("flush", spelling, entries, rounds), ("object",) or
               ("session", kind, spelling, "with" | "calls" | "none")
    base: "nothing", "stored" or a tuple of references that are already stored
    """

    def __init__(self, world, base, processes, kills=0, fails=0):
        super().__init__(world)
        self.base = base
        self.kinds = processes
        self.kills = kills
        self.fails = fails
        link = Path(world.root) / "link-R"
        if not link.is_symlink():
            link.symlink_to(world.realms["R"])
        self.programs = []
        for number, process in enumerate(processes):
            if process[0] == "flush":
                self.programs.append(flush_program(world, *process[1:]))
            elif process[0] == "object":
                self.programs.append(object_program(world, number))
            else:
                self.programs.append(session_program(
                    world, process[1], number, process[2], process[3]))
        self.snapshot = base_snapshot(world, base)
        repo = self.snapshot[os.path.join(world.realms["R"], ".git")]
        if base == "stored":
            self.initial = needed(world, self.snapshot) & self.stored(repo)
            assert len(self.initial) > 5
        else:
            self.initial = set() if base == "nothing" else {H[n] for _, n in base}
        self.locked = [n for n, p in enumerate(processes)
                       if p[0] == "session" and p[3] != "none"]
        self.unlocked = [n for n, p in enumerate(processes)
                         if p[0] == "session" and p[3] == "none"]

    def reset(self):
        self.world.reset(self.snapshot)

    def stored(self, repo):
        if REFERENCES not in repo.refs:
            return set()
        memo = self.world.__dict__.setdefault("c12_stored", {})
        key = repo.refs[REFERENCES]
        if key not in memo:
            seen, missing = repo.reachable([key])
            memo[key] = seen | missing
        return memo[key]

    def monitor(self, run):
        stored = self.stored(self.world.repo())
        if not self.initial <= stored:
            raise Violation("object references that were stored before are lost",
                            "old references lost")
        for p in run.processes:
            if p.outcome is not None and p.outcome[0] == "ok":
                lost = set(p.outcome[1]) - stored
                if lost:
                    raise Violation(
                        f"object references of a successful flush of P{p.index} are lost: "
                        f"{sorted(lost)[:3]}", "references lost")

    def final(self, run):
        faults = run.kills + run.fails
        for p in run.processes:
            if p.outcome is not None and p.outcome[0] != "ok" and not faults:
                raise Violation(f"P{p.index} failed: {p.outcome[1]}", "writer failed")
        if not self.locked or self.unlocked:
            if self.unlocked:
                fresh_content(self.world)
            return
        done = [n for n in self.locked if run.processes[n].outcome is not None
                and run.processes[n].outcome[0] == "ok"]
        maybe = [n for n in self.locked if n not in done]
        content = fresh_content(self.world)
        for part in ("tvl", "uuid"):
            permitted = self.permitted(done, maybe, part)
            if content[part] not in permitted:
                raise Violation(
                    f"the stored {part} is that of no serial execution of the sessions: "
                    f"{content[part]!r:.300} is not one of {permitted!r:.600}",
                    "lost update")

    def permitted(self, done, maybe, part):
        result = []
        for extra in range(len(maybe) + 1):
            for chosen in itertools.combinations(maybe, extra):
                for order in itertools.permutations(done + list(chosen)):
                    result.append(serial(self.world, self.base, self.kinds, order)[part])
        return result


def base_snapshot(world, base):
    memo = world.__dict__.setdefault("c12_base", {})
    if base not in memo:
        if base == "stored":
            machine = EnsureMachine()
            machine.start(("init", "stored"))
        else:
            world.reset()
            if base != "nothing":
                references(base, Path(world.realms["R"]))
                flush_object_references(Path(world.realms["R"]))
        memo[base] = world.snapshot()
    return memo[base]


def needed(world, snapshot):
    """the objects that a reader of the realm accesses"""
    world.reset(snapshot)
    gitmodel.READ_LOG = set()
    try:
        read_top(*load(world.realms["R"]))
        return gitmodel.READ_LOG - {gitmodel.EMPTY_TREE}
    finally:
        gitmodel.READ_LOG = None


def serial(world, base, processes, order):
    """content after the sessions ran one after the other"""
    memo = world.__dict__.setdefault("c12_serial", {})
    key = (base, tuple((n, processes[n]) for n in order))
    if key not in memo:
        kept = world.snapshot()
        world.reset(base_snapshot(world, base))
        for number in order:
            world.new_session()
            session(world, processes[number][1], number, Path(world.realms["R"]),
                    "tvl" if processes[number][3] == "with" else "uuids")
        memo[key] = fresh_content(world)
        world.reset(kept)
    return memo[key]


def case(item):
    base, processes, kills, fails = item
    world = W.get_world()
    return explore(Writers(world, base, processes, kills, fails))


STORED = ["file", "deep", "new", "dlm", "uuid", "sub", "dataset", "version", "same_version",
          "delete", "create", "create_sub"]
NOTHING = ["version", "same_version", "create"]
BASES = ["nothing", (("tree", "1"),), (("tree", "1'"), ("blob", "2"))]
ENTRIES = [(("tree", "1"),), (("tree", "1a"),), (("blob", "1b"),), (("blob", "1c"),),
           (("blob", "2"),), (("blob", "1b"), ("tree", "3"))]


def items(quick):
    result = []

    def add(base, processes, kills=0, fails=0):
        entry = (base, tuple(processes), kills, fails)
        if entry not in result:
            result.append(entry)

    # flushes
    for base in BASES:
        for first, second in itertools.combinations_with_replacement(ENTRIES, 2):
            add(base, [("flush", "abs", first, 1), ("flush", "abs", second, 1)])
    for base in BASES if not quick else BASES[1:2]:
        for first, second in itertools.permutations(ENTRIES[:4] if not quick else ENTRIES[1:3], 2):
            pair = [("flush", "abs", first, 1), ("flush", "link", second, 1)]
            add(base, pair, kills=1)
            add(base, pair, fails=1)
    for spelling in ("link", "dots"):
        add(BASES[1], [("flush", "abs", ENTRIES[1], 1), ("flush", spelling, ENTRIES[2], 1)])
    add(BASES[1], [("flush", "abs", ENTRIES[5], 2), ("flush", "abs", ENTRIES[1], 1)])
    add(BASES[1], [("flush", "abs", ENTRIES[n], 1) for n in (1, 2, 4)])
    if not quick:
        for base in BASES:
            for chosen in itertools.combinations(ENTRIES, 3):
                add(base, [("flush", "abs", e, 1) for e in chosen])
            for first, second in itertools.permutations(ENTRIES, 2):
                add(base, [("flush", "abs", ENTRIES[5], 2), ("flush", "abs", second, 1)])
                add(base, [("flush", "abs", first, 1), ("flush", "abs", second, 1)],
                    kills=1, fails=1)
    # locked sessions
    for first, second in itertools.product(STORED, repeat=2):
        if quick and STORED.index(first) > STORED.index(second):
            continue
        add("stored", [("session", first, "abs", "with"), ("session", second, "link", "calls")])
    for first, second in itertools.product(NOTHING, repeat=2):
        add("nothing", [("session", first, "abs", "with"), ("session", second, "abs", "with")])
    plain = ["file", "dlm", "uuid", "dataset", "version"]
    for first, second in itertools.permutations(plain, 2) if not quick \
            else (("uuid", "dataset"), ("version", "uuid")):
        pair = [("session", first, "abs", "with"), ("session", second, "abs", "calls")]
        add("stored", pair, kills=1)
        add("stored", pair, fails=1)
    add("stored", [("session", k, "abs", "with") for k in ("file", "deep", "dataset")])
    if not quick:
        for chosen in itertools.combinations(STORED, 3):
            add("stored", [("session", k, "abs", "with") for k in chosen])
        for chosen in itertools.combinations(NOTHING, 3):
            add("nothing", [("session", k, "abs", "with") for k in chosen])
    # sessions and other writers
    for kind in STORED if not quick else ("file", "version"):
        add("stored", [("session", kind, "abs", "with"), ("flush", "link", ENTRIES[2], 1)])
    # no lock around the session: the references are still kept
    add("stored", [("object",), ("object",)])
    add("stored", [("object",), ("flush", "abs", ENTRIES[2], 1)])
    add("stored", [("object",), ("session", "version", "abs", "with")])
    add("stored", [("session", "uuid", "abs", "none"), ("flush", "abs", ENTRIES[2], 1)])
    add("nothing", [("session", "same_version", "abs", "none"), ("flush", "abs", ENTRIES[1], 1)])
    if not quick:
        unlocked = ["version", "file", "uuid", "dataset"]
        for first, second in itertools.combinations_with_replacement(unlocked, 2):
            add("nothing" if first == second == "version" else "stored",
                [("session", first, "abs", "none"), ("session", second, "abs", "none")])
    result.sort(key=lambda e: -(len(e[1]) * 4 + e[2] + e[3] + 5 * ("none" in str(e))))
    return result


def run(ctx):
    todo = items(ctx.quick)
    for value in run_cases(ctx, case, todo, chunk=1):
        for name, amount in value.items():
            ctx.count(name, amount)
    ctx.count("scenarios", len(todo))
    for index in (0, len(todo) // 2, len(todo) - 1):
        ctx.sample(todo[index])
    bind(ctx)


def bind(ctx):
    """serial executions of the sessions on the model against the real git"""
    world = W.get_world()
    repos, contents = [], []
    for kinds in (("file", "dataset"), ("version", "uuid"), ("delete", "create_sub")):
        world.reset(base_snapshot(world, "stored"))
        with Trace(world) as trace:
            for number, kind in enumerate(kinds):
                world.new_session()
                session(world, kind, number, Path(world.realms["R"]))
        validate_trace(ctx, trace)
        repos.append(trace.final[os.path.join(world.realms["R"], ".git")])
        contents.append(fresh_content(world))
    for content, result in zip(contents, real_read(repos, collect=True)):
        if result != ("ok", content):
            ctx.violation("content read by a new process with the real git differs",
                          ["bind"], "real process reads other content")
        ctx.count("real_process_reads")


def replay(item):
    if item == ("bind",):
        return None
    return case(item)
