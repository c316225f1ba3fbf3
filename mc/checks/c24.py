"""C24: readers are not disturbed by concurrent writers"""
import os
from pathlib import Path

from .. import world as W
from ..conc import Scenario, explore
from ..conformance import Trace, real_read, validate_trace
from ..content import (
    MetadataPath, flush_object_references, get_top_nodes_and_metadata_root_record, load, read_mrr,
    read_top, read_uuid_set, read_version_list,
)
from ..framework import Violation, run_cases
from ..session import IDS, ROOT, V1, fresh_content
from .c12 import base_snapshot, serial, session, session_program

TECHNIQUE = ("stateless model checking of the real code in controlled processes on a git model "
             "with real file locks, all interleavings")
NOTE = ("All interleavings (no preemption bound) of the storage and lock operations of a reading "
        "process with one or two saving processes, some with one killed process. The oracle is "
        "the same reader, undisturbed, on the states that were published while it loaded.")

PUBLISHED = ("refs/datalad/dataset-tree-version-list", "refs/datalad/dataset-uuid-set")


# -- readers: functions of realms and a hook that is called when loading begins and ends ---------

def read_full(realms, mark):
    mark()
    tvl, uuids = load(realms["R"])
    mark()
    return read_top(tvl, uuids)


def read_reverse(realms, mark):
    mark()
    tvl, uuids = load(realms["R"])
    mark()
    return {"uuid": uuids and read_uuid_set(uuids), "tvl": tvl and read_version_list(tvl)}


def read_twice(realms, mark):
    """loads again: the second load finds nothing older than what was published before it"""
    read_top(*load(realms["R"]))
    mark()
    second = load(realms["R"])
    mark()
    return read_top(*second)


def read_again(realms, mark):
    """reads, releases everything below the top-level objects, reads again"""
    mark()
    tvl, uuids = load(realms["R"])
    mark()
    result = [read_top(tvl, uuids)]
    if uuids is not None:
        for identifier in list(uuids.uuids()):
            versions = uuids.get_version_list(identifier)
            for version, prefix in list(versions.versions_and_prefix_paths()):
                versions.unget_versioned_element(version, prefix)
            uuids.unget_version_list(identifier)
    if tvl is not None:
        for version, prefix in list(tvl.versions_and_prefix_paths()):
            tvl.unget_dataset_tree(version, prefix, realms["R"])
    result.append(read_top(tvl, uuids))
    return result


def read_parts(realms, mark):
    """releases the parts of one record and reads them again"""
    mark()
    tvl, uuids = load(realms["R"])
    mark()
    result = []
    if tvl is None or (V1, ROOT) not in list(tvl.versions_and_prefix_paths()):
        return None
    tree = tvl.get_dataset_tree(V1, ROOT)[2]
    for path in ("", "s/d"):
        record = tree.get_metadata_root_record(MetadataPath(path))
        if record is None:
            result.append(None)
            continue
        result.append(read_mrr(record))
        for part in (record.file_tree, record.dataset_level_metadata, record):
            if part is not None:
                part.purge()
        result.append(read_mrr(record))
    return result


def read_lookup(path):
    def run(realms, mark):
        mark()
        record = get_top_nodes_and_metadata_root_record(
            "git", realms["R"], IDS[""], V1, ROOT, MetadataPath(path),
            IDS[path] if path else None, V1 if path else None, False)[2]
        mark()
        return None if record is None else read_mrr(record)
    return run


def copy(realms, mark):
    """copies everything into another realm"""
    mark()
    tvl, uuids = load(realms["R"])
    mark()
    for part in (tvl, uuids):
        if part is not None:
            part.deepcopy("git", realms["C"]).write_out(realms["C"])
    flush_object_references(Path(realms["C"]))
    return None


READERS = {
    "full": read_full, "reverse": read_reverse, "twice": read_twice, "again": read_again,
    "parts": read_parts, "lookup": read_lookup(""), "lookup s/d": read_lookup("s/d"),
    "copy": copy,
}


def reader_program(world, kind):
    def run(proxy):
        observed = []

        def mark():
            status, out, _ = proxy.execute(
                ["git", "-P", "--git-dir", os.path.join(world.realms["R"], ".git"),
                 "show-ref"], b"")
            published = {}
            for line in out.decode().splitlines():
                location, name = line.split(" ", 1)
                if name in PUBLISHED:
                    published[name] = location
            observed.append([published.get(name) for name in PUBLISHED])
        result = READERS[kind](world.realms, mark)
        return observed, result
    return run


class Reader(Scenario):
    """
    base: "stored" or "nothing"; reader: its kind;
    writers: (kind, "with" | "calls" | "none") of the saving processes
    """

    def __init__(self, world, base, reader, writers, kills=0):
        super().__init__(world)
        self.base, self.reader, self.kills = base, reader, kills
        self.kinds = [("session", kind, "abs", lock) for kind, lock in writers]
        self.programs = [session_program(world, kind, number, "abs", lock)
                         for number, (kind, lock) in enumerate(writers)]
        self.programs.append(reader_program(world, reader))
        self.private = {len(writers): [os.path.join(world.realms["C"], ".git")]}
        snapshot = base_snapshot(world, base)
        # what one session publishes
        self.alone = []
        for number in range(len(writers)):
            serial(world, base, self.kinds, (number,))
            self.alone.append(published_alone(world, base, self.kinds, number))
        world.reset(snapshot)
        self.initial = published(world)
        self.snapshot = snapshot

    def reset(self):
        self.world.reset(self.snapshot)

    def monitor(self, run):
        if run.processes[-1].blocked:
            raise Violation("a reader waits for a writer", "reader waits")

    def final(self, run):
        reader = run.processes[-1]
        if reader.outcome is None:
            return
        if reader.outcome[0] != "ok":
            raise Violation(f"the reader failed: {reader.outcome[1]}", "reader failed")
        observed, result = reader.outcome[1]
        if len(observed) != 2:
            raise Violation(f"the reader did not finish loading: {observed}")
        before, after = observed
        permitted = []
        for part in (0, 1):
            values = [before[part]]
            if after[part] not in values:
                # in between there might have been the publication of a first of two sessions
                if len(self.kinds) > 1 and before[part] == self.initial[part]:
                    values += [a[part] for a in self.alone if a[part] not in values
                               and a[part] in self.world.repo().objects]
                if after[part] not in values:
                    values.append(after[part])
            permitted.append(values)
        if self.reader == "copy":
            repo = self.world.repo("C")
            seen, missing = repo.reachable()
            if missing:
                raise Violation(f"objects of the copy are missing: {sorted(missing)[:3]}",
                                "incomplete copy")
            result = fresh_content(self.world, "C")
        expected = [undisturbed(self.world, self.reader, (tvl, uuids))
                    for tvl in permitted[0] for uuids in permitted[1]]
        if result not in expected:
            raise Violation(
                f"reader {self.reader!r}: {result!r:.400} is not the content of a state that was "
                f"published while it loaded: {expected!r:.800}", "disturbed reader")


def the_world():
    world = W.get_world()
    if "C" not in world.realms:
        world.add_realm("C")
        world.reset()
    return world


def published(world):
    refs = world.repo().refs
    return [refs.get(name) for name in PUBLISHED]


def published_alone(world, base, kinds, number):
    memo = world.__dict__.setdefault("c24_alone", {})
    key = (base, kinds[number], number)
    if key not in memo:
        world.reset(base_snapshot(world, base))
        session(world, kinds[number][1], number, Path(world.realms["R"]),
                "tvl" if kinds[number][3] != "calls" else "uuids")
        memo[key] = published(world)
    return memo[key]


def undisturbed(world, kind, state):
    """result of a reader that is alone, all objects exist"""
    memo = world.__dict__.setdefault("c24_undisturbed", {})
    key = (kind, state)
    if key not in memo:
        kept = world.snapshot()
        repo = world.repo()
        for name, location in zip(PUBLISHED, state):
            if location is None:
                repo.refs.pop(name, None)
            else:
                repo.refs[name] = location
        world.new_session()
        result = READERS[kind](world.realms, lambda: None)
        if kind == "copy":
            result = fresh_content(world, "R")
            if fresh_content(world, "C") != result:
                raise Violation("a copy has other content than its source", "undisturbed copy")
        memo[key] = result
        world.reset(kept)
    return memo[key]


def case(item):
    base, reader, writers, kills = item
    return explore(Reader(the_world(), base, reader, writers, kills))


WRITERS = ["front", "file", "deep", "dlm", "uuid", "sub", "dataset", "version", "same_version", "delete",
           "create_sub"]


def items(quick):
    result = []

    def add(base, reader, writers, kills=0):
        entry = (base, reader, tuple(writers), kills)
        if entry not in result:
            result.append(entry)

    for reader in READERS:
        chosen = WRITERS if not quick or reader in ("full", "again") else \
            ["front", "delete"] if reader in ("copy", "twice") else \
            ["front", "deep", "uuid", "delete"]
        for kind in chosen:
            add("stored", reader, [(kind, "with")])
        for kind in ("version", "create") if not quick else ("create",):
            add("nothing", reader, [(kind, "with")])
    add("stored", "full", [("file", "none")])
    add("stored", "again", [("file", "calls")], 1)
    add("stored", "copy", [("delete", "with")], 1)
    add("stored", "lookup", [("delete", "with"), ("same_version", "with")])
    if not quick:
        add("stored", "twice", [("file", "with"), ("version", "with")])
        add("nothing", "full", [("version", "with"), ("same_version", "with")])
        for reader in READERS:
            for kind in WRITERS:
                add("stored", reader, [(kind, "calls")], 1)
                add("stored", reader, [(kind, "none")])
            for first, second in (("file", "delete"), ("uuid", "version"), ("sub", "dataset")):
                add("stored", reader, [(first, "with"), (second, "calls")])
            add("nothing", reader, [("version", "with"), ("create", "calls")])
    result.sort(key=lambda e: -(len(e[2]) * 3 + e[3]))
    return result


def run(ctx):
    todo = items(ctx.quick)
    for value in run_cases(ctx, case, todo, chunk=1):
        for name, amount in value.items():
            ctx.count(name, amount)
        if value.get("capped"):
            ctx.cap("states of a scenario")
    ctx.count("scenarios", len(todo))
    for index in (0, len(todo) // 2, len(todo) - 1):
        ctx.sample(todo[index])
    bind(ctx)


def bind(ctx):
    """a reader between the publications of a writer, on the model and with the real git"""
    world = the_world()
    for kind in ("file", "delete"):
        world.reset(base_snapshot(world, "stored"))
        with Trace(world) as trace:
            tvl, uuids = load(world.realms["R"])
            world.new_session()
            session(world, kind, 0, Path(world.realms["R"]))
            read_top(tvl, uuids)
            copy(world.realms, lambda: None)
        validate_trace(ctx, trace)
        content = fresh_content(world)
        final = trace.final[os.path.join(world.realms["R"], ".git")]
        if real_read([final], collect=False) != [("ok", content)]:
            ctx.violation("content read by a new process with the real git differs",
                          ["bind"], "real process reads other content")
        ctx.count("real_process_reads")


def replay(item):
    if item == ("bind",):
        return None
    return case(item)
