"""C10: a crash never leaves a published reference to incomplete data"""
import itertools

from .. import gitmodel
from .. import world as W
from ..conformance import real_read
from ..content import (
    ExtractorConfiguration, FileTree, Metadata, MetadataPath, MetadataRootRecord, UUID, diff,
    flush_object_references, Path,
)
from ..ensure import EnsureMachine
from ..framework import Violation, run_cases
from ..gitmodel import decode_tree
from ..session import fresh_content

TECHNIQUE = "exhaustive enumeration of crash points of the real code on a git model"
NOTE = ("Every store state that a crash of the listed histories can leave behind: before and "
        "after every storage mutation and after every number of objects of a batch. Storage "
        "commands are atomic (as in git), except for batches. Each state is read by a new "
        "process, collected, and the history is repeated on it.")
LEVEL = "fault_enumeration"

REFERENCES = "refs/datalad/object-references-2.0"

MODIFY = [("set", "T", "", "a", 2), ("set", "T", "", "n/x", 1), ("set", "T", "", None, 2),
          ("set", "T", "s/d", "a", 2), ("set", "U", "", "a", 3), ("set", "U", "s/d", None, 3),
          ("dataset", "n"), ("delete", "s"), ("subtree", "k"), ("tree2",)]
PARTIAL = [("write", "meta", "T", "", "a"), ("write", "files", "T", ""),
           ("write", "record", "T", ""), ("write", "record", "U", ""), ("write", "tree"),
           ("write", "versions", ""), ("write", "tvl"), ("write", "uuids"),
           ("unget", "tree"), ("unget", "versions", ""), ("purge", "uuids"), ("save",)]
FINALS = ["save", "save_uuids_first", "default_save", "force_save"]


class Recorder(gitmodel.Policy):
    """remembers the stores that a crash at any point would leave behind"""

    def __init__(self, git, step=1):
        self.git = git
        self.step = step
        self.seen = 0
        self.points = [("start", git.snapshot())]

    def before(self, event):
        size = event.batch
        if size > 1:
            key = self.git.key(event.git_dir)
            steps = range(1, size)
            if size > 50:
                steps = (1, 2, size // 2, size - 1)
            for amount in steps:
                snapshot = self.git.snapshot()
                for content in event.read_files()[:amount]:
                    snapshot[key].put("blob", content)
                self.points.append((f"{amount} of {size} objects of batch {event.index}",
                                    snapshot))

    def after(self, event, result):
        if event.command == "mktree":
            self.seen += 1
            if self.seen % self.step:
                return
        if event.mutating:
            self.points.append((f"after {event.index} {event.short()[:60]}",
                                self.git.snapshot()))


def protected(repo):
    """everything that is reachable from the recorded object references"""
    level = {repo.refs[REFERENCES]} if REFERENCES in repo.refs else set()
    for _ in range(4):
        level = {entry[2] for sha in level for entry in decode_tree(repo.objects[sha][1])}
    return repo.reachable(level)[0]


def signature(snapshot):
    return tuple((k, tuple(sorted(r.refs.items())), frozenset(r.objects))
                 for k, r in sorted(snapshot.items()))


MACHINE = EnsureMachine()
SEEN = {}


def case(history):
    """history: init, operations..., ("final", name)"""
    machine = MACHINE
    body, final = history[:-1], history[-1][1]
    state = machine.start(body[0])
    world = state.world
    for op in body[1:]:
        if not machine.enabled(state, op):
            return None
        machine.apply(state, op)
    if final == "default_save" and not machine.enabled(state, ("default_save",)):
        return None
    old = state.model.stored
    new = state.model.doc()
    before = protected(world.repo())
    published_before = published(world.repo())
    # a top-level object saved by ("write", ...) is published, but not yet flushed
    flushed = ("write", "tvl") not in body and ("write", "uuids") not in body
    recorder = world.git.policy = Recorder(world.git)
    getattr(machine, "op_" + final)(state)
    world.git.policy = None
    points = 0
    distinct = set()
    for name, snapshot in recorder.points:
        sign = signature(snapshot)
        if sign in distinct:
            continue
        distinct.add(sign)
        points += 1
        try:
            point(world, machine, body, final, snapshot, old, new, before,
                  published_before, flushed)
        except Violation as violation:
            raise Violation(f"crash {name}: {violation.message}", violation.key)
        except Exception as error:
            raise Violation(f"crash {name}: {type(error).__name__}: {error}",
                            f"{type(error).__name__} after a crash")
    return len(recorder.points), points


def old_or_new(content, old, new):
    for key in ("tvl", "uuid"):
        if content[key] != old[key] and content[key] != new[key]:
            raise Violation(f"{key} is neither the previous nor the new content: "
                            f"{diff(new[key], content[key])}", f"{key} neither old nor new")


def published(repo):
    return {k: v for k, v in repo.refs.items() if k != REFERENCES}


def point(world, machine, body, final, snapshot, old, new, before, published_before,
          flushed):
    world.reset(snapshot)
    old_or_new(fresh_content(world), old, new)
    # what was flushed before is still protected
    world.reset(snapshot)
    repo = world.repo()
    if not before <= protected(repo):
        raise Violation("references that were flushed before are lost after the crash",
                        "flushed references lost")
    if published(repo) == published_before and flushed:
        repo.gc()
        content = fresh_content(world)
        if content != old:
            raise Violation(f"previous content after crash and garbage collection: "
                            f"{diff(old, content)}", "previous content after collection")
    # a new process repeats the interrupted work
    world.reset(snapshot)
    nothing_published = published(world.repo()) == published_before and flushed
    state = machine.resume(world, body)
    intended = state.model.doc()
    if intended != new:
        if body[0][1] == "unsaved":
            # new records are shared by both indices, in the repetition they are not
            new = intended
        else:
            raise RuntimeError(
                f"repetition does not intend the same: {diff(new, intended)}")
    getattr(machine, "op_" + final if final != "default_save" else "op_save")(state)
    if nothing_published:
        world.repo().gc()
    content = fresh_content(world)
    if content != new:
        raise Violation(f"content after the save was repeated (expected / got): "
                        f"{diff(new, content)}", "content after repeated save")


def big_case(item):
    """more metadata than the write cache holds"""
    number, part = item
    world = W.get_world()
    world.reset()
    realm = world.realms["R"]

    def build(value):
        from ..content import TreeVersionList, DatasetTree
        files = FileTree()
        for i in range(number):
            meta = Metadata()
            meta.add_extractor_run(1.0, "e", "n", "m", ExtractorConfiguration("1", {}),
                                   {"v": value, "i": i})
            files.add_metadata(MetadataPath(f"d{i % 7}/f{i}"), meta)
        tree = DatasetTree()
        tree.add_dataset(MetadataPath(""), MetadataRootRecord(UUID(int=1), "v", None, files))
        tvl = TreeVersionList()
        tvl.set_dataset_tree("v", "1", MetadataPath(""), tree)
        return tvl

    docs = []
    for value in (1, 2):
        if value == 2:
            recorder = world.git.policy = Recorder(world.git, step=400)
        build(value).write_out(realm)
        flush_object_references(Path(realm))
        world.git.policy = None
        if value == 1:
            before = protected(world.repo())
        snapshot = world.snapshot()
        docs.append(fresh_content(world))
        world.reset(snapshot)
    old, new = docs
    points = recorder.points[part::8]
    for name, snapshot in points:
        world.reset(snapshot)
        old_or_new(fresh_content(world), old, new)
        if not before <= protected(world.repo()):
            raise Violation("references that were flushed before are lost after the crash",
                            "flushed references lost")
        world.reset(snapshot)
        build(2).write_out(realm)
        flush_object_references(Path(realm))
        world.repo().gc()
        if fresh_content(world) != new:
            raise Violation("content after the save was repeated", "content after repeated save")
    return len(points), len(points)


def histories(full):
    ops = MODIFY + PARTIAL
    for init in ("unsaved", "stored"):
        for size in (0, 1, 2, 3) if full else (0, 1, 2):
            for chosen in itertools.product(ops, repeat=size):
                # a final save without a modification before is not interesting
                if size > 1 and chosen[0][0] in ("unget", "purge"):
                    continue
                finals = FINALS if size < 2 or (full and size < 3) else FINALS[:1]
                for final in finals:
                    yield (("init", init),) + chosen + (("final", final),)


def run(ctx):
    items = list(histories(not ctx.quick))
    values = [v for v in run_cases(ctx, case, items) if v]
    ctx.count("histories", len(values))
    values += run_cases(ctx, big_case, [
        (number, part) for number in ([1005] if ctx.quick else [1000, 1001, 1005, 2100])
        for part in range(8)], chunk=1)
    ctx.count("crash_points", sum(v[0] for v in values))
    ctx.count("distinct_crash_states", sum(v[1] for v in values))
    ctx.count("evaluations", sum(v[1] for v in values))
    ctx.count("distinct_nontrivial", sum(v[1] - 1 for v in values))
    ctx.note("rule", "every store state after a prefix of the storage mutations (and inside "
                     "batches) of the final save of every history; the state before the first "
                     "mutation counts as trivial")
    for index in range(0, len(items), max(1, len(items) // 6)):
        ctx.sample(items[index])
    # crash states, read by the real git in a real process
    machine = MACHINE
    for history in items[5:len(items):max(1, len(items) // (6 if ctx.quick else 30))]:
        state = machine.start(history[0])
        for op in history[1:-1]:
            if machine.enabled(state, op):
                machine.apply(state, op)
        old, new = state.model.stored, state.model.doc()
        recorder = state.world.git.policy = Recorder(state.world.git)
        machine.op_save(state)
        state.world.git.policy = None
        path = state.world.git.key(state.world.realms["R"] + "/.git")
        repos = [snapshot[path] for _, snapshot in recorder.points]
        for (name, _), result in zip(recorder.points, real_read(repos)):
            if result[0] != "ok":
                ctx.violation(f"crash {name}: a real process fails to read: {result}",
                              history, "real process fails to read")
            else:
                try:
                    old_or_new(result[1], old, new)
                except Violation as violation:
                    ctx.violation(f"crash {name}: real process: {violation.message}", history,
                                  "real process: " + violation.key)
            ctx.count("real_process_reads")
    ctx.assume("single storage commands are atomic; the repeated work consists of the same "
               "operations on the content found; a session that published but did not flush "
               "before it died is protected from garbage collection only as far as it is repeated")


def replay(case_):
    if isinstance(case_[0], int):
        return big_case(case_)
    return case(case_)
