"""C14: legacy reference stores are converted without loss"""
import itertools
import os
from pathlib import Path

from .. import gitmodel
from .. import world as W
from ..conc import Scenario, explore
from ..conformance import Trace, validate_trace
from ..content import flush_object_references
from ..framework import Violation, run_cases
from ..gitmodel import EMPTY_TREE, decode_tree, mode_type

TECHNIQUE = ("stateless model checking of the real code in controlled processes on a git model "
             "with real file locks, all interleavings, crash points and command failures")
NOTE = ("Every combination of absent, empty and populated legacy and current stores from the "
        "listed alphabet; one, two (thorough: three) converting processes in all interleavings, "
        "with up to one (thorough: two) kills before any storage operation or failed commands. "
        "Programs of older versions that still write to the legacy stores are not modelled.")

REFERENCES = "refs/datalad/object-references-2.0"
LEGACY_TREES = "refs/datalad/object-references/trees"
LEGACY_BLOBS = "refs/datalad/object-references/blobs"
NAMES = ("R", "C")

# names of objects; fake ones only exist as references
FAKE = {"f1": "1" * 40, "f1'": "1" * 39 + "2", "f2": "111" + "2" * 37, "f3": "3" * 40,
        "g1": "111111" + "5" * 34, "g2": "6" * 40, "new": "7" * 40, "new'": "777" + "8" * 37}


def real_objects(repo):
    """t1, t2: trees with content; b1, b2: blobs"""
    result = {}
    for number in (1, 2):
        blob = repo.put("blob", b"content of tree %d" % number)
        result[f"t{number}"] = repo.put(
            "tree", gitmodel.encode_tree([(b"100644", b"f", blob)]))
        result[f"b{number}"] = repo.put("blob", b"blob %d" % number)
    return result


def is_tree(name):
    return name[0] in "tf" and not name.startswith("new")


def snapshot_of(world, bases):
    """bases: per realm (legacy trees, legacy blobs, current)"""
    world.reset()
    for realm, (trees, blobs, current) in zip(NAMES, bases):
        repo = world.repo(realm)
        shas = dict(FAKE, **real_objects(repo))
        if current is not None:
            from dataladmetadatamodel.mapper.gitmapper.objectreference import (
                add_blob_reference, add_tree_reference)
            for name in current:
                (add_tree_reference if is_tree(name) else add_blob_reference)(
                    shas[name], world.realms[realm])
            flush_object_references(Path(world.realms[realm]))
            world.new_session()
        for names, reference, mode in ((trees, LEGACY_TREES, b"40000"),
                                       (blobs, LEGACY_BLOBS, b"100644")):
            if names is not None:
                repo.refs[reference] = repo.put("tree", gitmodel.encode_tree(
                    [(mode, shas[n].encode(), shas[n]) for n in names]))
    return world.snapshot()


def entries(repo, reference):
    """what is recorded: sha -> type, of everything below the reference"""
    result = {}
    todo = [repo.refs[reference]] if reference in repo.refs else []
    while todo:
        sha = todo.pop()
        kind, data = repo.objects.get(sha, ("tree", b"") if sha == EMPTY_TREE else (None, b""))
        if kind == "tree":
            for mode, _, child in decode_tree(data):
                if child not in result:
                    result[child] = mode_type(mode)
                    todo.append(child)
    return result


class Conversion(Scenario):
    """
    bases: per realm; processes: tuples of steps
    ("flush", realm, spelling, names of new references) and
    ("retry", ...) which repeats the flush once if it fails
    """

    def __init__(self, world, bases, processes, kills=0, fails=0):
        super().__init__(world)
        self.kills = kills
        self.fails = fails
        self.snapshot = snapshot_of(world, bases)
        self.shas = {}
        self.expected = {}
        for realm, (trees, blobs, current) in zip(NAMES, bases):
            self.shas[realm] = dict(FAKE, **real_objects(world.repo(realm)))
            self.expected[realm] = {
                self.shas[realm][n]: "tree" if is_tree(n) else "blob"
                for n in (trees or ()) + (blobs or ()) + (current or ())}
        self.programs = [self.program(steps) for steps in processes]
        self.steps = processes
        link = Path(world.root) / "link-R"
        if not link.is_symlink():
            link.symlink_to(world.realms["R"])

    def reset(self):
        self.world.reset(self.snapshot)

    def program(self, steps):
        def run(proxy):
            from dataladmetadatamodel.mapper.gitmapper.objectreference import (
                add_blob_reference, add_tree_reference)
            for kind, realm, spelling, new in steps:
                path = Path(self.world.realms[realm])
                if spelling == "link":
                    path = Path(self.world.root) / "link-R"
                for name in new:
                    (add_tree_reference if is_tree(name) else add_blob_reference)(
                        FAKE[name], path)
                try:
                    flush_object_references(path)
                except (RuntimeError, OSError):
                    if kind != "retry":
                        raise
                    flush_object_references(path)
        return run

    def monitor(self, run):
        for realm in NAMES:
            repo = self.world.repo(realm)
            kept = {}
            for reference in (REFERENCES, LEGACY_TREES, LEGACY_BLOBS):
                for sha, kind in entries(repo, reference).items():
                    kept.setdefault(sha, kind)
            for sha, kind in self.expected[realm].items():
                if sha not in kept:
                    raise Violation(f"reference to {kind} {sha} is in no store of {realm}",
                                    "reference lost")

    def complete(self, realm, when):
        repo = self.world.repo(realm)
        left = [r for r in (LEGACY_TREES, LEGACY_BLOBS) if r in repo.refs]
        if left:
            raise Violation(f"{when}: legacy store of {realm} still exists: {left}",
                            "legacy store left")
        current = entries(repo, REFERENCES)
        for sha, kind in self.expected[realm].items():
            if current.get(sha) != kind:
                raise Violation(
                    f"{when}: {kind} {sha} of {realm} is recorded as {current.get(sha)}",
                    "not converted")

    def final(self, run):
        world = self.world
        faults = run.kills + run.fails
        flushed = {"R": {}, "C": {}}
        for p, steps in zip(run.processes, self.steps):
            ok = p.outcome is not None and p.outcome[0] == "ok"
            if p.outcome is not None and not ok and not faults:
                raise Violation(f"P{p.index} failed: {p.outcome[1]}", "flush failed")
            if ok:
                for _, realm, _, new in steps:
                    flushed[realm].update(
                        {FAKE[n]: "tree" if is_tree(n) else "blob" for n in new})
                    self.complete(realm, "after a successful flush")
        for realm in NAMES:
            kept = world.repo(realm).reachable()[0]
            repo = world.repo(realm)
            for sha in self.expected[realm]:
                if sha in repo.objects and sha not in kept:
                    raise Violation(f"{sha} would be collected", "collected")
            repo.gc()
        # a later process
        world.new_session()
        for realm in NAMES:
            flush_object_references(Path(world.realms[realm]))
            self.complete(realm, "after a later flush")
            current = entries(world.repo(realm), REFERENCES)
            for sha, kind in flushed[realm].items():
                if current.get(sha) != kind:
                    raise Violation(f"new reference {sha} lost", "new reference lost")


def case(item):
    bases, processes, kills, fails = item
    world = W.get_world(NAMES)
    return explore(Conversion(world, bases, processes, kills, fails))


NONE = (None, None, None)
TREES = [None, (), ("t1",), ("f1", "f2"), ("t1", "t2", "f1'")]
BLOBS = [None, (), ("b1",), ("g1", "g2")]
CURRENT = [None, ("t1", "f1"), ("f3", "g1")]


def items(quick):
    result = []

    def add(bases, processes, kills=0, fails=0):
        entry = (tuple(bases), tuple(tuple(p) for p in processes), kills, fails)
        if entry not in result:
            result.append(entry)

    flush = ("flush", "R", "abs", ())
    with_new = ("flush", "R", "abs", ("new",))
    retry = ("retry", "R", "abs", ("new'",))
    linked = ("flush", "R", "link", ("new'",))
    combinations = [c for c in itertools.product(TREES, BLOBS, CURRENT)
                    if c[0] is not None or c[1] is not None]
    for base in combinations:
        for step in (flush, with_new, retry):
            add((base, NONE), [(step,)], kills=1)
            add((base, NONE), [(step,)], fails=1)
    for base in combinations if not quick else combinations[3::3]:
        add((base, NONE), [(flush,), (with_new,)])
    for base in [(("f1", "f2"), ("b1",), None), (("t1",), ("g1", "g2"), ("t1", "f1"))]:
        add((base, NONE), [(flush,), (linked,)], kills=1)
        add((base, NONE), [(flush,), (with_new,)], fails=1)
        if not quick:
            add((base, NONE), [(flush,), (retry,)], fails=1)
    # several realms, several flushes of one process
    for base in combinations if not quick else combinations[5::8]:
        other = ("flush", "C", "abs", ("new",))
        for faults in ({"kills": 1}, {"fails": 1}):
            add((base, base), [(flush, other, retry, other)], **faults)
            add((base, combinations[-1]), [(other, flush)], **faults)
            add((base, NONE), [(flush, linked, with_new)], **faults)
    if not quick:
        for base in combinations:
            add((base, NONE), [(flush,), (linked,)], kills=1)
            add((base, NONE), [(with_new,), (retry,)], fails=1)
            add((base, NONE), [(retry,)], kills=1, fails=2)
        for base in combinations[::5]:
            add((base, base), [(flush, ("flush", "C", "abs", ())),
                               (("flush", "C", "abs", ("new",)), with_new)])
            add((base, NONE), [(retry,), (retry,)], kills=1, fails=1)
        for base in combinations[7::12]:
            add((base, NONE), [(flush,), (linked,), (with_new,)])
    result.sort(key=lambda e: -(len(e[1]) * 10 + e[2] + e[3] + len(e[1][0])))
    return result


def run(ctx):
    todo = items(ctx.quick)
    for value in run_cases(ctx, case, todo, chunk=1):
        for name, amount in value.items():
            ctx.count(name, amount)
    ctx.count("scenarios", len(todo))
    for index in (0, len(todo) // 2, len(todo) - 1):
        ctx.sample(todo[index])
    # the commands of conversions against the real git
    for trees, blobs, current in [(("t1", "f2"), ("b1",), ("t1",)), (None, ("b1", "b2"), None),
                                  ((), (), ("b1",)), (("t1", "t2"), None, None)]:
        world = W.get_world(NAMES)
        world.reset(snapshot_of(world, ((trees, blobs, current), NONE)))
        with Trace(world) as trace:
            flush_object_references(Path(world.realms["R"]))
        validate_trace(ctx, trace)


def replay(item):
    return case(item)
