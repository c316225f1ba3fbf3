"""C13: the backend lock excludes other processes and is reentrant"""
import itertools
import os
from pathlib import Path

from .. import world as W
from ..conc import Scenario, explore
from ..content import flush_object_references
from ..framework import Violation, run_cases

TECHNIQUE = ("stateless model checking of the real lock code in controlled processes with real "
             "kernel file locks, all interleavings")
NOTE = ("All interleavings (no preemption bound) of the enumerated lock programs: every forest of "
        "at most three (thorough: four) locked regions over two realms and the path spellings, "
        "with errors raised in them, against the listed programs of one or two other processes, "
        "and with one killed process or one or two interrupts (KeyboardInterrupt) of a "
        "process that waits for a lock or runs a command. Processes that fork while they hold a lock and threads of "
        "one process are not covered.")

REALMS = ("R", "R/R")
SPELLINGS = ("abs", "link", "rel", "dots")


class Planned(Exception):
    pass


class PlannedExit(BaseException):
    pass


# "interrupt" is not raised by the region itself: the explorer interrupts the
# process in it or while it waits for it, and it goes on behind the region
ERRORS = {"error": Planned, "exit": PlannedExit, "interrupt": KeyboardInterrupt}


def spelled(world, realm, spelling):
    path = world.realms[realm]
    if spelling == "link":
        return Path(world.root) / ("link-" + realm.replace("/", "-"))
    if spelling == "rel":
        return Path(os.path.relpath(path, os.getcwd()))
    if spelling == "dots":
        return Path(path) / ".." / os.path.basename(path)
    return Path(path)


# A program is a tuple of nodes:
#   ("with", realm, spelling, error or None, body)
#   ("calls", realm, spelling, error or None, body)   lock_backend / unlock_backend
#   ("flush", realm, spelling)

def perform(world, proxy, body):
    from dataladmetadatamodel.mapper.gitmapper import utils
    for node in body:
        kind, realm, spelling = node[:3]
        path = spelled(world, realm, spelling)
        if kind == "flush":
            from dataladmetadatamodel.mapper.gitmapper.objectreference import add_blob_reference
            add_blob_reference("5" * 40, path)
            proxy.touched.append(realm)
            try:
                flush_object_references(path)
            finally:
                proxy.touched.remove(realm)
            continue
        error, inner = node[3:]
        proxy.touched.append(realm)
        depth = proxy.claims.get(realm, 0)
        try:
            if kind == "with":
                with utils.locked_backend(path):
                    inside(world, proxy, realm, error, inner)
            else:
                utils.lock_backend(path)
                try:
                    inside(world, proxy, realm, error, inner)
                finally:
                    utils.unlock_backend(path)
        except ERRORS.get(error, ()):
            pass
        finally:
            if proxy.claims.get(realm, 0) > depth:
                proxy.claim(realm, -1)
            proxy.touched.remove(realm)


def inside(world, proxy, realm, error, body):
    # the region is left before the claim is withdrawn, but no other process
    # runs in between
    proxy.claim(realm, 1)
    perform(world, proxy, body)
    if proxy.claims[realm] == 1:
        proxy.point("in")
    if error and error != "interrupt":
        raise ERRORS[error]()


class LockScenario(Scenario):
    def __init__(self, world, programs, kills=0, elapses=1, interrupts=0):
        super().__init__(world)
        self.kills = kills
        self.interrupts = interrupts
        self.elapses = elapses
        self.bodies = programs
        self.programs = [self.program(body) for body in programs]
        for realm in REALMS:
            link = Path(world.root) / ("link-" + realm.replace("/", "-"))
            if not link.is_symlink():
                link.symlink_to(world.realms[realm])

    def program(self, body):
        def run(proxy):
            os.chdir(self.world.root)
            for node in body:
                try:
                    perform(self.world, proxy, (node,))
                except KeyboardInterrupt:
                    pass
        return run

    def monitor(self, run):
        for p in run.processes:
            if p.dead:
                continue
            for realm in p.claims:
                for q in run.processes:
                    if q is not p and not q.dead and realm in q.claims:
                        raise Violation(
                            f"two processes are in locked regions of {realm}",
                            "not exclusive")
            if p.blocked and p.touched:
                realm = p.touched[-1]
                if not any(realm in q.touched for q in run.processes
                           if q is not p and not q.dead):
                    raise Violation(f"a process waits for the lock of {realm}, "
                                    f"which nobody uses", "waits for free lock")

    def final(self, run):
        for p in run.processes:
            if p.outcome is not None and p.outcome[0] != "ok":
                raise Violation(f"a lock program failed: {p.outcome[1]}", "lock error")
        # the other processes still exist; a new one has to get the locks
        late = run.start(99, self.program(tuple(
            ("with", realm, "abs", None, ()) for realm in REALMS)))
        while late.active:
            if late.blocked:
                raise Violation("a lock is not free although all regions are left",
                                "lock leaked")
            run.step(("run", len(run.processes) - 1))


def shapes(size):
    """all ordered forests with the given number of nodes"""
    if size == 0:
        return [()]
    result = []
    for first in range(size):
        for inner in shapes(first):
            for rest in shapes(size - 1 - first):
                result.append((inner,) + rest)
    return result


def labelled(shape, labels):
    """replace the nodes of the forest, in pre-order, by labelled nodes"""
    labels = iter(labels)

    def walk(forest):
        out = []
        for inner in forest:
            kind, realm, spelling, error = next(labels)
            body = walk(inner)
            out.append((kind, realm, spelling, error, body))
        return tuple(out)

    return walk(shape)


def nested_order_ok(body, outer=()):
    """no region of R inside of one of R/R, to exclude deadlocks by lock order"""
    for node in body:
        realm = node[1]
        if realm == "R" and "R/R" in outer and "R" not in outer:
            return False
        if node[0] != "flush" and not nested_order_ok(node[4], outer + (realm,)):
            return False
    return True


PARTNERS = [
    (("with", "R", "abs", None, ()),),
    (("with", "R", "link", None, (("calls", "R", "abs", None, ()),)),
     ("with", "R/R", "abs", None, ())),
]


def programs(size, realms, spellings, errors, kinds):
    for shape in shapes(size):
        for chosen in itertools.product(
                itertools.product(kinds, realms, spellings), repeat=size):
            for position in range(-1, size):
                for error in (errors if position >= 0 else (None,)):
                    labels = [(k, r, s, error if i == position else None)
                              for i, (k, r, s) in enumerate(chosen)]
                    body = labelled(shape, labels)
                    if nested_order_ok(body):
                        yield body


def case(item):
    bodies, kills, interrupts = item
    world = W.get_world(REALMS)
    return explore(LockScenario(world, bodies, kills, interrupts=interrupts))


def items(quick):
    result = []

    def add(bodies, kills=0, interrupts=0):
        entry = (tuple(bodies), kills, interrupts)
        if entry not in seen:
            seen.add(entry)
            result.append(entry)

    seen = set()
    one = list(programs(1, REALMS, SPELLINGS, ("error", "exit"), ("with", "calls")))
    two = list(programs(2, REALMS, SPELLINGS, ("error",), ("with",))) \
        + list(programs(2, ("R",), ("abs", "rel"), ("exit",), ("with", "calls")))
    three = list(programs(3, ("R",), ("abs", "link", "rel"), ("error",), ("with",)))
    mixed = list(programs(3, REALMS, ("abs", "link"), (), ("with",)))
    for body in one:
        for partner in PARTNERS:
            add((body, partner))
            add((body, partner), 1)
    for body in two:
        add((body, PARTNERS[0]))
        add((body, PARTNERS[1]), 0)
    for body in three + mixed:
        add((body, PARTNERS[0]))
    # regions around and next to storage operations of the package
    for spelling in SPELLINGS:
        for other in SPELLINGS:
            flush = ("flush", "R", other)
            add(((("with", "R", spelling, None, (flush,)),), PARTNERS[0]))
            add(((("with", "R", spelling, None, (flush, flush)),), (("flush", "R", "abs"),)))
            add(((("with", "R", spelling, "error",
                   (flush, ("with", "R/R", spelling, None, ()))), flush), PARTNERS[0]))
    # three processes
    for a, b, c in itertools.combinations_with_replacement(SPELLINGS, 3):
        add([(("with", "R", s, None, ()),) for s in (a, b, c)])
    for a in two[::21] if quick else two:
        add((a, PARTNERS[0], PARTNERS[1]))
    # processes that are interrupted while they wait or run a command
    caught = list(programs(2, ("R",), ("abs", "link"), ("interrupt",), ("with", "calls"))) \
        + list(programs(2, REALMS, ("abs",), ("interrupt",), ("with",)))
    for body in caught:
        add((body, PARTNERS[0]), 0, 1)
        add((body, PARTNERS[1]), 0, 1 if quick else 2)
    for spelling in SPELLINGS:
        flush = ("flush", "R", spelling)
        add(((flush, flush), PARTNERS[0]), 0, 1)
        for caught_in in ("interrupt", None):
            inner = ("with", "R", "abs", caught_in, (flush,))
            add(((inner, flush), PARTNERS[0]), 0, 1)
            add(((("with", "R", spelling, None, (inner,)), flush), PARTNERS[0]), 0,
                1 if quick else 2)
    if not quick:
        for body in programs(3, ("R",), ("abs", "link"), ("interrupt",), ("with", "calls")):
            add((body, PARTNERS[0]), 0, 1)
        for body in three + mixed:
            add((body, PARTNERS[1]), 1)
        for body in programs(3, REALMS, SPELLINGS, ("error",), ("with",)):
            add((body, PARTNERS[0]))
        for body in programs(3, ("R",), ("abs", "link"), ("error", "exit"), ("with", "calls")):
            add((body, PARTNERS[0]), 1)
        for body in programs(4, ("R",), ("abs", "link"), ("error",), ("with",)):
            add((body, PARTNERS[0]))
        for a, b in itertools.product(one, one):
            add((a, b))
            add((a, b), 1)
    # the large ones first
    result.sort(key=lambda entry: -len(entry[0]))
    return result


def run(ctx):
    todo = items(ctx.quick)
    for value in run_cases(ctx, case, todo, chunk=2):
        for name, amount in value.items():
            ctx.count(name, amount)
    ctx.count("programs", len(todo))
    ctx.sample(todo[0])
    ctx.sample(todo[len(todo) // 2])
    ctx.sample(todo[-1])
    ctx.note("binding", "the real code runs in real processes with real kernel locks; no model "
                        "of the lock is used")


def replay(item):
    return case(item)
