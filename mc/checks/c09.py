"""C09: saved and flushed metadata survives garbage collection"""
import os

from .. import world as W
from ..conformance import Trace, real_read, validate_trace
from ..content import Path, diff, flush_object_references, load, read_top
from ..framework import Search, Violation, run_cases
from ..session import SessionMachine
from ..shapes import BUILD, DOC, uuid_shapes, version_shapes

TECHNIQUE = "explicit-state model checking of the real code with a modelled garbage collector"
NOTE = ("All operation histories up to the stated depth over a fixed alphabet; after each of them "
        "save, flush, removal of every object that git would not reach from a reference, and a "
        "read by a new process. Every process flushes what it saved before it ends (the cached "
        "references live in its memory only). The git model, including reachability, is bound to "
        "the real git by trace replay and by a real git gc.")

MODIFY = [("run", "T", "", "a"), ("run", "T", "s/d", "x/y"), ("run", "T", "", None),
          ("run", "U", "", "a"), ("newfiles", "T", ""), ("newdlm", "T", ""), ("dataset", "n"),
          ("delete", "s"), ("subtree", "k"), ("tree2",)]
PARTIAL = [("write", "meta", "T", "", "a"), ("write", "files", "T", ""),
           ("write", "dlm", "T", ""), ("write", "record", "T", ""), ("write", "record", "U", ""),
           ("write", "tree"), ("write", "versions", ""), ("write", "tvl"), ("write", "uuids")]
RELEASE = [("purge", "files", "T", ""), ("purge", "tree"), ("purge", "tvl"), ("purge", "uuids"),
           ("unget", "tree"), ("unget", "versions", ""), ("unget", "record", "U", ""),
           ("unget", "meta", "T", "", "a")]
SESSION = [("save",), ("default_save",), ("force_save",), ("save_uuids_first",), ("flush",),
           ("collect",), ("reload",)]
ALL = MODIFY + PARTIAL + RELEASE + SESSION
CORE = [("run", "T", "", "a"), ("run", "U", "", "a"), ("tree2",), ("write", "files", "T", ""),
        ("write", "tree"), ("unget", "tree"), ("purge", "uuids"), ("flush",),
        ("collect",), ("reload",)]


class Machine(SessionMachine):
    flush = True

    def op_flush(self, state):
        flush_object_references(Path(self.realm))

    def op_collect(self, state):
        """save, flush, and garbage collection; the session continues"""
        self.op_save(state)
        self.collect(state)

    def op_reload(self, state):
        self.op_flush(state)
        super().op_reload(state)

    def collect(self, state):
        missing = state.world.repo().gc()
        if missing:
            raise Violation(f"references to missing objects: {sorted(missing)[:3]}",
                            "references to missing objects")

    def check(self, state, history):
        expected = state.model.doc()
        self.op_save(state)
        self.collect(state)
        self.expect("content after garbage collection in a new process",
                    self.fresh(state), expected)


class SameProcess(Machine):
    """the process that saved continues to use its objects after the collection"""

    def check(self, state, history):
        expected = state.model.doc()
        self.op_save(state)
        self.collect(state)
        self.expect("content seen by the running process after garbage collection",
                    self.observe(state), expected)
        self.op_run(state, "T", "", "a")
        self.op_run(state, "U", "", None)
        expected = state.model.doc()
        self.op_save(state)
        self.collect(state)
        self.expect("content after two garbage collections in a new process",
                    self.fresh(state), expected)


class TwoRealms(Machine):
    """the same objects are saved in two realms, one of them might be collected at any time"""
    realm_names = ("R", "S")

    def op_save_to(self, state, name):
        realm = state.world.realms[name]
        state.tvl.write_out(realm)
        state.uuids.write_out(realm)
        flush_object_references(Path(realm))

    def op_write_to(self, state, name, *what):
        """partial save, to be flushed later"""
        self.node_pair(state, ("write",) + what)[1]().write_out(state.world.realms[name])

    def enabled(self, state, op):
        if op[0] == "write_to":
            return self.node_pair(state, ("write",) + op[2:]) is not None
        return super().enabled(state, op)

    def check(self, state, history):
        expected = state.model.doc()
        for name in ("R", "S"):
            self.op_save_to(state, name)
            missing = state.world.repo(name).gc()
            if missing:
                raise Violation(f"references to missing objects: {sorted(missing)[:3]}",
                                "references to missing objects")
        for name in ("R", "S"):
            self.expect(f"content of realm {name} after garbage collection in a new process",
                        self.fresh(state, name), expected)


TWO = [("run", "T", "", "a"), ("run", "U", "", None), ("run", "T", "s/d", "a"),
       ("write_to", "S", "files", "T", ""), ("write_to", "R", "record", "T", ""),
       ("write_to", "S", "tree"), ("write_to", "R", "tree"), ("write_to", "S", "versions", ""),
       ("save_to", "R"), ("save_to", "S")]
# nothing is unloaded here: an object that is stored in one realm only can not be written to
# another one while it is not loaded


def machine():
    return Machine(ALL, ("empty", "stored", "memory"))


def shape_case(item):
    """every shape of the top-level objects, saved over another one"""
    cls, first, second = item
    world = W.get_world()
    realm = world.realms["R"]
    world.reset()
    index = 0 if cls == "TreeVersionList" else 1
    for shape in (first, second):
        BUILD[cls](shape).write_out(realm)
        flush_object_references(Path(realm))
        missing = world.repo().gc()
        if missing:
            raise Violation("references to missing objects")
        snapshot = world.snapshot()
        world.reset(snapshot)
        got = load(realm)[index]
        got = read_top(got, None)["tvl"] if index == 0 else read_top(None, got)["uuid"]
        if got != DOC[cls](shape):
            raise Violation(f"{cls}: content after garbage collection (expected / got): "
                            f"{diff(DOC[cls](shape), got)}", "content of shape after collection")
        world.reset(snapshot)
    return repr(item)


def shape_items(full):
    for cls, shapes in (("TreeVersionList", list(version_shapes(False, True))),
                        ("UUIDSet", list(uuid_shapes(False)))):
        for i, first in enumerate(shapes):
            seconds = shapes if full else shapes[(7 * i) % 11::11]
            for second in seconds:
                yield cls, first, second


def run(ctx):
    search = Search(ctx, machine(), depth=3 if ctx.quick else 4)
    search.run()
    Search(ctx, SameProcess(CORE, ("stored", "memory")), depth=4 if ctx.quick else 6).run()
    Search(ctx, TwoRealms(TWO, ("unsaved", "memory")), depth=3 if ctx.quick else 5).run()
    values = run_cases(ctx, shape_case, list(shape_items(not ctx.quick)))
    ctx.count("pairs_of_model_shapes", len(values))
    # binding: the same histories on the real git, with a real collection
    repos, expected, kept = [], [], []
    for history in search.selection(8 if ctx.quick else 40):
        m = machine()
        world = W.get_world(m.realm_names)
        state = m.start(history[0])
        for op in history[1:]:
            if op[0] != "collect":      # not a command of the package
                m.apply(state, op)
        with Trace(world) as trace:
            m.op_save(state)
        validate_trace(ctx, trace)
        repos.append(trace.final[os.path.join(world.realms["R"], ".git")])
        expected.append(state.model.doc())
        kept.append(history)
    for history, content, result in zip(kept, expected, real_read(repos, collect=True)):
        if result != ("ok", content):
            ctx.violation(
                "content read by a new process after a real git gc differs: "
                f"{result!r:.600} instead of {content!r:.600}",
                history, "real process reads other content after gc")
        ctx.count("real_process_reads_after_real_gc")
    ctx.assume("one realm; every process that saved also flushed; no garbage collection while "
               "objects are saved but not yet flushed")


def replay(case):
    if case and case[0] in ("TreeVersionList", "UUIDSet"):
        return shape_case(case)
    if any(op[0].endswith("_to") for op in case) or case[0] == ("init", "unsaved"):
        machines = (TwoRealms,)
    else:
        machines = (Machine, SameProcess)
    for cls in machines:
        m = cls(ALL)
        state = Search(None, m, 0).replay(case)
        m.check(state, case)
