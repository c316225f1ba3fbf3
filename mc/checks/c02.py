"""C02: no modification is lost over any session history"""
from ..conformance import validate_histories
from ..framework import Search
from ..session import SessionMachine

TECHNIQUE = "explicit-state model checking of the real code against a reference model"
NOTE = ("All operation histories up to the stated depth over a fixed alphabet (modify, partial "
        "save, release, save, reload) from several start states, states merged by a canonical "
        "digest of all objects, package state and store. One realm, few datasets and paths. "
        "The git model is bound to the real git by trace replay.")

RUNS = [("run", "T", "", "a"), ("run", "T", "", "n/x"), ("run", "T", "", None),
        ("run", "T", "s/d", "a"), ("run", "U", "", "a"), ("run", "U", "s/d", None)]
STRUCTURE = [("newfiles", "T", ""), ("newdlm", "U", ""), ("dataset", "n"),
             ("delete", "s"), ("subtree", "k"), ("tree2",)]
PARTIAL = [("write", "meta", "T", "", "a"), ("write", "files", "T", ""),
           ("write", "dlm", "T", ""), ("write", "record", "T", ""),
           ("write", "record", "U", "s/d"), ("write", "tree"),
           ("write", "versions", ""), ("write", "tvl"), ("write", "uuids")]
RELEASE = [("purge", "meta", "T", "", "a"), ("purge", "files", "T", ""),
           ("purge", "record", "T", ""), ("purge", "tree"), ("purge", "versions", ""),
           ("purge", "tvl"), ("purge", "uuids"),
           ("unget", "tree"), ("unget", "versions", ""), ("unget", "record", "U", ""),
           ("unget", "meta", "T", "", "a")]
SESSION = [("save",), ("default_save",), ("reload",)]
ALL = RUNS + STRUCTURE + PARTIAL + RELEASE + SESSION

# modifications of every kind of detail, most of them without a change of structure
VARIANTS = [("run", "T", "", "a", v) for v in ("stamp", "author", "email", "config", "version",
                                               "extractor")]
DETAILS = VARIANTS + [
    ("run", "U", "", None, "stamp"), ("run", "U", "s/d", "a", "config"),
    ("run", "P", "o", "a"), ("run", "Q", "", None), ("write", "record", "Q", ""),
    ("restamp", "T", ""), ("restamp", "U", ""), ("restamp", "U", "s/d"), ("prefixed",),
    ("newlist", "s/d"), ("relist", ""), ("tree2",), ("newdlm", "T", "s/d"),
    ("write", "tree"), ("write", "versions", ""), ("purge", "record", "T", ""),
    ("purge", "tvl"), ("unget", "versions", ""), ("save",), ("reload",)]


class Machine(SessionMachine):
    flush = False       # protection from garbage collection is property C09

    def check(self, state, history):
        expected = state.model.doc()
        stored = state.model.stored
        # what was saved so far is what a new process reads
        snapshot = state.world.snapshot()
        # complete the history by a save of the top-level objects
        self.op_save(state)
        self.expect("content after save in a new process", self.fresh(state), expected)
        state.world.reset(snapshot)
        self.expect("stored content in a new process", self.fresh(state), stored)


class DetailMachine(Machine):
    def setup_steps(self, name):
        steps = super().setup_steps(name)
        return steps[:-1] + [("prefixed",)] + steps[-1:]


def machine():
    return Machine(ALL, ("empty", "stored", "memory"))


CORE = [("run", "T", "", "a"), ("run", "U", "", "a"), ("run", "T", "s/d", None),
        ("write", "meta", "T", "", "a"), ("write", "files", "T", ""), ("write", "record", "T", ""),
        ("write", "tree"), ("purge", "files", "T", ""), ("purge", "tree"),
        ("unget", "versions", ""), ("save",)]


def run(ctx):
    search = Search(ctx, machine(), depth=3 if ctx.quick else 4)
    search.run()
    core = Search(ctx, Machine(CORE, ("memory",)), depth=6 if ctx.quick else 8)
    core.run()
    details = Search(ctx, DetailMachine(DETAILS, ("stored", "memory")), depth=3 if ctx.quick else 4)
    details.run()
    validate_histories(ctx, machine(), search, search.selection(8 if ctx.quick else 40))
    ctx.assume("one realm, one root dataset, one sub-dataset, two file paths, two values per "
               "extractor run; objects are looked up from the top before every operation")


def replay(case):
    for m in (machine(), DetailMachine(DETAILS)):
        state = Search(None, m, 0).replay(case)
        m.check(state, case)
