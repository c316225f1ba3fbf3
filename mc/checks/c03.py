"""C03: releasing an object from memory never discards unsaved data"""
from ..conformance import validate_histories
from ..framework import Search
from ..session import SessionMachine

TECHNIQUE = "explicit-state model checking of the real code against a reference model"
NOTE = ("All histories of modifications, saves and releases up to the stated depth over a fixed "
        "alphabet; after each of them the complete content seen through the session is compared "
        "with the reference model. The git model is bound to the real git by trace replay.")

RUNS = [("run", "T", "", "a"), ("run", "T", "", "d/b"), ("run", "T", "", None),
        ("run", "T", "s/d", "a"), ("run", "U", "", "a")]
STRUCTURE = [("newfiles", "T", ""), ("newdlm", "T", ""), ("dataset", "n"), ("delete", "s"), ("subtree", "k")]
SAVE = [("write", "meta", "T", "", "a"), ("write", "files", "T", ""),
        ("write", "dlm", "T", ""), ("write", "record", "T", ""),
        ("write", "record", "U", ""), ("write", "tree"),
        ("write", "versions", ""), ("write", "tvl"), ("write", "uuids"),
        ("write_node", "files", "T", "", "d"), ("write_node", "tree", "s"), ("save",)]
RELEASE = [("purge", "meta", "T", "", "a"), ("purge", "files", "T", ""),
           ("purge", "dlm", "T", ""), ("purge", "record", "T", ""),
           ("purge", "record", "U", ""), ("purge", "tree"), ("purge", "versions", ""),
           ("purge", "tvl"), ("purge", "uuids"),
           ("purge_node", "files", "T", "", "d"), ("purge_node", "tree", "s"),
           ("unget", "tree"), ("unget", "versions", ""), ("unget", "record", "U", ""),
           ("unget", "meta", "T", "", "a")]
ALL = RUNS + STRUCTURE + SAVE + RELEASE
CORE = [("run", "T", "", "a"), ("run", "T", "s/d", "a"), ("run", "U", "", "a"),
        ("write", "meta", "T", "", "a"), ("write", "record", "T", ""), ("write", "tree"),
        ("purge", "meta", "T", "", "a"), ("purge", "files", "T", ""),
        ("purge", "record", "T", ""), ("purge", "tree"), ("purge", "versions", ""),
        ("purge", "tvl"), ("save",)]


class Machine(SessionMachine):
    flush = False

    def check(self, state, history):
        # Releases do not change the reference model, i.e. everything that can
        # be read through the objects of this session is as before.
        self.expect("content seen through the objects of the session",
                    self.observe(state), state.model.doc())


PREFIXED = [("run", "P", "o", "a"), ("run", "Q", "", None), ("run", "Q", "", "a"),
            ("run", "T", "", "a"), ("prefixed",),
            ("write", "record", "Q", ""), ("write", "files", "P", "o"), ("write", "versions", ""),
            ("write", "tree"), ("save",), ("purge", "record", "Q", ""), ("purge", "record", "U", ""),
            ("purge", "files", "P", "o"), ("purge", "versions", ""), ("unget", "versions", ""),
            ("purge", "tvl"), ("purge", "uuids")]


class PrefixedMachine(Machine):
    """elements of one version below two prefix paths"""

    def setup_steps(self, name):
        steps = super().setup_steps(name)
        return steps[:-1] + [("prefixed",)] + steps[-1:]


def machine():
    return Machine(ALL, ("empty", "stored", "memory"))


def run(ctx):
    search = Search(ctx, machine(), depth=3 if ctx.quick else 4)
    search.run()
    Search(ctx, Machine(CORE, ("memory", "unsaved")), depth=4 if ctx.quick else 6).run()
    Search(ctx, PrefixedMachine(PREFIXED, ("stored", "memory")),
           depth=3 if ctx.quick else 5).run()
    validate_histories(ctx, machine(), search, search.selection(8 if ctx.quick else 40))
    ctx.assume("one realm, one root dataset, one sub-dataset; objects are looked up from the "
               "top before every operation, at most two values per extractor run")


def replay(case):
    for m in (machine(), PrefixedMachine(PREFIXED)):
        state = Search(None, m, 0).replay(case)
        m.check(state, case)
