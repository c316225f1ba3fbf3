"""C15: realms and models are independent of each other"""
from .. import world as W
from .. import refmodel as ref
from ..conformance import Trace, real_read, validate_trace
from ..content import TreeVersionList, UUIDSet, Path, flush_object_references, load
from ..framework import Search, Violation
from ..session import SessionMachine, State, fresh_content

TECHNIQUE = "explicit-state model checking of the real code, two realms in one process"
NOTE = ("All interleaved histories up to the stated depth over fixed alphabets: one model saved "
        "to two realms, and two models of two realms with equal objects; the second realm lies "
        "in a directory of the first. After each history both realms are flushed, collected and "
        "read by new processes. Only the two realms of the model are covered.")

NAMES = ("R", "R/n")


def repo_state(world, name):
    repo = world.repo(name)
    return dict(repo.refs), set(repo.objects)


class OneModel(SessionMachine):
    """one model that is saved to two realms"""
    realm_names = NAMES
    flush = False

    def start(self, op):
        state = State(self, self.realm_names)
        world = state.world
        memo = world.__dict__.setdefault("c15_memo", {})
        if op[1] == "stored" and "stored" in memo:
            snapshot, doc, now = memo["stored"]
            world.reset(snapshot)
            W.CLOCK.now = now
            state.stored = {"R": doc, "R/n": {"tvl": None, "uuid": None}}
            self.op_reload_from(state, "R")
            return state
        world.reset()
        state.tvl, state.uuids = TreeVersionList(), UUIDSet()
        state.model.tvl, state.model.uuids = ref.RVersions(), ref.RUuids()
        state.stored = {n: {"tvl": None, "uuid": None} for n in NAMES}
        state.released = False
        for step in self.setup_steps("unsaved"):
            self.apply(state, step)
        if op[1] == "stored":
            self.op_save_to(state, "R")
            self.op_flush_to(state, "R")
            memo["stored"] = (world.snapshot(), state.stored["R"], W.CLOCK.now)
            return self.start(op)
        return state

    def enabled(self, state, op):
        if op[0] == "write_to":
            return self.node_pair(state, ("write",) + op[2:]) is not None
        if op[0] == "reload_from":
            return state.stored[op[1]]["tvl"] is not None
        return super().enabled(state, op)

    # one realm is the target, the other one must not change
    def on(self, state, name, function, *args, refusable=False):
        other = NAMES[1 - NAMES.index(name)]
        before = repo_state(state.world, other)
        try:
            function(*args)
            return True
        except RuntimeError:
            # released objects that the realm does not hold can not be written
            if not refusable or not state.released:
                raise
            # they might have to be saved before they can be released
            ref.mark_unsaved(state.model.tvl)
            ref.mark_unsaved(state.model.uuids)
            return False
        finally:
            if repo_state(state.world, other) != before:
                raise Violation(f"an operation on one realm changed the other one",
                                "other realm changed")

    def op_save_to(self, state, name):
        path = state.world.realms[name]
        complete = True
        if self.on(state, name, state.tvl.write_out, path, refusable=True):
            state.stored[name] = dict(state.stored[name], tvl=state.model.tvl.doc())
        else:
            complete = False
        if self.on(state, name, state.uuids.write_out, path, refusable=True):
            state.stored[name] = dict(state.stored[name], uuid=state.model.uuids.doc())
        else:
            complete = False
        return complete

    def op_write_to(self, state, name, *what):
        path = state.world.realms[name]
        node, getter = self.node_pair(state, ("write",) + what)
        real = getter()
        if self.on(state, name, real.write_out, path, refusable=True):
            if what[0] == "tvl":
                state.stored[name] = dict(state.stored[name], tvl=state.model.tvl.doc())
            if what[0] == "uuids":
                state.stored[name] = dict(state.stored[name], uuid=state.model.uuids.doc())

    def op_flush_to(self, state, name):
        self.on(state, name, flush_object_references, Path(state.world.realms[name]))

    def op_purge(self, state, *what):
        state.released = True
        super().op_purge(state, *what)

    def op_reload_from(self, state, name):
        """the process ends, a new one continues with the content of a realm"""
        if hasattr(state, "released"):
            for n in NAMES:
                self.op_flush_to(state, n)
        state.released = True
        state.world.new_session()
        state.tvl, state.uuids = load(state.world.realms[name])
        state.model = ref.rebuild(state.stored[name])
        if state.uuids is None:
            state.uuids, state.model.uuids = UUIDSet(), ref.RUuids()

    def digest(self, state):
        return state.world.canon(state.tvl, state.uuids, state.model, state.stored,
                                 state.released)

    def check(self, state, history):
        expected = state.model.doc()
        snapshot = None
        if history[-1][0] not in ("save_to", "flush_to"):
            self.op_save_to(state, "R")
        self.expect("content seen through the objects of the session",
                    self.observe(state), expected)
        self.settle(state.world, state.stored, ("R", "R/n"))

    def settle(self, world, stored, order):
        for name in order:
            flush_object_references(Path(world.realms[name]))
        for name in order:
            if world.repo(name).gc():
                raise Violation(f"realm {name} has references to objects it does not hold",
                                "references to objects of another realm")
        for name in order:
            self.expect(f"content of realm {name} in a new process",
                        fresh_content(world, name), stored[name])


ONE_OPS = [("run", "T", "", "a"), ("run", "T", "s/d", None), ("run", "U", "", "a"),
           ("save_to", "R"), ("save_to", "R/n"), ("flush_to", "R"), ("flush_to", "R/n"),
           ("write_to", "R", "files", "T", ""), ("write_to", "R/n", "files", "T", ""),
           ("write_to", "R/n", "record", "T", ""), ("write_to", "R", "tree"),
           ("write_to", "R/n", "tree"), ("write_to", "R/n", "versions", ""),
           ("write_to", "R", "meta", "T", "", "a"), ("write_to", "R/n", "meta", "T", "", "a"),
           ("purge", "files", "T", ""), ("purge", "record", "T", ""), ("purge", "tree"),
           ("purge", "versions", ""), ("purge", "tvl"),
           ("reload_from", "R"), ("reload_from", "R/n")]
ONE_CORE = [("run", "T", "", "a"), ("save_to", "R"), ("save_to", "R/n"), ("flush_to", "R"),
            ("flush_to", "R/n"), ("write_to", "R", "files", "T", ""),
            ("write_to", "R/n", "files", "T", ""), ("purge", "files", "T", ""),
            ("purge", "tree"), ("reload_from", "R/n")]


class OnRealm(SessionMachine):
    realm_names = NAMES
    flush = False

    def __init__(self, operations, name):
        super().__init__(operations)
        self.name = name

    @property
    def realm(self):
        return W.get_world(NAMES).realms[self.name]

    def op_flush(self, state):
        flush_object_references(Path(self.realm))


class Pair:
    pass


class TwoModels:
    """two realms with their own models in one process"""
    realm_names = NAMES

    def __init__(self, operations):
        self.machines = {n: OnRealm(operations, n) for n in NAMES}

    def initial(self):
        return [("init", "saved"), ("init", "unsaved"), ("init", "stored")]

    def start(self, op):
        pair = Pair()
        pair.world = W.get_world(NAMES)
        pair.world.reset()
        pair.subs = {}
        for name, machine in self.machines.items():
            state = State(machine, NAMES)
            state.tvl, state.uuids = TreeVersionList(), UUIDSet()
            state.model.tvl, state.model.uuids = ref.RVersions(), ref.RUuids()
            for step in machine.setup_steps("unsaved"):
                machine.apply(state, step)
            pair.subs[name] = state
        if op[1] in ("saved", "stored"):
            for name, machine in self.machines.items():
                machine.op_save(pair.subs[name])
        if op[1] == "stored":
            self.reload(pair)
        return pair

    def reload(self, pair):
        for name, machine in self.machines.items():
            flush_object_references(Path(machine.realm))
        for name, machine in self.machines.items():
            machine.op_reload(pair.subs[name])

    def ops(self, pair):
        result = []
        for name, machine in self.machines.items():
            result += [(name,) + op for op in machine.ops(pair.subs[name])]
        return result + [("*", "reload")]

    def apply(self, pair, op):
        if op[0] == "*":
            self.reload(pair)
            return
        other = NAMES[1 - NAMES.index(op[0])]
        before = repo_state(pair.world, other)
        self.machines[op[0]].apply(pair.subs[op[0]], op[1:])
        if repo_state(pair.world, other) != before:
            raise Violation("an operation on one realm changed the other one",
                            "other realm changed")

    def digest(self, pair):
        return pair.world.canon([(s.tvl, s.uuids, s.model) for s in pair.subs.values()])

    def check(self, pair, history):
        machines = self.machines
        expected = {n: s.model.doc() for n, s in pair.subs.items()}
        order = NAMES if len(history) % 2 else NAMES[::-1]
        for name in order:
            machines[name].op_save(pair.subs[name])
        for name in order:
            machines[name].expect("content seen through the objects of the session",
                                  machines[name].observe(pair.subs[name]), expected[name])
        OneModel.settle(machines["R"], pair.world, expected, order)


TWO_OPS = [("run", "T", "", "a"), ("run", "U", "", "a"), ("dataset", "n"), ("save",),
           ("flush",), ("write", "files", "T", ""), ("write", "tree"), ("write", "versions", ""),
           ("unget", "tree"), ("purge", "tvl")]
TWO_CORE = [("run", "T", "", "a"), ("save",), ("flush",), ("unget", "tree")]


def run(ctx):
    one = Search(ctx, OneModel(ONE_OPS, ("unsaved", "stored")), depth=3 if ctx.quick else 4).run()
    Search(ctx, OneModel(ONE_CORE, ("unsaved", "stored")), depth=5 if ctx.quick else 6).run()
    Search(ctx, TwoModels(TWO_OPS), depth=3 if ctx.quick else 4).run()
    Search(ctx, TwoModels(TWO_CORE), depth=4 if ctx.quick else 7).run()
    # binding to the real git
    repos, expected, kept = [], [], []
    for history in one.selection(6 if ctx.quick else 30):
        machine = OneModel(ONE_OPS)
        state = machine.start(history[0])
        with Trace(state.world) as trace:
            for op in history[1:]:
                machine.apply(state, op)
            machine.op_save_to(state, "R/n")
        validate_trace(ctx, trace)
        for name in NAMES:
            repos.append(state.world.repo(name).copy())
            expected.append(state.stored[name])
            kept.append(history)
    for history, content, result in zip(kept, expected, real_read(repos)):
        if result != ("ok", content):
            ctx.violation(f"content read by a new process with the real git differs: "
                          f"{result!r:.500} instead of {content!r:.500}", history,
                          "real process reads other content")
        ctx.count("real_process_reads")
    ctx.assume("writing a released object to a realm that does not hold it is refused with a "
               "RuntimeError, this is accepted as a reported failure")


def replay(case):
    for make in (lambda: OneModel(ONE_OPS), lambda: TwoModels(TWO_OPS)):
        machine = make()
        two = isinstance(machine, TwoModels)
        if two != (len(case) > 1 and case[1][0] in NAMES + ("*",)):
            continue
        state = Search(None, machine, 0).replay(case)
        machine.check(state, case)
