"""C11: a failed storage command is reported and harms nothing"""
import itertools

from .. import gitmodel
from .. import world as W
from ..content import (
    MetadataPath, UUID, diff, flush_object_references, get_top_nodes_and_metadata_root_record,
    load, read_mrr, read_top, Path,
)
from ..ensure import EnsureMachine
from ..framework import Violation, run_cases
from ..session import Access, IDS, V1, fresh_content
from .c10 import old_or_new, protected, published

TECHNIQUE = "exhaustive enumeration of command failures of the real code on a git model"
NOTE = ("Every position and kind of a single storage-command failure (not executed, executed but "
        "reported as failed, part of a batch written, command not startable, interrupted by the user, all commands "
        "from a position on) in every listed action after every listed history; thorough: also a second "
        "failure in the repetition. Failures of the local file system are not covered.")
LEVEL = "fault_enumeration"

FAILED = (128, b"", b"fatal: injected failure\n")

MODIFY = [("set", "T", "", "a", 2), ("set", "T", "", "n/x", 1), ("set", "T", "s/d", None, 2),
          ("set", "U", "", "a", 3), ("dataset", "n"), ("delete", "s"), ("tree2",)]
PARTIAL = [("write", "meta", "T", "", "a"), ("write", "files", "T", ""),
           ("write", "record", "U", ""), ("write", "tree"), ("write", "versions", ""),
           ("write", "tvl"), ("purge", "uuids"), ("purge", "tree"), ("unget", "tree"),
           ("save",)]
ACTIONS = ["save", "save_uuids_first", "force_save", "flush", "load", "observe", "copy",
           "lookup", "create", "write files", "write record", "write tree", "write meta",
           "unget tree", "unget versions", "source", "other"]
WHAT = {"write files": ("files", "T", ""), "write record": ("record", "T", ""),
        "write tree": ("tree",), "write meta": ("meta", "T", "", "a"),
        "unget tree": ("tree",), "unget versions": ("versions", "")}


class Fault(gitmodel.Policy):
    """kind: fail, after, oserror, outage, interrupt, interrupt after,
    ("partial", number of objects)"""

    def __init__(self, index, kind, start):
        self.index = index + start
        self.kind = kind
        self.hit = None

    def before(self, event):
        if self.kind == "outage":
            if event.index >= self.index:
                self.hit = self.hit or event.short()
                return FAILED
            return None
        if event.index != self.index:
            return None
        self.hit = event.short()
        if self.kind == "fail":
            return FAILED
        if self.kind == "oserror":
            raise OSError(12, "Cannot allocate memory")
        if self.kind == "interrupt":
            raise KeyboardInterrupt("injected")
        if self.kind[0] == "partial":
            return ("partial", self.kind[1], FAILED)
        return None

    def after(self, event, result):
        if self.kind == "after" and event.index == self.index:
            return FAILED
        if self.kind == "interrupt after" and event.index == self.index:
            raise KeyboardInterrupt("injected")
        return None


class Survey(gitmodel.Policy):
    """notes the events of the action"""

    def __init__(self):
        self.events = []

    def before(self, event):
        self.events.append((event.index, event.batch, event.mutating))


class Machine(EnsureMachine):
    realm_names = ("R", "C")

    def perform(self, state, action):
        """executes the action and returns a comparable result"""
        world = state.world
        realm, other = world.realms["R"], world.realms["C"]
        if action in ("save", "save_uuids_first", "force_save"):
            getattr(self, "op_" + action)(state)
        elif action == "flush":
            flush_object_references(Path(realm))
        elif action == "load":
            return read_top(*load(realm))
        elif action == "observe":
            return self.observe(state)
        elif action == "copy":
            for obj in (state.tvl, state.uuids):
                obj.deepcopy(None, other)
            flush_object_references(Path(other))
        elif action in ("lookup", "create"):
            # of another session on the stored content
            version = V1 if action == "lookup" else "v9"
            tvl, uuids, record = get_top_nodes_and_metadata_root_record(
                "git", realm, IDS["s/d"], version, MetadataPath(""), MetadataPath("s/d"),
                IDS[""], V1, action == "create")
            return (record is not None and read_mrr(record),
                    record is not None and read_top(tvl, uuids)["tvl"][V1, ""][1][1])
        elif action.startswith("write"):
            node, getter = self.node_pair(state, ("write",) + WHAT[action])
            getter().write_out(realm)
        elif action.startswith("unget"):
            self.op_unget(state, *WHAT[action])
        elif action == "source":
            return source_action(world)
        elif action == "other":
            state.tvl.write_out(other)
        return None

    def applicable(self, state, action):
        if action in WHAT:
            return self.node_pair(state, ("write",) + WHAT[action]) is not None
        if action in ("load", "lookup", "create"):
            return state.model.stored["tvl"] is not None \
                and state.model.stored["uuid"] is not None
        if action == "other":
            # released objects can not be written to the other realm
            read_top(state.tvl, state.uuids)
            return True
        return True


def source_action(world):
    from dataladmetadatamodel.metadatasource import LocalGitMetadataSource
    import tempfile
    sha = world.repo("R").put("blob", b"content of the source\n")
    source = LocalGitMetadataSource(Path(world.realms["R"]), sha)
    result = source.copy_object_to(Path(world.realms["C"]))
    with tempfile.TemporaryFile() as f:
        source.write_object_to(f)
        f.seek(0)
        return result, f.read(), world.repo("C").objects.get(sha)


MACHINE = Machine()


def prepare(history):
    state = MACHINE.start(history[0])
    for op in history[1:]:
        if not MACHINE.enabled(state, op):
            return None
        MACHINE.apply(state, op)
    return state


def case(item):
    """all failures of one action after one history"""
    history, action = item[:2]
    full = len(item) > 2
    state = prepare(history)
    if state is None or not MACHINE.applicable(state, action):
        return None
    world = state.world
    survey = world.git.policy = Survey()
    start = world.git.count
    reference = MACHINE.perform(state, action)
    world.git.policy = None
    count = 0
    for index, batch, mutating in survey.events:
        kinds = ["fail", "oserror", "outage", "interrupt"]
        if mutating:
            kinds.append("after")
            if full or len(history) == 1:
                kinds.append("interrupt after")
        steps = range(1, batch)
        if batch > 6:
            steps = (1, batch // 2, batch - 1)
        kinds += [("partial", n) for n in steps]
        for kind in kinds:
            for ending in ("retry", "continue"):
                if kind == "oserror" and ending == "continue":
                    continue
                if kind == "interrupt" and ending == "retry" and not full:
                    continue
                try:
                    one_fault(history, action, index - start, kind, ending, reference)
                except Violation as violation:
                    raise Violation(
                        f"action {action}, failure {kind} of command {index - start}: "
                        f"{violation.message}", violation.key)
                count += 1
    return count


def one_fault(history, action, index, kind, ending, reference, second=None):
    state = prepare(history)
    world = state.world
    old = state.model.stored
    new = state.model.doc()
    if not MACHINE.applicable(state, action):
        raise RuntimeError("action is not applicable")
    home = state.tvl.realm
    stored_before = set(world.repo().objects)
    protected_before = protected(world.repo())
    published_before = published(world.repo())
    fault = world.git.policy = Fault(index, kind, world.git.count)
    failed, value = False, None
    try:
        value = MACHINE.perform(state, action)
    except Violation:
        raise
    except (Exception, KeyboardInterrupt) as error:
        failed = error
    finally:
        world.git.policy = None
    if kind[:9] == "interrupt" and not isinstance(failed, KeyboardInterrupt):
        raise Violation(f"an interrupt was not passed on, but {failed!r}",
                        "interrupt not passed on")
    if fault.hit is None:
        raise RuntimeError("the failure did not happen")
    name = f"{action}: {fault.hit.split(' ')[0]}"
    store_after_fault = world.snapshot()

    if not failed and value != reference:
        raise Violation(f"the failure was not reported, result is {value!r:.300} instead of "
                        f"{reference!r:.300}", f"unreported failure with other result: {name}")
    if not stored_before <= set(world.repo().objects):
        raise Violation("stored objects are lost", f"stored objects lost: {name}")
    if not protected_before <= protected(world.repo()):
        raise Violation("references that were flushed before are lost",
                        f"flushed references lost: {name}")

    if ending == "retry":
        if failed:
            if second is not None:
                world.git.policy = Fault(second[0], second[1], world.git.count)
                try:
                    MACHINE.perform(state, action)
                except Exception:
                    pass
                world.git.policy = None
            value = retried(MACHINE.perform, state, action, name)
            if value != reference:
                raise Violation(f"repeated action yields {value!r:.300} instead of "
                                f"{reference!r:.300}", f"repeated action: {name}")
    else:
        # the objects in memory keep their content
        observed = retried(MACHINE.observe, state, None, name)
        if observed != new:
            raise Violation(f"content in memory after the failure: {diff(new, observed)}",
                            f"content in memory after a failure: {name}")
        for op in (("set", "T", "", "a", 7), ("set", "U", "", None, 7)):
            if MACHINE.enabled(state, op):
                MACHINE.apply(state, op)
        new = state.model.doc()

    # afterwards everything can be saved, in each realm
    if action == "copy" and ending == "retry":
        world.repo("C").gc()
        snapshot = world.snapshot()
    if action == "other" and failed and ending == "continue" and home is not None:
        # the failed attempt does not change the place where the object is stored
        retried(lambda s, a: s.tvl.write_out(), state, None, name)
        content = world.repo().refs.get("refs/datalad/dataset-tree-version-list")
        if content != state.tvl.reference.location:
            raise Violation("after a failed save to another realm, saving without a destination "
                            "does not save to the realm of the object",
                            f"destination after a failed save: {name}")
    session_save(state, name)
    if world.repo().gc():
        raise Violation("references to objects that do not exist",
                        f"references to missing objects: {name}")
    content = fresh_content(world)
    if content != new:
        raise Violation(f"content saved after the failure: {diff(new, content)}",
                        f"content saved after a failure: {name}")
    if action == "copy" and ending == "retry":
        world.reset(snapshot)
        content = fresh_content(world, "C")
        if content != new:
            raise Violation(f"content copied after the failure: {diff(new, content)}",
                            f"content copied after a failure: {name}")

    # what was left behind by the failure is readable by others
    world.reset(store_after_fault)
    content = retried(lambda s, a: fresh_content(world), state, None, name)
    old_or_new(content, old, new if ending == "retry" else content_after(history))
    if published(world.repo()) == published_before and all(
            op[:2] not in (("write", "tvl"), ("write", "uuids")) for op in history):
        world.repo().gc()
        content = fresh_content(world)
        if content != old:
            raise Violation(f"previous content after garbage collection: {diff(old, content)}",
                            f"previous content after collection: {name}")


def content_after(history):
    world = W.get_world(MACHINE.realm_names)
    snapshot = world.snapshot()
    result = prepare(history).model.doc()
    world.reset(snapshot)
    return result


def retried(function, state, action, name):
    try:
        return function(state, action) if action else function(state) \
            if function == MACHINE.observe else function(state, action)
    except Violation:
        raise
    except Exception as error:
        raise Violation(f"operation without failure after the failed one: "
                        f"{type(error).__name__}: {error}"[:600],
                        f"operation after a failure fails: {name}")


def session_save(state, name):
    retried(lambda s, a: MACHINE.op_save(s), state, None, name)


def pair_case(item):
    """two failures: one in the action, one in its repetition"""
    history, action = item
    state = prepare(history)
    if state is None or not MACHINE.applicable(state, action):
        return None
    survey = state.world.git.policy = Survey()
    start = state.world.git.count
    reference = MACHINE.perform(state, action)
    state.world.git.policy = None
    count = 0
    for (first, _, _), (second, _, _) in itertools.product(survey.events, repeat=2):
        for kind in ("fail", "after"):
            one_fault(history, action, first - start, "fail", "retry", reference,
                      (second - start, kind))
            count += 1
    return count


def histories(full):
    for init in ("unsaved", "stored"):
        yield (("init", init),)
        for size in (1, 2):
            pool = itertools.product(MODIFY + PARTIAL, repeat=size)
            if size == 2 and not full:
                pool = itertools.product(MODIFY[:3], PARTIAL[1:5] + PARTIAL[8:])
            for chosen in pool:
                yield (("init", init),) + chosen


def items(full):
    for history in histories(full):
        if full or len(history) == 1:
            actions = ACTIONS
        elif len(history) == 2:
            actions = [a for a in ACTIONS if a not in ("save_uuids_first", "force_save")]
        else:
            actions = ["save"]
        for action in actions:
            if action == "source" and len(history) > 1:
                continue
            yield (history, action, "full") if full else (history, action)


def run(ctx):
    todo = list(items(not ctx.quick))
    values = [v for v in run_cases(ctx, case, todo) if v is not None]
    ctx.count("actions_after_histories", len(values))
    if not ctx.quick:
        pairs = [(h, a) for h, a in items(False) if len(h) <= 2]
        extra = [v for v in run_cases(ctx, pair_case, pairs) if v is not None]
        ctx.count("pairs_of_failures", sum(extra))
        values += extra
    ctx.count("evaluations", sum(values))
    ctx.count("distinct_nontrivial", sum(values))
    ctx.note("rule", "every (history, action, command, kind of failure, continuation); each "
                     "injected failure was executed")
    for index in range(0, len(todo), max(1, len(todo) // 6)):
        ctx.sample(todo[index])
    ctx.assume("failures are reported by a non-zero exit code, or by an OSError when the command "
               "can not be started; one process, one realm and a second one for copies")


def replay(item):
    case(item)
