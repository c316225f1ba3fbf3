"""C20: remote realms are read faithfully and never written"""
import os

from .. import world as W
from ..conc import Scenario, explore
from ..content import diff, load, read_top
from ..framework import Search, Violation, pmap, run_cases
from ..remote import ADDRESSES, ModelEnv, REFERENCES, RemoteMachine, WHAT, publications, real_outcomes

TECHNIQUE = ("explicit-state model checking of the real code on a model of git repositories and "
             "transfers, explored histories replayed with the real git over its local transport; "
             "all interleavings of controlled processes that share the local cache")
NOTE = ("All histories, up to the stated depth, of publications on two remotes (evolved, "
        "rewritten with and without loss of old objects, partial, empty), outages, new sessions, "
        "garbage collections and losses of the local cache, and reads, lookups, modifications, "
        "attempts to save and local copies; a smaller depth for every pair of similar addresses. "
        "All interleavings of two processes that read the same or similar remotes through the "
        "shared cache, and of a process that reads with one that publishes or withdraws. git init "
        "is one atomic step; a remote that loses objects in the middle of a read is not covered.")

PUBLISH = [("publish", "A", "a2", True), ("publish", "A", "a3", False),
           ("publish", "A", "a1", True), ("publish", "A", "none", True),
           ("publish", "B", "b2", False)]
READ = [("load", "A"), ("load", "B"), ("hold", "A"), ("read_held",), ("lookup", "A", 1, False)]
FAIL = [("outage", "A"), ("back", "A"), ("session", "keep"), ("session", "gc"),
        ("session", "drop")]
SAVE = [("modify", "file"), ("modify", "new"), ("modify", "dlm"), ("copy_held",), ("copy", "A"),
        ("copy", "B"), ("read_held",), ("hold", "A"), ("hold", "B"), ("save_new", "A"),
        ("lookup", "A", 2, True), ("lookup", "A", 1, True)] + [
    ("save", what, False) for what in WHAT] + [("save", "tvl", True), ("save", "uuids", True)]
PARTIAL = [("publish", "A", "half", True), ("publish", "A", "other", False),
           ("publish", "A", "none", False), ("publish", "A", "a1", True), ("load", "A"),
           ("hold", "A"), ("read_held",), ("copy", "A"), ("copy_held",), ("session", "keep"),
           ("save_new", "A"), ("outage", "A"), ("back", "A")] + [
    ("lookup", "A", number, auto) for number in range(3) for auto in (False, True)]
PAIRS = [("load", "A"), ("load", "B"), ("hold", "A"), ("hold", "B"), ("read_held",),
         ("publish", "A", "a3", False), ("session", "keep"), ("save_new", "A"),
         ("save_new", "B"), ("outage", "A"), ("modify", "file"), ("save", "files", False)]

STORES = {}


def stores():
    if not STORES:
        STORES.update(publications(W.get_world(("L", "A", "B"))))
    return STORES


def addresses(number):
    return dict(zip("AB", ADDRESSES[number]))


GROUPS = {"read": (PUBLISH + READ + FAIL, 4, 6, (("A", "a1"), ("B", "b1"))),
          "save": (SAVE, 4, 6, (("A", "a1"), ("B", "b1"))),
          "partial": (PARTIAL, 4, 6, (("A", "half"), ("B", "none"))),
          "pairs": (PAIRS, 2, 4, (("A", "a1"), ("B", "b1")))}


def machine(group, number):
    operations, _, _, initial = GROUPS[group]
    return RemoteMachine(ModelEnv(addresses(number)), stores(), operations, initial)


class Lazy:
    """the machine of a search, in the process that executes it"""

    def __init__(self, group, number):
        self.key = (group, number)
        self.found = {}

    def __getattr__(self, name):
        import os
        found = self.__dict__["found"]
        if os.getpid() not in found:
            found[os.getpid()] = machine(*self.key)
        return getattr(found[os.getpid()], name)


class Tagged(Search):
    pass


class Readers(Scenario):
    """
    Processes that read remotes, and one that publishes at A in the meantime
    (publish: name of the new publication, its references are set one by one)
    """

    def __init__(self, world, number, readers, first="a1", publish=None, complete=True):
        super().__init__(world)
        self.addresses = addresses(number)
        self.readers = readers
        self.first = first
        self.publish = publish
        self.complete = complete
        self.programs = [self.reader(name) for name in readers]
        if publish is not None:
            self.programs.append(self.publisher)

    def reset(self):
        env = ModelEnv(self.addresses)
        env.reset()
        repo = stores()[self.first][0].copy()
        if self.publish is not None:
            repo.objects = {**repo.objects, **stores()[self.publish][0].objects}
        env.publish("A", repo)
        env.publish("B", stores()["b1"][0])

    def reader(self, name):
        def run(proxy):
            if self.complete:
                return read_top(*load(self.addresses[name]))
            return listed(*load(self.addresses[name]))
        return run

    def content(self, publication):
        content = stores()[publication][1]
        return content if self.complete else {
            "tvl": content["tvl"] and sorted(content["tvl"]),
            "uuid": content["uuid"] and {
                u: sorted(v) for u, v in content["uuid"].items()}}

    def publisher(self, proxy):
        refs = stores()[self.publish][0].refs
        git = ["git", "--git-dir", os.path.join(self.world.realms["A"], ".git"), "update-ref"]
        for reference in REFERENCES:
            if reference in refs:
                proxy.execute(git + [reference, refs[reference]], b"")
            else:
                proxy.execute(git + ["-d", reference], b"")

    def final(self, run):
        for name, process in zip(self.readers, run.processes):
            publications = {"B": ["b1"], "A": [self.first, self.publish or self.first]}[name]
            if process.outcome is None or process.outcome[0] != "ok":
                raise Violation(f"reading {name} failed", "concurrent read of a remote failed")
            for part, content in process.outcome[1].items():
                if content not in [self.content(p)[part] for p in publications]:
                    raise Violation(
                        f"content of {part} read from {name} (expected / got): "
                        f"{diff(self.content(publications[0])[part], content)}",
                        "content of a concurrent read of a remote")


def listed(tvl, uuids):
    """what the top-level objects and the version lists contain"""
    return {
        "tvl": tvl and sorted((v, str(p)) for v, p in tvl.versions_and_prefix_paths()),
        "uuid": uuids and {
            str(u): sorted((v, str(p)) for v, p in
                           uuids.get_version_list(u).versions_and_prefix_paths())
            for u in list(uuids.uuids())}}


def scenarios(quick):
    for number in range(len(ADDRESSES)):
        yield ("readers", number, ("A", "B"), "a3", None, False)
    yield ("readers", 0, ("A", "A"), "a1", None, False)
    if not quick:
        yield ("readers", 0, ("A", "B"), "a1", None, True)
        yield ("readers", 0, ("A", "B"), "a1", "a2", True)
    for first, publish in (("a1", "a2"), ("a2", "a1"), ("a1", "a3"), ("a1", "none"),
                           ("none", "a1"), ("half", "a1"), ("a1", "other")):
        yield ("readers", 0, ("A",), first, publish, True)
    yield ("readers", 0, ("A", "B"), "a1", "a3", False)


def concurrent(case):
    _, number, readers, first, publish, complete = case
    return explore(Readers(
        W.get_world(("L", "A", "B")), number, readers, first, publish, complete))


def model_outcomes(job):
    group, number, history = job
    return machine(group, number).outcomes(history)


def run(ctx):
    stores()
    jobs = []
    searches = [(g, n) for g in ("read", "save", "partial") for n in (0,)]
    searches += [("pairs", n) for n in range(len(ADDRESSES))]
    for group, number in searches:
        depth = GROUPS[group][1 if ctx.quick else 2]
        search = Tagged(_Context(ctx, group, number), Lazy(group, number), depth)
        search.run()
        count = (14 if group != "pairs" else 2) * (1 if ctx.quick else 4)
        jobs += [(group, number, history) for history in search.selection(count)]
    ctx.note("address_pairs", len(ADDRESSES))
    for stats in run_cases(ctx, concurrent, scenarios(ctx.quick), chunk=1):
        ctx.count("states", stats["states"])
        ctx.count("transitions", stats["transitions"])
        ctx.count("schedules", stats["executions"])
        ctx.count("concurrent_scenarios")
        if "capped" in stats:
            ctx.cap("states of a concurrent scenario")
    real(ctx, jobs)


class _Context:
    """adds the group and the addresses to reported cases"""

    def __init__(self, ctx, group, number):
        self.__dict__.update(ctx=ctx, group=group, number=number)

    def __getattr__(self, name):
        return getattr(self.ctx, name)

    def violation(self, message, case, key=None):
        self.ctx.violation(message, [self.group, self.number, list(case)], key)


def real(ctx, jobs):
    """the same histories with the real git"""
    modelled = [value for _, value, _ in pmap(model_outcomes, jobs)]
    parts = [list(range(i, len(jobs), 8)) for i in range(8)]
    for part, results, failed in pmap(_real_part, [
            [(addresses(jobs[i][1]), GROUPS[jobs[i][0]][3], jobs[i][2]) for i in part]
            for part in parts]):
        if failed:
            raise RuntimeError(failed[0])
        indices = parts.pop(0)
        for index, result in zip(indices, results):
            if result != modelled[index]:
                step = next((k for k, (a, b) in enumerate(zip(result, modelled[index]))
                             if a != b), None)
                got = None if step is None else result[step]
                ctx.violation(
                    f"real git at step {step}: {got!r:.500}, model: "
                    f"{None if step is None else modelled[index][step]!r:.500}",
                    list(jobs[index]), "outcome with the real git differs")
            ctx.count("traces_validated_against_impl")
            ctx.count("operations_with_real_git", len(result))


def _real_part(jobs):
    return real_outcomes(stores(), jobs)


def replay(case):
    if case[0] == "readers":
        concurrent(case)
        return
    group, number, history = case
    found = machine(group, number)
    state = found.start(history[0])
    for op in history[1:]:
        found.apply(state, op)
    if model_outcomes(case) != _real_part(
            [(addresses(number), GROUPS[group][3], history)])[0]:
        raise Violation("outcome with the real git differs")
