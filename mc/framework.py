"""Runner infrastructure: context, parallel enumeration, explicit-state search."""
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
# A case hangs if it uses that much processor time, or twice as much
# real time (the machine may be busy)
CASE_SECONDS = 120


class Violation(Exception):
    """raised by check code: the property does not hold on this case"""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.message = message
        self.key = key or message


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang("case did not terminate")


def limit(seconds):
    """raise Hang in this process after the time, 0 switches it off"""
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.alarm(2 * seconds)


class StopCheck(Exception):
    pass


def plain(value):
    """JSON-able form of a case (tuples become lists)"""
    if isinstance(value, (tuple, list)):
        return [plain(v) for v in value]
    if isinstance(value, dict):
        return {str(k): plain(v) for k, v in value.items()}
    if isinstance(value, bytes):
        return {"__bytes__": value.hex()}
    if isinstance(value, (str, int, float, bool, type(None))):
        return value
    return repr(value)


def untuple(value):
    """inverse of plain for cases made of tuples"""
    if isinstance(value, list):
        return tuple(untuple(v) for v in value)
    if isinstance(value, dict):
        if set(value) == {"__bytes__"}:
            return bytes.fromhex(value["__bytes__"])
        return {k: untuple(v) for k, v in value.items()}
    return value


def load_known():
    """known findings:  known: property=<id> key=<key> <text>"""
    result = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("known: "):
                parts = line[len("known: "):].strip().split(" ", 2)
                ident = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                result[ident, key] = parts[2]
    return result


class Context:
    MAX_REPORTED = 3

    def __init__(self, ident, tier, level="model_checking"):
        self.ident = ident
        self.tier = tier
        self.quick = tier == "quick"
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.started = time.perf_counter()
        budget = float(os.environ.get("VERIF_BUDGET", "0") or 0)
        self.deadline = self.started + (budget or (600 if self.quick else 5400))
        self.known = load_known()
        self.known_seen = []
        self.reported = {}
        self.coverage = {"samples": []}
        self.assumptions = []
        self.capped = []

    # -- counters ------------------------------------------------------
    def count(self, name, amount=1):
        self.coverage[name] = self.coverage.get(name, 0) + amount

    def sample(self, value):
        if len(self.coverage["samples"]) < 12:
            self.coverage["samples"].append(plain(value))

    def note(self, name, value):
        self.coverage[name] = value

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def time_left(self):
        return self.deadline - time.perf_counter()

    def cap(self, text):
        self.capped.append(text)

    # -- results --------------------------------------------------------
    def violation(self, message, case, key=None):
        """case: JSON-able description that `replay` of the check understands"""
        key = key or message
        if (self.ident, key) in self.known:
            if key not in self.known_seen:
                self.known_seen.append(key)
                print(f"KNOWN-FINDING: property={self.ident} "
                      f"{self.known[self.ident, key]}", flush=True)
            return
        if key in self.reported:
            self.reported[key] += 1
            return
        self.reported[key] = 1
        case = plain(case)
        digest = hashlib.sha1(json.dumps([key, case]).encode()).hexdigest()[:10]
        folder = os.path.join(VERIF, "replay")
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, f"{self.ident}-{digest}.json")
        with open(path, "w") as f:
            json.dump({"property": self.ident, "message": message, "key": key,
                       "case": case}, f, indent=1)
        print(f"VIOLATION property={self.ident} replay={path}", flush=True)
        print("  " + message[:1500].replace("\n", "\n  "), flush=True)
        if len(self.reported) >= self.MAX_REPORTED or key == "hang":
            raise StopCheck()

    def finish(self):
        coverage = dict(self.coverage)
        if self.capped:
            coverage["capped"] = self.capped
        coverage["exhaustive"] = not self.capped and not self.reported
        evidence = {
            "property": self.ident, "tier": self.tier, "seed": self.seed,
            "level": self.level, "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": round(time.perf_counter() - self.started, 2),
            "violations": len(self.reported)}
        folder = os.path.join(VERIF, "evidence")
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, f"{self.ident}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
        short = {k: v for k, v in coverage.items() if k != "samples"}
        print(f"{self.ident} {self.tier}: {json.dumps(short)} "
              f"{evidence['wall_s']}s", flush=True)
        return 1 if self.reported else 0


# ---------------------------------------------------------------------------
# parallel enumeration

_TASK = None


def guarded(function, *args):
    """Run one case. Returns (value, None) or (None, (message, key))"""
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.signal(signal.SIGPROF, _alarm)
        limit(CASE_SECONDS)
        try:
            return function(*args), None
        finally:
            limit(0)
    except Violation as violation:
        return None, (violation.message, violation.key)
    except Hang:
        return None, ("the operation did not terminate", "hang")
    except Exception as error:
        return None, unexpected(error)


def unexpected(error):
    """An error that the check did not foresee, e.g. an operation that has to
    succeed raised an exception."""
    frames = traceback.extract_tb(error.__traceback__)
    place = ""
    for frame in frames:
        if "dataladmetadatamodel" in frame.filename:
            place = f" in {os.path.basename(frame.filename)}:{frame.name}"
    text = str(error).splitlines()[0][:300] if str(error) else ""
    return (f"unexpected {type(error).__name__}{place}: {text}\n"
            + "".join(traceback.format_list(frames[-6:])),
            f"unexpected {type(error).__name__}{place}")


def _call(index_item):
    index, item = index_item
    return index, guarded(_TASK, item)


def pmap(function, items, workers=None, chunk=None, deadline=None):
    """Ordered parallel map over `items` in forked workers.

    yields (item, value, violation).  Stops at the deadline (then the caller
    sees fewer results than items)."""
    global _TASK
    items = list(items)
    workers = min(workers or WORKERS, max(1, len(items)))
    _TASK = function
    if workers == 1:
        for item in items:
            if deadline is not None and time.perf_counter() > deadline:
                return
            value, violation = guarded(function, item)
            yield item, value, violation
        return
    if chunk is None:
        chunk = max(1, min(64, len(items) // (workers * 8) or 1))
    context = multiprocessing.get_context("fork")
    with context.Pool(workers, initializer=_worker_init) as pool:
        for index, (value, violation) in pool.imap(
                _call, list(enumerate(items)), chunksize=chunk):
            yield items[index], value, violation
            if deadline is not None and time.perf_counter() > deadline:
                pool.terminate()
                return


_WORKER_INIT = []


def _worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from . import world
    world.in_worker()


def run_cases(ctx, function, items, describe=None, **kwargs):
    """Evaluate all cases, report violations. Returns the list of values."""
    items = list(items)
    values = []
    done = 0
    for item, value, violation in pmap(function, items, deadline=ctx.deadline, **kwargs):
        done += 1
        if violation is not None:
            ctx.violation(violation[0], describe(item) if describe else item, violation[1])
        else:
            values.append(value)
    if done < len(items):
        ctx.cap(f"time budget: {done} of {len(items)} cases")
    return values


# ---------------------------------------------------------------------------
# explicit-state search by replay of histories

class Search:
    """
    Breadth-first search over operation histories.

    machine.initial()            -> list of initial operations
    machine.start(op)            -> fresh state object
    machine.ops(state)           -> list of operations enabled in the state
    machine.apply(state, op)     -> executes op, raises Violation
    machine.digest(state)        -> canonical digest
    machine.check(state, hist)   -> invariant, may destroy the state
    """

    def __init__(self, ctx, machine, depth, max_states=None, prefix=()):
        self.ctx = ctx
        self.machine = machine
        self.depth = depth
        self.seen = set()
        self.transitions = 0
        self.max_states = max_states
        self.last = []
        self.checked = set()

    def selection(self, number):
        """evenly spaced histories of the deepest level"""
        step = max(1, len(self.last) // number)
        return self.last[::step][:number]

    def replay(self, history):
        machine = self.machine
        state = machine.start(history[0])
        for op in history[1:]:
            machine.apply(state, op)
        return state

    def expand(self, history):
        """all successors of the state reached by history"""
        machine = self.machine
        result = []
        state = self.replay(history)
        for op in machine.ops(state):
            if state is None:
                state = self.replay(history)
            violation = None
            digest = None
            try:
                limit(CASE_SECONDS)
                machine.apply(state, op)
                digest = machine.digest(state)
                if digest not in self.seen and digest not in self.checked:
                    self.checked.add(digest)    # per process
                    machine.check(state, history + (op,))
            except Violation as v:
                violation = (v.message, v.key)
            except Hang:
                violation = ("the operation did not terminate", "hang")
            except Exception as error:
                violation = unexpected(error)
            limit(0)
            state = None
            result.append((op, digest, violation))
        return result

    def start_one(self, op):
        state = self.machine.start(op)
        digest = self.machine.digest(state)
        self.machine.check(state, (op,))
        return digest

    def run(self):
        ctx = self.ctx
        frontier = []
        for op, digest, violation in pmap(self.start_one, self.machine.initial()):
            self.transitions += 1
            if violation:
                ctx.violation(violation[0], [op], violation[1])
            elif digest not in self.seen:
                self.seen.add(digest)
                frontier.append((op,))
        levels = [len(frontier)]
        for level in range(self.depth):
            following = []
            done = 0
            new = set()
            for history, value, violation in pmap(
                    self.expand, frontier, deadline=ctx.deadline,
                    chunk=max(1, min(16, len(frontier) // 64 or 1))):
                done += 1
                if violation is not None:
                    # the history itself was fine before, so this is an error
                    raise RuntimeError(f"replay of {history} diverged: {violation}")
                for op, digest, violation in value:
                    self.transitions += 1
                    if violation is not None:
                        ctx.violation(violation[0], history + (op,), violation[1])
                    elif digest not in self.seen and digest not in new:
                        new.add(digest)
                        following.append(history + (op,))
            self.seen |= new
            levels.append(len(following))
            if following and level + 1 == self.depth:
                ctx.sample(following[len(following) // 2])
                ctx.sample(following[-1])
            self.last = following or self.last
            if done < len(frontier):
                ctx.cap(f"time budget at depth {level + 1}: {done} of {len(frontier)} "
                        f"states expanded")
                break
            frontier = following
        ctx.count("states", len(self.seen))
        ctx.count("transitions", self.transitions)
        ctx.coverage.setdefault("states_per_depth", []).append(levels)
        return self


def main(argv):
    import argparse
    import importlib
    parser = argparse.ArgumentParser()
    parser.add_argument("ident")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--replay")
    args = parser.parse_args(argv)
    module = importlib.import_module("mc.checks." + args.ident.lower())
    from . import world
    world.setup()
    if args.replay:
        data = json.load(open(args.replay))
        value, violation = guarded(module.replay, untuple(data["case"]))
        if violation:
            print("reproduced:", violation[0])
            return 1
        print("not reproduced")
        return 0
    if args.tier != "quick":
        global CASE_SECONDS
        CASE_SECONDS = 3600
    ctx = Context(args.ident, args.tier, getattr(module, "LEVEL", "model_checking"))
    try:
        module.run(ctx)
    except StopCheck:
        pass
    except Exception as error:
        traceback.print_exc()
        if not ctx.reported:
            # an error of the code under check, outside of the single cases
            frames = traceback.extract_tb(error.__traceback__)
            if not any(f.filename.startswith(os.path.join(world.REPO, "dataladmetadatamodel"))
                       for f in frames):
                return 2
            try:
                ctx.violation(f"unexpected {type(error).__name__}: {error}", ["run"],
                              "unexpected error")
            except StopCheck:
                pass
        return 1 if ctx.reported else 2
    code = ctx.finish()
    if code == 0 and ctx.coverage.get("conformance_mismatches"):
        return 2
    return code


if __name__ == "__main__":
    # make this module and mc.framework the same module
    sys.modules["mc.framework"] = sys.modules["__main__"]
    sys.exit(main(sys.argv[1:]))
