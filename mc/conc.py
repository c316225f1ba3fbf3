"""
Stateless model checking of several processes that run the real code.

Every process is a forked child.  It stops at each scheduling point (git
command, lock operation, explicit mark) and reports to the explorer, which
executes git commands on the one shared GitModel and decides who continues, so
exactly one process runs at a time.  File locks are the real locks of the
kernel; a blocking attempt is turned into non-blocking attempts, and a process
that waits (or sleeps) is not scheduled again before another process did
something.

The future of a state is determined by the stores, the observations made by
each process so far and the used faults, because the processes are
deterministic.  `explore` visits every reachable state of the scenario once,
so all interleavings are covered without a bound on preemptions.  Reading an
object that exists, by its name, is independent of all operations of other
processes and is executed at once (a partial-order reduction with singleton
ample sets; not while a command may still be made to fail).

Faults: ("kill", i) ends the process before its next operation, ("fail", i)
lets its next git command fail without effect, ("fail_after", i) executes it
and reports a failure, ("elapse", i) lets a long time pass for a waiting
process, ("interrupt", i) raises KeyboardInterrupt in a process that waits or
runs a git command (which was not executed).
"""
import errno
import hashlib
import multiprocessing
import os
import pickle
import re
import shutil
import signal
import tempfile
import time

from . import gitmodel
from . import world as W
from .framework import Violation

# an object, or what is found below an object
BY_NAME = re.compile(r"^[0-9a-f]{40}($|:|\^\{)")
FAILED = (128, b"", b"fatal: injected failure\n")


# -- the side of the controlled process --------------------------------------

class Proxy:
    def __init__(self, conn):
        self.conn = conn
        # claims: what this process holds for sure
        # touched: what it might hold or waits for
        self.reset()

    def reset(self):
        self.claims = {}
        self.touched = []
        self.elapsed = 0.0
        self.aborted = 0

    def ask(self, *message):
        if self.aborted:
            self.aborted += 1
            if self.aborted > 1000:
                os._exit(1)
            raise Abort()
        self.conn.send((message, dict(self.claims), list(self.touched)))
        answer = self.conn.recv()
        if answer == ABORT:
            self.aborted = 1
            raise Abort()
        if answer == INTERRUPT:
            raise KeyboardInterrupt()
        return answer

    def execute(self, argv, stdin, cwd=None):
        return self.ask("git", argv, stdin, os.path.join(os.getcwd(), cwd or ""))

    def point(self, label):
        """explicit scheduling point"""
        self.ask("mark", label)

    def claim(self, resource, amount):
        count = self.claims.get(resource, 0) + amount
        if count:
            self.claims[resource] = count
        else:
            self.claims.pop(resource, None)

    def sleep(self, seconds=0):
        self.elapsed += self.ask("sleep")

    def now(self):
        return self.elapsed

    def lock(self, function, flags, exclusive_nb, unlock, nonblocking, name):
        """function(flags) performs the real call"""
        if flags & unlock:
            self.ask("lock", "unlock", name)
            return function(flags)
        while True:
            self.ask("lock", "lock", name)
            try:
                result = function(flags | nonblocking)
            except OSError as error:
                if error.errno not in (errno.EACCES, errno.EAGAIN):
                    raise
                if flags & nonblocking:
                    self.ask("refused")
                    raise
                self.sleep()
                continue
            return result


def object_names(command, args, stdin):
    """
    The objects that a command reads, if it only reads objects by their names
    and is known to do nothing else, otherwise None
    """
    if command not in ("cat-file", "show", "ls-tree", "rev-parse"):
        return None
    flags = [a for a in args if a.startswith("-") and a != "--"]
    end = args.index("--") if "--" in args else len(args)
    plain = [a for a in args[:end] if not a.startswith("-")]
    if command == "ls-tree":
        plain = plain[:1]
    elif command == "cat-file":
        if len(plain) == 2 and plain[0] in ("blob", "tree", "commit", "tag"):
            plain = plain[1:]
        if any(flag.startswith("--batch") for flag in flags):
            if plain or any(f.startswith("--batch-") and "check" not in f for f in flags):
                return None
            lines = (stdin or b"")
            lines = lines.decode() if isinstance(lines, bytes) else lines
            plain = lines.split()
    if plain and all(BY_NAME.match(name) for name in plain):
        return plain
    return None


def _name(file):
    if hasattr(file, "name"):
        file = file.name
    return str(file).replace(W.scratch_base(), "")


def _patch_environment(proxy, tmp):
    os.makedirs(tmp, exist_ok=True)
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    gitmodel.set_active(proxy)


def _patch(proxy, tmp):
    import fcntl
    _patch_environment(proxy, tmp)
    real_lockf, real_flock = fcntl.lockf, fcntl.flock

    def lockf(file, flags, *args):
        return proxy.lock(lambda f: real_lockf(file, f, *args), flags, None,
                          fcntl.LOCK_UN, fcntl.LOCK_NB, _name(file))

    def flock(file, flags):
        return proxy.lock(lambda f: real_flock(file, f), flags, None,
                          fcntl.LOCK_UN, fcntl.LOCK_NB, _name(file))

    fcntl.lockf, fcntl.flock = lockf, flock
    time.sleep = proxy.sleep
    time.monotonic = proxy.now
    try:
        import fasteners.process_lock as process_lock
        import fasteners._utils as utils
        for cls in (process_lock.InterProcessLock, process_lock.InterProcessReaderWriterLock):
            init = cls.__init__
            if init.__defaults__:
                init.__defaults__ = tuple(
                    proxy.sleep if d is W.REAL_SLEEP else d for d in init.__defaults__)
        for name in ("now", "_now"):
            if hasattr(utils, name):
                setattr(utils, name, proxy.now)
        for cls in (getattr(utils, "StopWatch", None), getattr(utils, "Retry", None)):
            if cls is not None and cls.__init__.__defaults__:
                cls.__init__.__defaults__ = tuple(
                    proxy.sleep if d is W.REAL_SLEEP else d
                    for d in cls.__init__.__defaults__)
    except (ImportError, AttributeError):
        pass


class Abort(BaseException):
    """the execution ended, the process is used for another one"""


def _child(conn, program, tmp):
    """
    Serves executions of the program.  The memory of the process is brought
    back to that of a fresh one between two executions.
    """
    import gc
    code = 0
    try:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.signal(signal.SIGPROF, signal.SIG_DFL)
        signal.alarm(4000)          # never outlive the explorer for long
        proxy = Proxy(conn)
        cwd = os.getcwd()
        clock = W.CLOCK.now
        environment = dict(os.environ)
        _patch(proxy, tmp)
        gc.freeze()
        files = len(os.listdir("/proc/self/fd"))
        while True:
            try:
                outcome = ("ok", program(proxy))
            except (EOFError, Abort):
                outcome = None
            except Exception as error:
                outcome = ("error", f"{type(error).__name__}: {error}"[:300])
            except BaseException as error:
                outcome = ("died", repr(error)[:300])
            try:
                if outcome is not None and not proxy.aborted:
                    proxy.ask("done", outcome)
            except Abort:
                pass
            outcome = error = None
            os.chdir(cwd)
            os.environ.clear()
            os.environ.update(environment)
            W.CLOCK.now = clock
            proxy.reset()
            gitmodel.set_active(None)
            _patch_environment(proxy, tmp)
            W.STATE.reset()
            gc.collect()
            if len(os.listdir("/proc/self/fd")) != files:
                code = 1
                break
            conn.send("ready")
            if conn.recv() != "again":
                break
    except BaseException:
        code = 1
    finally:
        os._exit(code)


# -- the explorer ---------------------------------------------------------------

class Worker:
    """a forked process that executes one program again and again"""

    def __init__(self, program, tmp):
        ours, theirs = multiprocessing.Pipe()
        self.tmp = tmp
        self.pid = os.fork()
        if self.pid == 0:
            ours.close()
            _child(theirs, program, tmp)
        theirs.close()
        self.conn = ours
        self.alive = True
        self.idle = False

    def rewind(self):
        """Ends the current execution. Returns False if a new worker is needed"""
        if not self.alive:
            return False
        try:
            self.conn.send(ABORT)
            while True:
                answer = self.conn.recv()
                if answer == "ready":
                    self.idle = True
                    return True
        except (EOFError, OSError):
            self.kill()
            return False

    def again(self):
        self.idle = False
        self.conn.send("again")

    def kill(self):
        if self.alive:
            self.alive = False
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(self.pid, 0)
            self.conn.close()


ABORT = "abort execution"
INTERRUPT = "interrupt"


class Process:
    def __init__(self, index, worker):
        self.index = index
        self.worker = worker
        self.conn = worker.conn
        self.history = hashlib.blake2b(digest_size=12)
        self.outcome = None
        self.dead = False
        self.blocked = False        # waiting, and nobody did anything since
        self.elapsed = 0
        self.steps = 0
        self.claims = {}
        self.touched = []
        self.pending = None
        self.receive()

    def receive(self):
        try:
            self.pending, self.claims, self.touched = self.conn.recv()
        except EOFError:
            raise RuntimeError("a controlled process ended unexpectedly")
        if self.pending[0] == "done":
            self.outcome = self.pending[1]

    def observe(self, *what):
        self.history.update(pickle.dumps(what))
        self.steps += 1

    @property
    def active(self):
        return not self.dead and self.outcome is None

    def end(self):
        if not self.dead:
            self.dead = True
            self.worker.kill()


class Scenario:
    """
    programs: functions that take the Proxy of their process.
    kills / fails: how many of these faults one execution may contain.
    """
    kills = 0
    fails = 0
    elapses = 0
    interrupts = 0
    programs = ()
    # do not interleave operations that are independent of all others
    reduce = True
    # process index -> git directories that only this process uses
    private = {}

    def __init__(self, world):
        self.world = world

    def reset(self):
        """initial stores, nothing else in the memory of the processes"""
        self.world.reset()

    def monitor(self, run):
        """invariant of every state"""

    def final(self, run):
        """called when no process is active any more"""


class Run:
    """one execution"""

    def __init__(self, scenario, workers):
        self.scenario = scenario
        self.world = scenario.world
        self.actions = []
        self.complete = set()
        self.kills = self.fails = self.elapses = self.interrupts = 0
        scenario.reset()
        base = os.path.join(self.world.root, "proc")
        self.base = base
        self.workers = workers
        self.processes = []
        for index, program in enumerate(scenario.programs):
            self.start(index, program)

    def start(self, index, program):
        worker = self.workers.get(index)
        if worker is not None and worker.idle:
            worker.again()
        else:
            worker = Worker(program, os.path.join(self.base, str(index)))
            self.workers[index] = worker
        process = Process(index, worker)
        self.processes.append(process)
        return process

    def close(self, reuse=True):
        for index, worker in list(self.workers.items()):
            if not (reuse and worker.rewind()):
                worker.kill()
                self.workers.pop(index)
                shutil.rmtree(worker.tmp, ignore_errors=True)

    def digest(self):
        h = hashlib.blake2b(digest_size=16)
        for p in self.processes:
            h.update(pickle.dumps((p.history.digest(), p.dead, p.outcome, p.blocked,
                                   p.elapsed, p.pending[0])))
        h.update(pickle.dumps((self.kills, self.fails, self.elapses, self.interrupts,
                               self.world.git_state())))
        return h.digest()

    def independent(self, process):
        """
        The next operation only reads an immutable object that exists (objects
        are never removed in these scenarios): it commutes with everything
        that other processes can do.  So does an operation on a repository
        that only this process uses.
        """
        if process.pending[0] != "git" or not process.active or process.blocked:
            return False
        _, argv, _, cwd = process.pending
        git = self.world.git
        try:
            git_dir, command, args = git._split(argv, cwd)
        except gitmodel.Unsupported:
            return False
        if git_dir is None:
            return False
        if git.key(git_dir) in self.scenario.private.get(process.index, ()):
            return True
        repo = git.repos.get(git.key(git_dir))
        if repo is None:
            return False
        stdin = process.pending[2]
        names = object_names(command, args, stdin)
        if not names or any(name[:40] not in repo.objects for name in names):
            return False
        if command in ("cat-file", "show", "ls-tree") and len(args) <= 2 \
                and set(args) <= set(names) | {"-e", "-p", "-t", "--", "blob"}:
            return True
        # what could be read entirely is there for good
        key = (git.key(git_dir), command, tuple(args), stdin)
        if key not in self.complete:
            event = gitmodel.Event(0, git_dir, command, args, stdin, argv)
            event.cwd = cwd
            if git._dispatch(event)[0] != 0:
                return False
            self.complete.add(key)
        return True

    def enabled(self):
        result = []
        scenario = self.scenario
        if scenario.reduce and self.fails >= scenario.fails:
            for p in self.processes:
                if self.independent(p):
                    # interrupting it here is as independent as letting it run
                    return [("run", p.index)] + (
                        [("interrupt", p.index)]
                        if self.interrupts < scenario.interrupts else [])
        for p in self.processes:
            if not p.active:
                continue
            if not p.blocked:
                result.append(("run", p.index))
            elif self.elapses < scenario.elapses:
                result.append(("elapse", p.index))
        # continuing the process that moved last comes first
        if self.actions:
            result.sort(key=lambda a: a[1] != self.actions[-1][1])
        for p in self.processes:
            if not p.active:
                continue
            if self.kills < scenario.kills:
                result.append(("kill", p.index))
            if self.fails < scenario.fails and p.pending[0] == "git":
                result.append(("fail", p.index))
                result.append(("fail_after", p.index))
            if self.interrupts < scenario.interrupts and p.pending[0] in ("git", "sleep"):
                result.append(("interrupt", p.index))
        return result

    def step(self, action):
        kind, index = action
        p = self.processes[index]
        self.actions.append(action)
        if kind == "kill":
            self.kills += 1
            p.observe("killed")
            p.end()
            self.progress(p)
            return
        if kind == "interrupt":
            self.interrupts += 1
            p.observe("interrupted")
            p.blocked = False
            p.conn.send(INTERRUPT)
            p.receive()
            self.progress(p)
            return
        if kind == "elapse":
            self.elapses += 1
            p.elapsed += 1
        pending = p.pending
        if pending[0] == "sleep":
            p.blocked = False
            p.conn.send(1e6 if kind == "elapse" else 0.0)
            p.receive()
            if p.pending[0] in ("sleep", "done"):
                return self.settle(p)
            if p.pending[0] != "lock":
                # it gave up waiting
                p.observe("woke")
                return
            pending = p.pending
        if pending[0] == "git":
            _, argv, stdin, cwd = pending
            if kind == "fail":
                self.fails += 1
                result = FAILED
            else:
                result = self.world.git.execute(argv, stdin, cwd)
                if kind == "fail_after":
                    self.fails += 1
                    result = FAILED
            p.observe(argv[0], argv[3:], result)
            p.conn.send(result)
            p.receive()
        elif pending[0] == "lock":
            p.conn.send(None)
            p.receive()
            if p.pending[0] == "refused":
                p.conn.send(None)
                p.receive()
                if p.pending[0] != "sleep":
                    p.observe("lock", "refused")
                    return self.progress(p)
            if p.pending[0] == "sleep":
                return self.settle(p)
            p.observe(*pending)
        else:
            p.observe(*pending)
            p.conn.send(None)
            p.receive()
        self.progress(p)

    def settle(self, process):
        if process.pending[0] == "sleep":
            process.blocked = True

    def progress(self, process):
        for p in self.processes:
            if p is not process:
                p.blocked = False

    def summary(self):
        return [(p.index, "killed" if p.dead and p.outcome is None else p.outcome)
                for p in self.processes]


def explore(scenario, max_states=200000):
    """
    Visits all states. Returns counters.  A violation has to show again in
    an exploration that uses new processes for every execution.
    """
    try:
        return _explore(scenario, max_states, True)
    except (Violation, RuntimeError):
        return _explore(scenario, max_states, False)


def _explore(scenario, max_states, reuse):
    seen = set()
    workers = {}
    try:
        return _visit(scenario, max_states, reuse, seen, workers)
    finally:
        for worker in workers.values():
            worker.kill()
        shutil.rmtree(os.path.join(scenario.world.root, "proc"), ignore_errors=True)


def _visit(scenario, max_states, reuse, seen, workers):
    stack = [()]
    stats = {"states": 0, "transitions": 0, "executions": 0, "final_states": 0}
    while stack:
        actions = stack.pop()
        run = Run(scenario, workers)
        try:
            stats["executions"] += 1
            for action in actions[:-1]:
                run.step(action)
            if actions:
                run.step(actions[-1])
                stats["transitions"] += 1
            while True:
                digest = run.digest()
                if digest in seen:
                    break
                seen.add(digest)
                stats["states"] += 1
                if stats["states"] > max_states:
                    stats["capped"] = 1
                    return stats
                attempt(scenario.monitor, run)
                enabled = run.enabled()
                if not any(p.active for p in run.processes):
                    stats["final_states"] += 1
                    attempt(scenario.final, run)
                    break
                if not any(a[0] in ("run", "elapse") for a in enabled):
                    # processes that wait for ever
                    raise fail("the processes wait for each other for ever",
                               run, "deadlock")
                done = tuple(run.actions)
                stack.extend(done + (a,) for a in enabled[1:])
                run.step(enabled[0])
                stats["transitions"] += 1
        finally:
            run.close(reuse)
    return stats


def fail(message, run, key=None):
    return Violation(f"{message}; schedule {compact(run.actions)}; "
                     f"outcomes {run.summary()}", key or message)


def attempt(function, run):
    try:
        function(run)
    except Violation as v:
        raise fail(v.message, run, v.key)


def compact(actions):
    out = []
    for kind, index in actions:
        token = f"P{index}" if kind == "run" else f"{kind}:P{index}"
        if out and out[-1][0] == token:
            out[-1][1] += 1
        else:
            out.append([token, 1])
    return " ".join(t if n == 1 else f"{t}*{n}" for t, n in out)
