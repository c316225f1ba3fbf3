"""
Keeps the git model bound to the real git binary.

validate(): complete command traces of explored histories are replayed against
the real git binary, and the resulting real repositories are read by a real,
newly started process (no model involved).
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from . import gitmodel, gitreal
from .framework import Violation


class Trace:
    """records one complete execution"""

    def __init__(self, world):
        self.world = world

    def __enter__(self):
        git = self.world.git
        self.initial = git.snapshot()
        git.trace = []
        git.hybrid_seen = git.hybrid_count
        return self

    def __exit__(self, *exc):
        git = self.world.git
        self.commands = git.trace
        git.trace = None
        self.final = git.snapshot()
        self.quotepath = git.quotepath


def validate_trace(ctx, trace):
    """Compare one trace with the real git"""
    try:
        count = gitreal.replay(trace.initial, trace.commands, trace.final, trace.quotepath)
    except gitreal.Mismatch as mismatch:
        print(f"CONFORMANCE MISMATCH: {mismatch}", file=sys.stderr, flush=True)
        ctx.count("conformance_mismatches")
        return
    ctx.count("traces_validated_against_impl")
    ctx.count("commands_validated", count)


def real_read(snapshots, quotepath=True, collect=False):
    """Read realms with the real git in a real new process.

    snapshots: list of Repo. Returns a list of contents (or error texts).
    collect: run the real garbage collection first."""
    scratch = tempfile.mkdtemp(prefix="rr-")
    try:
        paths = []
        for number, repo in enumerate(snapshots):
            path = os.path.join(scratch, f"r{number}")
            gitreal.materialise(repo, os.path.join(path, ".git"), quotepath)
            if collect:
                rc, out, err = gitreal.run_git(
                    ["git", "--git-dir", os.path.join(path, ".git"), "gc", "-q", "--prune=now"])
                if rc != 0:
                    raise RuntimeError("git gc failed: " + err.decode())
            paths.append(path)
        process = gitmodel.REAL_POPEN(
            [sys.executable, "-m", "mc.realread"] + paths,
            cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=gitreal.git_env())
        out, err = process.communicate()
        if process.returncode != 0:
            raise RuntimeError("realread failed: " + err.decode()[-2000:])
        import ast
        return [ast.literal_eval(line) for line in out.decode().splitlines()]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def validate_histories(ctx, machine, search, histories, realm="R"):
    """histories of a SessionMachine: trace replay and read by a real process"""
    from . import world as W
    repos, expected, kept = [], [], []
    for history in histories:
        world = W.get_world(machine.realm_names)
        try:
            state = machine.start(history[0])
            with Trace(world) as trace:
                for op in history[1:]:
                    machine.apply(state, op)
                machine.op_save(state)
        except Violation:
            continue
        world.git.trace = None
        content = machine.fresh(state, realm)
        validate_trace(ctx, trace)
        repos.append(trace.final[os.path.join(world.realms[realm], ".git")])
        expected.append(content)
        kept.append(history)
    for history, content, result in zip(kept, expected, real_read(repos)):
        if result != ("ok", content):
            ctx.violation(
                "content read by a new process with the real git differs: "
                f"{result!r:.600} instead of {content!r:.600}",
                history, "real process reads other content")
        ctx.count("real_process_reads")
