"""
Binding of the git model to the real git binary.

``materialise`` / ``import_repo``  convert between model and real repositories,
``hybrid``    answers commands that the model does not know by the real binary,
``replay``    replays a recorded command trace against the real binary and
              compares every answer.
"""
import hashlib
import os
import shutil
import subprocess
import tempfile
import zlib

from . import gitmodel

ENV = None


def git_env():
    global ENV
    if ENV is None:
        ENV = {k: v for k, v in os.environ.items() if not k.startswith("GIT_")}
        ENV.update(GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_NOSYSTEM="1", LC_ALL="C",
                   GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b.c", GIT_COMMITTER_NAME="a",
                   GIT_COMMITTER_EMAIL="a@b.c")
    return ENV


def run_git(argv, stdin=None, cwd=None, addresses=None):
    """addresses: address -> path of the repository"""
    env = git_env()
    if addresses:
        env = dict(env, GIT_CONFIG_COUNT=str(len(addresses)))
        for number, (address, path) in enumerate(sorted(addresses.items())):
            env[f"GIT_CONFIG_KEY_{number}"] = f"url.{path}.insteadOf"
            env[f"GIT_CONFIG_VALUE_{number}"] = address
    process = gitmodel.REAL_POPEN(
        argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        env=env, cwd=cwd)
    out, err = process.communicate(stdin if stdin is not None else b"")
    return process.returncode, out, err


def materialise(repo, git_dir, quotepath=True):
    os.makedirs(os.path.join(git_dir, "objects"), exist_ok=True)
    os.makedirs(os.path.join(git_dir, "refs"), exist_ok=True)
    with open(os.path.join(git_dir, "HEAD"), "w") as f:
        f.write("ref: refs/heads/main\n")
    with open(os.path.join(git_dir, "config"), "w") as f:
        f.write("[core]\n\trepositoryformatversion = 0\n\tbare = false\n"
                "\tquotepath = %s\n[gc]\n\tauto = 0\n" % ("true" if quotepath else "false"))
    for sha, (kind, data) in repo.objects.items():
        folder = os.path.join(git_dir, "objects", sha[:2])
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, sha[2:]), "wb") as f:
            f.write(zlib.compress(b"%s %d\x00" % (kind.encode(), len(data)) + data, 0))
    for name, sha in repo.refs.items():
        path = os.path.join(git_dir, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(sha + "\n")


def import_repo(git_dir, known=None):
    """read a real repository completely"""
    repo = gitmodel.Repo()
    prefix = ["git", "--git-dir", git_dir]
    rc, out, err = run_git(prefix + ["for-each-ref", "--format=%(objectname) %(refname)"])
    assert rc == 0, err
    for line in out.decode().splitlines():
        sha, name = line.split(" ", 1)
        repo.refs[name] = sha
    rc, out, err = run_git(
        prefix + ["cat-file", "--batch-all-objects", "--batch", "--buffer"])
    assert rc == 0, err
    i = 0
    while i < len(out):
        nl = out.index(b"\n", i)
        sha, kind, size = out[i:nl].decode().split(" ")
        size = int(size)
        repo.objects[sha] = (kind, out[nl + 1:nl + 1 + size])
        i = nl + 1 + size + 1
    return repo


def read_refs(git_dir):
    rc, out, err = run_git(["git", "--git-dir", git_dir, "for-each-ref",
                            "--format=%(objectname) %(refname)"])
    assert rc == 0, err
    return {line.split(" ", 1)[1]: line.split(" ", 1)[0]
            for line in out.decode().splitlines()}


def hybrid(model, event):
    """Answer a command by the real binary on a materialised copy."""
    key = None
    if "--stdin-paths" not in event.argv and not any(os.path.isfile(a) for a in event.argv):
        digest = hashlib.sha1(repr((sorted(
            (k, sorted(r.refs.items()), sorted(r.objects)) for k, r in model.repos.items()
        ), sorted(model.remotes.items()), sorted(model.unreachable))).encode()).hexdigest()
        key = (digest, tuple(event.argv), event.stdin, event.cwd)
        memo = model.hybrid_memo.get(key)
        if memo is not None:
            result, repos = memo
            model.repos = {k: r.copy() for k, r in repos.items()}
            return result
    model.hybrid_count += 1
    scratch = tempfile.mkdtemp(prefix="hybrid-")
    try:
        mapping = {}
        for number, (path, repo) in enumerate(sorted(model.repos.items())):
            real = os.path.join(scratch, str(number), ".git")
            materialise(repo, real, model.quotepath)
            mapping[path] = real

        def translate(text):
            for path in sorted(mapping, key=len, reverse=True):
                parent = os.path.dirname(path)
                if os.path.basename(path) == ".git" and parent in text:
                    text = text.replace(parent, os.path.dirname(mapping[path]))
            return text

        argv = [translate(a) for a in event.argv]
        cwd = translate(event.cwd) if event.cwd else None
        nowhere = os.path.join(scratch, "unreachable")
        result = run_git(argv, event.stdin, cwd, {
            a: nowhere if a in model.unreachable else mapping.get(p, nowhere)
            for a, p in model.remotes.items()})
        for path, real in mapping.items():
            model.repos[path] = import_repo(real)
        if key is not None:
            if len(model.hybrid_memo) > 2000:
                model.hybrid_memo.clear()
            model.hybrid_memo[key] = (result, model.snapshot())
        return result
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


class Mismatch(Exception):
    pass


def replay(initial, trace, final, quotepath=True):
    """Replay a trace on real repositories.

    initial/final: {git_dir: Repo}; trace as recorded by GitModel.
    Returns the number of compared commands, raises Mismatch."""
    scratch = tempfile.mkdtemp(prefix="conf-")
    try:
        mapping = {}
        for number, (path, repo) in enumerate(sorted(initial.items())):
            mapping[path] = os.path.join(scratch, str(number), ".git")
            materialise(repo, mapping[path], quotepath)
        count = 0
        for git_dir, command, args, stdin, files, result in trace:
            if command is None or command == "init":
                continue
            key = os.path.realpath(git_dir)
            if files is not None:
                lines = []
                for index, content in enumerate(files):
                    name = os.path.join(scratch, "f%d" % index)
                    with open(name, "wb") as f:
                        f.write(content)
                    lines.append(name)
                stdin = "\n".join(lines).encode()
            argv = ["git", "-P", "--git-dir", mapping.get(key, os.path.join(scratch, "none")),
                    command] + list(args)
            rc, out, err = run_git(argv, stdin)
            count += 1
            if (rc, out) != (result[0], result[1]):
                raise Mismatch(
                    f"git {command} {args}: model {result[:2]}, real {(rc, out)}, {err}")
        for path, repo in final.items():
            if path in mapping and read_refs(mapping[path]) != repo.refs:
                raise Mismatch(f"references differ: model {repo.refs}, "
                               f"real {read_refs(mapping[path])}")
        # the reachable object sets must be equal as well
        for path, repo in final.items():
            if path not in mapping:
                continue
            seen, missing = repo.reachable()
            real = import_repo(mapping[path])
            real_seen, real_missing = real.reachable()
            if seen != real_seen or missing != real_missing:
                raise Mismatch("reachable objects differ")
        return count
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
