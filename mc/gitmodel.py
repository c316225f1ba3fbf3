"""
Explicit-state model of the git object store that metadata-model talks to.

The package under check runs the git command line tool through
``subprocess``.  ``install()`` replaces ``subprocess.Popen`` by a shim that
answers git commands on repositories known to the active ``GitModel`` from
memory.  The model keeps real git object identities (SHA-1 of the canonical
object encoding), so every state can be materialised as a real repository and
every recorded command trace can be replayed against the real git binary
(see ``conformance.py``).

A command the model does not know raises ``Unsupported`` (a BaseException, so
that the code under check cannot swallow it); checks then fall back to the
real git binary.
"""
import hashlib
import io
import os
import re
import subprocess
import sys

READ_LOG = None         # set of accessed object ids, or None
WRITE_LOG = None        # set of written object ids, or None
REAL_POPEN = subprocess.Popen
HEX40 = re.compile(r"^[0-9a-f]{40}$")


class Unsupported(BaseException):
    """The git model cannot answer this command"""


class Crash(BaseException):
    """The modelled process died"""


def obj_id(kind, data):
    return hashlib.sha1(b"%s %d\x00" % (kind.encode(), len(data)) + data).hexdigest()


EMPTY_TREE = obj_id("tree", b"")

# git config settings of the modelled environment that matter to the output
_SIMPLE = {7: "a", 8: "b", 9: "t", 10: "n", 11: "v", 12: "f", 13: "r",
           34: '"', 92: "\\"}


def quote_name(name: bytes, quotepath=True) -> bytes:
    """C-style quoting as done by git (quote.c:quote_c_style)"""
    out = bytearray()
    quoted = False
    for byte in name:
        if byte in _SIMPLE:
            out += b"\\" + _SIMPLE[byte].encode()
            quoted = True
        elif byte < 32 or byte == 127 or (byte >= 128 and quotepath):
            out += b"\\%03o" % byte
            quoted = True
        else:
            out.append(byte)
    return b'"' + bytes(out) + b'"' if quoted else bytes(out)


_UNQ = {ord("a"): 7, ord("b"): 8, ord("t"): 9, ord("n"): 10, ord("v"): 11,
        ord("f"): 12, ord("r"): 13, ord('"'): 34, ord("\\"): 92}


def unquote_name(text: bytes):
    """quote.c:unquote_c_style, returns None on malformed input"""
    assert text[:1] == b'"'
    out = bytearray()
    i = 1
    while True:
        if i >= len(text):
            return None
        c = text[i]
        if c == 34:
            return bytes(out)
        if c != 92:
            out.append(c)
            i += 1
            continue
        i += 1
        if i >= len(text):
            return None
        c = text[i]
        if c in _UNQ:
            out.append(_UNQ[c])
            i += 1
        elif 48 <= c <= 51:
            digits = text[i:i + 3]
            if len(digits) < 3 or not all(48 <= d <= 55 for d in digits):
                return None
            out.append(int(digits, 8))
            i += 3
        else:
            return None


def tree_sort_key(entry):
    mode, name, _ = entry
    return name + (b"/" if mode == b"40000" else b"")


def encode_tree(entries):
    return b"".join(
        mode + b" " + name + b"\x00" + bytes.fromhex(sha)
        for mode, name, sha in sorted(entries, key=tree_sort_key))


_tree_cache = {}


def decode_tree(data):
    result = _tree_cache.get(data)
    if result is not None:
        return result
    result = []
    i = 0
    while i < len(data):
        sp = data.index(b" ", i)
        nul = data.index(b"\x00", sp)
        result.append((data[i:sp], data[sp + 1:nul], data[nul + 1:nul + 21].hex()))
        i = nul + 21
    result = tuple(result)
    if len(_tree_cache) > 20000:
        _tree_cache.clear()
    _tree_cache[data] = result
    return result


def mode_type(mode):
    return {b"40000": "tree", b"160000": "commit"}.get(mode, "blob")


class Repo:
    __slots__ = ("objects", "refs")

    def __init__(self, objects=None, refs=None):
        self.objects = objects if objects is not None else {}
        self.refs = refs if refs is not None else {}

    def copy(self):
        return Repo(dict(self.objects), dict(self.refs))

    def put(self, kind, data):
        sha = obj_id(kind, data)
        if WRITE_LOG is not None:
            WRITE_LOG.add(sha)
        self.objects.setdefault(sha, (kind, data))
        return sha

    def reachable(self, roots=None):
        """objects reachable from the refs, and the missing ones among them"""
        todo = list(self.refs.values()) if roots is None else list(roots)
        seen, missing = set(), set()
        while todo:
            sha = todo.pop()
            if sha in seen or sha in missing:
                continue
            obj = self.objects.get(sha)
            if obj is None:
                if sha != EMPTY_TREE:
                    missing.add(sha)
                continue
            seen.add(sha)
            if obj[0] == "tree":
                todo.extend(e[2] for e in decode_tree(obj[1]) if e[0] != b"160000")
        return seen, missing

    def gc(self):
        """Drop every object that is not reachable from a ref."""
        seen, missing = self.reachable()
        self.objects = {k: v for k, v in self.objects.items() if k in seen}
        return missing


class Result(tuple):
    pass


class GitModel:
    """All repositories of the modelled machine, keyed by real git-dir path."""

    def __init__(self):
        self.repos = {}
        self.quotepath = True
        self.trace = None            # list of recorded commands, or None
        self.policy = None           # environment answers, see Policy
        self.dead = False
        self.count = 0
        self.path_cache = {}
        self.hybrid_count = 0
        self.hybrid_memo = {}
        self.remotes = {}            # address -> git-dir of the repository
        self.unreachable = set()     # addresses that can not be reached

    # -- state ---------------------------------------------------------
    def snapshot(self):
        return {k: r.copy() for k, r in self.repos.items()}

    def restore(self, snap):
        self.repos = {k: r.copy() for k, r in snap.items()}

    def key(self, git_dir):
        key = self.path_cache.get(git_dir)
        if key is None:
            key = os.path.realpath(git_dir)
            if os.path.isabs(git_dir):
                self.path_cache[git_dir] = key
        return key

    def repo_for_realm(self, realm):
        return self.repos[self.key(os.path.join(str(realm), ".git"))]

    # -- command execution -------------------------------------------------
    def execute(self, argv, stdin, cwd=None):
        """Returns (returncode, stdout, stderr)"""
        if self.dead:
            raise Crash()
        try:
            git_dir, command, args = self._split(argv, cwd)
        except Unsupported:
            git_dir, command, args = None, None, list(argv[1:])
        index = self.count
        self.count += 1
        event = Event(index, git_dir, command, args, stdin, argv)
        event.cwd = cwd
        policy = self.policy
        if policy is not None:
            answer = policy.before(event)
            if answer is not None:
                if answer is CRASH:
                    self.dead = True
                    raise Crash()
                if answer[0] == "partial":
                    self._partial(event, answer[1])
                    if answer[2] is CRASH:
                        self.dead = True
                        raise Crash()
                    return answer[2]
                return answer
        result = self._dispatch(event)
        if self.trace is not None:
            self.trace.append((git_dir, command, tuple(args), stdin,
                               event.files, result))
        if policy is not None:
            answer = policy.after(event, result)
            if answer is not None:
                if answer is CRASH:
                    self.dead = True
                    raise Crash()
                return answer
        return result

    def _split(self, argv, cwd):
        args = list(argv[1:])
        git_dir = None
        base = cwd
        while args and args[0].startswith("-"):
            option = args.pop(0)
            if option in ("-P", "--no-pager"):
                pass
            elif option == "--git-dir":
                git_dir = args.pop(0)
            elif option.startswith("--git-dir="):
                git_dir = option[len("--git-dir="):]
            elif option == "-C":
                base = os.path.join(base or "", args.pop(0))
            elif option == "-c":
                setting = args.pop(0)
                if not setting.startswith(("core.quotepath", "core.quotePath")):
                    raise Unsupported(argv)
                raise Unsupported(argv)
            else:
                raise Unsupported(argv)
        if not args:
            raise Unsupported(argv)
        command = args.pop(0)
        if git_dir is None and command not in ("init", "ls-remote"):
            if base is None:
                raise Unsupported(argv)
            git_dir = os.path.join(base, ".git")
        elif git_dir is not None and base and not os.path.isabs(git_dir):
            git_dir = os.path.join(base, git_dir)
        return git_dir, command, args

    def _repo(self, event):
        repo = self.repos.get(self.key(event.git_dir))
        return repo

    def _dispatch(self, event):
        try:
            if event.command is None:
                raise Unsupported(event.argv)
            method = getattr(self, "_cmd_" + event.command.replace("-", "_"), None)
            if method is None:
                raise Unsupported(event.argv)
            if event.command in ("init", "ls-remote"):
                return method(event)
            repo = self._repo(event)
            if repo is None:
                return 128, b"", b"fatal: not a git repository: " + os.fsencode(event.git_dir) + b"\n"
            return method(event, repo)
        except Unsupported:
            from . import gitreal
            return gitreal.hybrid(self, event)

    def _partial(self, event, amount):
        """Write only the first `amount` objects of a batch"""
        repo = self._repo(event)
        for content in event.read_files()[:amount]:
            repo.put("blob", content)

    # -- revisions -----------------------------------------------------
    def _resolve(self, repo, rev, event):
        """returns (sha | None, exists)"""
        if "^{" in rev:
            base, kind = rev.split("^{", 1)
            kind = kind.rstrip("}")
            sha = self._resolve(repo, base, event)
            if sha is None:
                return None
            obj = self._get(repo, sha)
            if obj is None or (kind and kind != "object" and obj[0] != kind):
                return None
            return sha
        if ":" in rev:
            base, path = rev.split(":", 1)
            sha = self._resolve(repo, base, event)
            for name in [p for p in path.encode().split(b"/") if p]:
                obj = self._get(repo, sha) if sha else None
                if obj is None or obj[0] != "tree":
                    return None
                sha = next((e[2] for e in decode_tree(obj[1]) if e[1] == name), None)
            return sha
        if HEX40.match(rev):
            return rev
        if rev in repo.refs:
            return repo.refs[rev]
        if rev.startswith("refs/"):
            return None
        for prefix in ("refs/", "refs/tags/", "refs/heads/", "refs/remotes/"):
            if prefix + rev in repo.refs:
                return repo.refs[prefix + rev]
        if rev == "HEAD" or not re.match(r"^[0-9a-f]{4,39}$", rev):
            if any(c in rev for c in "^~@"):
                raise Unsupported(event.argv)
            return None
        hits = [o for o in repo.objects if o.startswith(rev)]
        return hits[0] if len(hits) == 1 else None

    @staticmethod
    def _get(repo, sha):
        if READ_LOG is not None:
            READ_LOG.add(sha)
        obj = repo.objects.get(sha)
        if obj is None and sha == EMPTY_TREE:
            return "tree", b""
        return obj

    def _quote(self, name):
        return quote_name(name, self.quotepath)

    # -- commands --------------------------------------------------------
    def _remote(self, event, address):
        """the repository with this address, or None"""
        if address not in self.remotes:
            raise Unsupported(event.argv)
        if address in self.unreachable:
            return None
        return self.repos.get(self.remotes[address])

    def _cmd_ls_remote(self, event):
        args = list(event.args)
        exit_code = quiet = False
        while args and args[0].startswith("-"):
            option = args.pop(0)
            if option == "--exit-code":
                exit_code = True
            elif option in ("-q", "--quiet"):
                quiet = True
            else:
                raise Unsupported(event.argv)
        if not args or any(set(a) & set("*?[") for a in args[1:]):
            raise Unsupported(event.argv)
        remote = self._remote(event, args[0])
        if remote is None:
            return 128, b"", b"fatal: Could not read from remote repository.\n"
        lines = [f"{sha}\t{name}\n" for name, sha in sorted(remote.refs.items())
                 if len(args) == 1 or any(("/" + name).endswith("/" + a) for a in args[1:])]
        if exit_code and not lines:
            return 2, b"", b""
        return 0, "".join(lines).encode(), b""

    def _cmd_fetch(self, event, repo):
        plain = []
        for arg in event.args:
            if arg in ("-f", "--force", "--no-tags", "--no-recurse-submodules", "-q"):
                continue
            if arg.startswith("-"):
                raise Unsupported(event.argv)
            plain.append(arg)
        if len(plain) != 2 or "-f" not in event.args:
            raise Unsupported(event.argv)
        address, spec = plain
        remote = self._remote(event, address)
        if remote is None:
            return 128, b"", b"fatal: Could not read from remote repository.\n"
        source, _, target = spec.partition(":")
        if source.startswith("+"):
            source = source[1:]
        if HEX40.match(source):
            sha = source if source in remote.objects else None
        elif source.startswith("refs/"):
            sha = remote.refs.get(source)
        else:
            raise Unsupported(event.argv)
        if sha is None:
            return 128, b"", b"fatal: couldn't find remote ref\n"
        seen, missing = remote.reachable([sha])
        if missing:
            raise Unsupported(event.argv)
        for item in seen:
            repo.objects.setdefault(item, remote.objects[item])
        if target:
            if not target.startswith("refs/"):
                raise Unsupported(event.argv)
            repo.refs[target] = sha
        return 0, b"", b""

    def _cmd_init(self, event):
        args = [a for a in event.args if a not in ("-q", "--quiet")]
        if len(args) != 1 or args[0].startswith("-"):
            raise Unsupported(event.argv)
        git_dir = os.path.join(args[0], ".git")
        os.makedirs(git_dir, exist_ok=True)
        with open(os.path.join(git_dir, "HEAD"), "w") as f:
            f.write("ref: refs/heads/main\n")
        self.repos.setdefault(self.key(git_dir), Repo())
        return 0, b"", b""

    def _cmd_hash_object(self, event, repo):
        write = stdin_paths = from_stdin = False
        kind = "blob"
        paths = []
        args = list(event.args)
        while args:
            arg = args.pop(0)
            if arg == "-w":
                write = True
            elif arg == "--stdin":
                from_stdin = True
            elif arg == "--stdin-paths":
                stdin_paths = True
            elif arg in ("--no-filters", "--literally"):
                pass
            elif arg == "-t":
                kind = args.pop(0)
            elif arg == "--":
                paths += args
                args = []
            elif arg.startswith("-"):
                raise Unsupported(event.argv)
            else:
                paths.append(arg)
        if kind != "blob":
            raise Unsupported(event.argv)
        contents = []
        if from_stdin:
            contents.append(event.stdin or b"")
        if stdin_paths:
            try:
                contents += event.read_files()
            except OSError as e:
                # git stops at the first unreadable file, earlier ones stay
                return 128, b"", str(e).encode()
        for path in paths:
            try:
                with open(path, "rb") as f:
                    contents.append(f.read())
            except OSError as e:
                return 128, b"", str(e).encode()
        shas = []
        for content in contents:
            shas.append(repo.put("blob", content) if write else obj_id("blob", content))
        return 0, "".join(s + "\n" for s in shas).encode(), b""

    def _cmd_mktree(self, event, repo):
        missing_ok = nul = False
        for arg in event.args:
            if arg == "--missing":
                missing_ok = True
            elif arg == "-z":
                nul = True
            else:
                raise Unsupported(event.argv)
        data = event.stdin or b""
        if nul:
            lines = data.split(b"\x00")
        else:
            lines = data.split(b"\n")
        if lines and lines[-1] == b"":
            lines.pop()
        entries = []
        for line in lines:
            if not nul and line.endswith(b"\r"):
                line = line[:-1]
            match = re.match(rb"^([0-7]+) ([a-z]+) ([0-9a-f]{40})\t(.*)$", line, re.S)
            if not match:
                return 128, b"", b"fatal: input format error: " + line + b"\n"
            mode, kind, sha, name = match.groups()
            if name[:1] == b'"' and not nul:
                name = unquote_name(name)
                if name is None:
                    return 128, b"", b"fatal: invalid quoting\n"
            mode = b"%o" % int(mode, 8)
            if mode_type(mode) != kind.decode():
                return 128, b"", b"fatal: entry type mismatch\n"
            sha = sha.decode()
            obj = self._get(repo, sha)
            if obj is None:
                if not missing_ok:
                    return 128, b"", b"fatal: entry is missing\n"
            elif obj[0] != kind.decode():
                return 128, b"", b"fatal: entry is a different type\n"
            if b"/" in name:
                return 128, b"", b"fatal: path contains slash\n"
            entries.append((mode, name, sha))
        # git mktree keeps duplicated names, sort is stable on (name, mode)
        sha = repo.put("tree", encode_tree(entries))
        return 0, sha.encode() + b"\n", b""

    def _cmd_cat_file(self, event, repo):
        args = list(event.args)
        if len(args) != 2:
            raise Unsupported(event.argv)
        what, rev = args
        sha = self._resolve(repo, rev, event)
        obj = self._get(repo, sha) if sha else None
        if what == "-e":
            if sha is None:
                return 128, b"", b"fatal: Not a valid object name\n"
            return (0 if obj is not None else 1), b"", b""
        if obj is None:
            return 128, b"", b"fatal: Not a valid object name " + rev.encode() + b"\n"
        if what == "-t":
            return 0, obj[0].encode() + b"\n", b""
        if what == "-s":
            return 0, str(len(obj[1])).encode() + b"\n", b""
        if what == "-p":
            if obj[0] == "tree":
                return 0, self._ls(repo, obj, b"", False, False, False, False), b""
            return 0, obj[1], b""
        if what in ("blob", "tree"):
            if obj[0] != what:
                return 128, b"", b"fatal: bad file\n"
            return 0, obj[1], b""
        raise Unsupported(event.argv)

    def _ls(self, repo, obj, prefix, recursive, show_trees, nul, name_only):
        out = []
        end = b"\x00" if nul else b"\n"
        for mode, name, sha in decode_tree(obj[1]):
            kind = mode_type(mode)
            path = prefix + name
            if kind != "tree" or not recursive or show_trees:
                shown = path if nul else self._quote(path)
                if name_only:
                    out.append(shown + end)
                else:
                    out.append(b"%s %s %s\t%s%s" % (
                        mode.rjust(6, b"0"), kind.encode(), sha.encode(), shown, end))
            if kind == "tree" and recursive:
                sub = self._get(repo, sha)
                if sub is None:
                    raise _Missing(sha)
                out.append(self._ls(repo, sub, path + b"/", recursive, show_trees,
                                    nul, name_only))
        return b"".join(out)

    def _cmd_ls_tree(self, event, repo):
        recursive = show_trees = nul = name_only = False
        revs = []
        for arg in event.args:
            if arg == "-r":
                recursive = True
            elif arg == "-t":
                show_trees = True
            elif arg == "-z":
                nul = True
            elif arg in ("--name-only", "--name-status"):
                name_only = True
            elif arg == "--full-tree":
                pass
            elif arg.startswith("-"):
                raise Unsupported(event.argv)
            else:
                revs.append(arg)
        if len(revs) != 1:
            raise Unsupported(event.argv)
        sha = self._resolve(repo, revs[0], event)
        if sha is None:
            return 128, b"", b"fatal: Not a valid object name\n"
        obj = self._get(repo, sha)
        if obj is None or obj[0] != "tree":
            return 128, b"", b"fatal: not a tree object\n"
        try:
            return 0, self._ls(repo, obj, b"", recursive, show_trees, nul, name_only), b""
        except _Missing:
            raise Unsupported(event.argv)

    def _cmd_show(self, event, repo):
        args = event.args[:-1] if event.args[1:] == ["--"] else event.args
        if len(args) != 1 or args[0].startswith("-"):
            raise Unsupported(event.argv)
        rev = args[0]
        sha = self._resolve(repo, rev, event)
        obj = self._get(repo, sha) if sha else None
        if obj is None:
            return 128, b"", b"fatal: bad object\n"
        if obj[0] == "blob":
            return 0, obj[1], b""
        lines = b"".join(
            name + (b"/" if mode == b"40000" else b"") + b"\n"
            for mode, name, _ in decode_tree(obj[1]))
        return 0, b"tree " + rev.encode() + b"\n\n" + lines, b""

    def _cmd_update_ref(self, event, repo):
        args = [a for a in event.args if a != "--no-deref"]
        if args and args[0] == "-m":
            args = args[2:]
        if args and args[0] == "-d":
            if not 2 <= len(args) <= 3:
                raise Unsupported(event.argv)
            if len(args) == 3 and repo.refs.get(args[1]) != args[2]:
                return 1, b"", b"error: cannot lock ref\n"
            repo.refs.pop(args[1], None)
            return 0, b"", b""
        if not 2 <= len(args) <= 3 or args[0].startswith("-"):
            raise Unsupported(event.argv)
        name = args[0]
        if not name.startswith("refs/"):
            raise Unsupported(event.argv)
        sha = self._resolve(repo, args[1], event)
        if sha is None:
            return 128, b"", b"fatal: not a valid SHA1\n"
        if self._get(repo, sha) is None:
            return 128, b"", b"fatal: nonexistent object\n"
        if len(args) == 3:
            old = args[2]
            current = repo.refs.get(name)
            if old in ("", "0" * 40):
                if current is not None:
                    return 128, b"", b"fatal: reference already exists\n"
            else:
                if self._resolve(repo, old, event) != current:
                    return 128, b"", b"fatal: cannot lock ref\n"
        for other in repo.refs:
            if other.startswith(name + "/") or name.startswith(other + "/"):
                return 128, b"", b"fatal: directory/file conflict\n"
        repo.refs[name] = sha
        return 0, b"", b""

    def _cmd_show_ref(self, event, repo):
        verify = quiet = False
        patterns = []
        for arg in event.args:
            if arg == "--verify":
                verify = True
            elif arg in ("-q", "--quiet"):
                quiet = True
            elif arg.startswith("-"):
                raise Unsupported(event.argv)
            else:
                patterns.append(arg)
        out = []
        if verify:
            for name in patterns:
                if name not in repo.refs:
                    return (1 if quiet else 128), b"", b""
                if self._get(repo, repo.refs[name]) is None:
                    return 128, b"", b"fatal: bad ref\n"
                out.append((name, repo.refs[name]))
        else:
            for name in sorted(repo.refs):
                if not patterns or any(
                        name == p or name.endswith("/" + p) for p in patterns):
                    if self._get(repo, repo.refs[name]) is None:
                        raise Unsupported(event.argv)
                    out.append((name, repo.refs[name]))
        if not out:
            return 1, b"", b""
        if quiet:
            return 0, b"", b""
        return 0, "".join(f"{s} {n}\n" for n, s in out).encode(), b""

    def _cmd_rev_parse(self, event, repo):
        verify = quiet = False
        revs = []
        for arg in event.args:
            if arg == "--verify":
                verify = True
            elif arg in ("-q", "--quiet"):
                quiet = True
            elif arg.startswith("-"):
                raise Unsupported(event.argv)
            else:
                revs.append(arg)
        if len(revs) != 1 or not verify:
            raise Unsupported(event.argv)
        sha = self._resolve(repo, revs[0], event)
        if sha is None:
            return (1 if quiet else 128), b"", b"fatal: Needed a single revision\n"
        return 0, sha.encode() + b"\n", b""

    def _cmd_for_each_ref(self, event, repo):
        fmt = "%(objectname) %(objecttype)\t%(refname)"
        patterns = []
        for arg in event.args:
            if arg.startswith("--format="):
                fmt = arg[len("--format="):]
            elif arg.startswith("-"):
                raise Unsupported(event.argv)
            else:
                patterns.append(arg)
        if "%" in re.sub(r"%\((objectname|objecttype|refname)\)", "", fmt):
            raise Unsupported(event.argv)
        out = []
        for name in sorted(repo.refs):
            if patterns and not any(
                    name == p or name.startswith(p.rstrip("/") + "/") for p in patterns):
                continue
            sha = repo.refs[name]
            obj = self._get(repo, sha)
            if obj is None:
                raise Unsupported(event.argv)
            kind = obj[0]
            out.append(fmt.replace("%(objectname)", sha)
                       .replace("%(objecttype)", kind)
                       .replace("%(refname)", name) + "\n")
        return 0, "".join(out).encode(), b""


class _Missing(Exception):
    pass


CRASH = ("crash",)

READING = {"cat-file", "ls-tree", "show", "show-ref", "rev-parse", "for-each-ref",
           "ls-remote"}
MUTATING = {"hash-object", "mktree", "update-ref"}


class Event:
    __slots__ = ("index", "git_dir", "command", "args", "stdin", "argv", "files", "cwd")

    def __init__(self, index, git_dir, command, args, stdin, argv):
        self.index = index
        self.git_dir = git_dir
        self.command = command
        self.args = args
        self.stdin = stdin
        self.argv = argv
        self.files = None
        self.cwd = None

    def read_files(self):
        if self.files is None:
            files = []
            data = (self.stdin or b"")
            lines = data.split(b"\n")
            if lines and lines[-1] == b"":
                lines.pop()
            for line in lines:
                with open(line, "rb") as f:
                    files.append(f.read())
            self.files = files
        return self.files

    @property
    def batch(self):
        """number of objects written by this command, if it is a batch"""
        if self.command == "hash-object" and "--stdin-paths" in self.args:
            return len(self.read_files())
        return 0

    @property
    def mutating(self):
        # unknown commands are treated as mutating, that only costs time
        return self.command in MUTATING or self.command not in READING

    def short(self):
        return f"{self.command} {' '.join(self.args)}"


class Policy:
    """Environment answers. Default: every command succeeds."""

    def before(self, event):
        return None

    def after(self, event, result):
        return None


# ---------------------------------------------------------------------------
# subprocess shim

ACTIVE = None          # the active GitModel, or an object with execute()


class _Out(io.BytesIO):
    pass


class PopenShim:
    """Subset of subprocess.Popen that is used by subprocess.run & friends"""

    def __new__(cls, args, *pargs, **kwargs):
        argv = args
        if ACTIVE is None:
            return REAL_POPEN(args, *pargs, **kwargs)
        if isinstance(argv, (str, bytes)) or kwargs.get("shell"):
            raise Unsupported(args)
        argv = [os.fsdecode(a) for a in argv]
        if os.path.basename(argv[0]) != "git":
            return REAL_POPEN(args, *pargs, **kwargs)
        return object.__new__(cls)

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None,
                 stderr=None, *pargs, cwd=None, env=None, text=None,
                 universal_newlines=None, encoding=None, errors=None, **kwargs):
        self.args = args
        self._argv = [os.fsdecode(a) for a in args]
        self._stdin = stdin
        self._stdout = stdout
        self._stderr = stderr
        self._cwd = cwd
        self._text = text or universal_newlines or encoding
        self._encoding = encoding or "utf-8"
        self.returncode = None
        self.pid = -1
        self._done = False
        self._buffer = io.BytesIO()
        self.stdin = None
        if stdin == subprocess.PIPE:
            self.stdin = (
                io.TextIOWrapper(self._buffer, self._encoding, write_through=True)
                if self._text else self._buffer)
        self.stdout = None
        self.stderr = None
        if stdin != subprocess.PIPE:
            self._execute(self._read_stdin())

    def _read_stdin(self):
        if self._stdin is None or self._stdin == subprocess.DEVNULL:
            return None
        if isinstance(self._stdin, int):
            return os.fdopen(os.dup(self._stdin), "rb").read()
        return self._stdin.read() if not hasattr(self._stdin, "fileno") \
            else os.fdopen(os.dup(self._stdin.fileno()), "rb").read()

    def _execute(self, data):
        if self._done:
            return
        self._done = True
        rc, out, err = ACTIVE.execute(self._argv, data, self._cwd)
        self.returncode = rc
        self._out = out
        self._err = err
        if self._stderr == subprocess.STDOUT:
            self._out = out + err
        for target, content, name in ((self._stdout, self._out, "stdout"),
                                      (self._stderr, self._err, "stderr")):
            if target == subprocess.PIPE:
                stream = io.BytesIO(content)
                setattr(self, name,
                        io.TextIOWrapper(stream, self._encoding) if self._text else stream)
            elif target in (None, subprocess.DEVNULL, subprocess.STDOUT):
                pass
            elif isinstance(target, int):
                os.write(target, content)
            else:
                target.flush() if hasattr(target, "flush") else None
                try:
                    os.write(target.fileno(), content)
                except (AttributeError, OSError, io.UnsupportedOperation):
                    target.write(content)

    def communicate(self, input=None, timeout=None):
        if not self._done:
            if input is None:
                data = self._buffer.getvalue()
            else:
                data = input.encode(self._encoding) if isinstance(input, str) else bytes(input)
            self._execute(data)
        out = self.stdout.read() if self.stdout is not None else None
        err = self.stderr.read() if self.stderr is not None else None
        return out, err

    def wait(self, timeout=None):
        if not self._done:
            self._execute(self._buffer.getvalue())
        return self.returncode

    def poll(self):
        if not self._done and self._stdin == subprocess.PIPE and self._buffer.closed:
            self.wait()
        return self.returncode

    def kill(self):
        pass

    terminate = kill

    def send_signal(self, sig):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        if exc[0] is None:
            self.wait()


REAL_RUN = subprocess.run
_PLAIN = {"input", "stdout", "stderr", "check"}


def fast_run(*popenargs, **kwargs):
    """subprocess.run without the detours, for the plain cases"""
    if ACTIVE is not None and len(popenargs) == 1 and kwargs.keys() <= _PLAIN \
            and isinstance(popenargs[0], list) and popenargs[0] \
            and popenargs[0][0] == "git" \
            and kwargs.get("stdout") == subprocess.PIPE \
            and kwargs.get("stderr") == subprocess.PIPE \
            and all(type(a) is str for a in popenargs[0]):
        data = kwargs.get("input")
        if data is None or isinstance(data, (bytes, bytearray)):
            argv = popenargs[0]
            rc, out, err = ACTIVE.execute(argv, None if data is None else bytes(data), None)
            if kwargs.get("check") and rc:
                raise subprocess.CalledProcessError(rc, argv, out, err)
            return subprocess.CompletedProcess(argv, rc, out, err)
    return REAL_RUN(*popenargs, **kwargs)


def install():
    subprocess.Popen = PopenShim
    subprocess.run = fast_run


def uninstall():
    subprocess.Popen = REAL_POPEN
    subprocess.run = REAL_RUN


def set_active(model):
    global ACTIVE
    ACTIVE = model
