"""C22: metadata sources deliver and copy exactly their content"""
import copy
import itertools
import json
import os
import shutil
import tempfile

from ..framework import Violation, run_cases
from .. import gitmodel, gitreal
from .. import world as W

W.setup()

from pathlib import Path    # noqa: E402
from dataladmetadatamodel import version_string     # noqa: E402
from dataladmetadatamodel.metadatasource import (   # noqa: E402
    ImmediateMetadataSource, LocalGitMetadataSource, MetadataSource)

LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of repository paths, contents and corruptions, real code and real git"
NOTE = ("All combinations of source path, destination path, content and kind of reference with "
        "the real git binary in scratch directories; JSON round trips of all enumerated sources; "
        "every single-field corruption of the JSON forms.")

PATHS = ("plain", "with blank", " lead", "trail ", "quote\"d", "apos'trophe", "semi;colon", "$HOME",
         "$(touch x)", "`touch x`", "a&b", "a|b", "a>b", "*", "?", "[a]", "back\\slash", "new\nline",
         "tab\tulator", "-rf", "--git-dir=x", "%s{0}", "~", "#c", "!h", "\u00e9\u4e2d\U0001f600",
         "(p)", "<x", "a,b", "a=b", "\u2028", "a:b", "deep/er/path", "..x", "x.git")
CONTENTS = (b"", b"text", b"a\n", b"\n\n", b"a\r\nb\r\n", b"\x00\xff\xfe\x00", "\u00e9\u2028".encode(),
            b"$Id$ $(x) `y` %s \\n", b"tree 0\x00", b"x" * 200000, bytes(range(256)) * 40)
JSONS = (None, True, 0, 1.5, -0.0, 1e300, "", "x", "\u00e9\u2028\u0000", [], {}, [1, [None, {"a": {}}]],
         {"": 1, "a": [{"@": {"type": "x"}}]}, {"metadata_source_type": "x"}, 10 ** 30)


class Scratch:
    """real repositories below an own directory"""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="c22-")
        gitmodel.set_active(None)
        self.previous = os.getcwd()
        os.chdir(self.path)
        # the commands report errors
        self.stderr = os.dup(2)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 2)
        os.close(null)
        return self

    def __exit__(self, *exc):
        os.dup2(self.stderr, 2)
        os.close(self.stderr)
        os.chdir(self.previous)
        shutil.rmtree(self.path, ignore_errors=True)

    def repo(self, name, contents=()):
        repo = gitmodel.Repo()
        shas = [repo.put("blob", c) for c in contents]
        tree = repo.put("tree", gitmodel.encode_tree(
            [(b"100644", b"f", s) for s in shas[:1]]))
        repo.put("blob", b"other")
        path = os.path.join(self.path, name)
        git_dir = os.path.join(path, ".git")
        gitreal.materialise(repo, git_dir)
        with open(os.path.join(git_dir, "config"), "a") as f:
            f.write("[core]\n\tautocrlf = true\n\tsafecrlf = false\n")
        return path, shas, tree


def objects(path):
    return {s: d for s, (k, d) in gitreal.import_repo(os.path.join(path, ".git")).objects.items()}


def written(source, path):
    with open(path, "wb") as f:
        f.write(b"before|")
        source.write_object_to(f)
    with open(path, "rb") as f:
        data = f.read()
    if not data.startswith(b"before|"):
        raise Violation("content written before is lost", "content written before is lost")
    return data[len(b"before|"):]


STEPS = ("own", "long", "object", "lines", "empty", "immediate")
OPENED = (("wb", -1), ("wb", 0), ("ab", -1), ("r+b", -1), ("w", -1), ("w", 1), ("a", -1), ("r+", -1))


def sequence_case(item):
    """several sources and other content in the same open file"""
    mode, buffering, sequences = item
    binary = "b" in mode
    objects_of = {"object": b"text", "lines": b"a\r\n\nb\r", "empty": b""}
    with Scratch() as scratch:
        path, shas, _ = scratch.repo("r", tuple(objects_of.values()))
        sources_of = {name: LocalGitMetadataSource(Path(path), sha)
                      for name, sha in zip(objects_of, shas)}
        out = os.path.join(scratch.path, "out")
        for sequence in sequences:
            expected = b""
            Path(out).write_bytes(b"")
            with open(out, mode, buffering=buffering,
                      **({} if binary else {"encoding": "utf-8"})) as f:
                for number, step in enumerate(sequence):
                    if step in sources_of:
                        sources_of[step].write_object_to(f)
                        expected += objects_of[step]
                    elif step == "immediate":
                        ImmediateMetadataSource({"n": [number]}).write_object_to(f)
                        expected += json.dumps({"n": [number]}).encode()
                    else:
                        text = f"<{number}\u00e9>" * (1 if step == "own" else 3000)
                        f.write(text.encode() if binary else text)
                        expected += text.encode()
            data = Path(out).read_bytes()
            if data != expected:
                raise Violation(
                    f"{sequence} written to a file of mode {mode}: {data[:80]!r} instead of "
                    f"{expected[:80]!r}", "order of the content")
    return len(sequences)


def git_case(item):
    source_name, destination_name, relative = item
    count = 0
    with Scratch() as scratch:
        source_path, shas, tree = scratch.repo(os.path.join("src", source_name), CONTENTS)
        destination_path, _, _ = scratch.repo(os.path.join("dst", destination_name))
        source_arg, destination_arg = Path(source_path), Path(destination_path)
        if relative:
            os.chdir(os.path.dirname(source_path))
            source_arg = Path(os.path.basename(source_path))
        before_source = objects(source_path)
        held = objects(destination_path)
        outside = sorted(os.listdir(scratch.path))
        for content, sha in zip(CONTENTS, shas):
            for spelling in (sha, sha + "\n", " " + sha):
                source = LocalGitMetadataSource(source_arg, spelling)
                data = written(source, os.path.join(scratch.path, "out"))
                if data != content:
                    raise Violation(
                        f"source in {source_name!r} writes {data[:60]!r} instead of "
                        f"{content[:60]!r}", "other content written")
                count += 1
            for again in range(2):
                source = LocalGitMetadataSource(source_arg, sha)
                result = source.copy_object_to(destination_arg)
                if result != sha:
                    raise Violation(f"copy returns {result!r}", "other reference returned")
                held[sha] = content
                count += 1
            if objects(destination_path) != held:
                raise Violation(
                    f"destination {destination_name!r} holds other objects after the copy of "
                    f"{content[:60]!r} from {source_name!r}", "other objects copied")
        os.unlink(os.path.join(scratch.path, "out"))
        # objects that do not exist, or are not contents
        missing = [gitmodel.obj_id("blob", b"missing"), "0" * 40, tree, "refs/heads/none", "",
                   "--help", "nonsense"]
        for reference in missing:
            source = LocalGitMetadataSource(source_arg, reference)
            expect_error(lambda: written(source, os.path.join(scratch.path, "out")),
                         f"writing of missing object {reference!r}")
            expect_error(lambda: source.copy_object_to(destination_arg),
                         f"copy of missing object {reference!r}")
            count += 2
        os.unlink(os.path.join(scratch.path, "out"))
        absent = LocalGitMetadataSource(Path(scratch.path, "absent", source_name), shas[1])
        expect_error(lambda: written(absent, os.path.join(scratch.path, "out")),
                     "writing from a missing repository")
        expect_error(lambda: absent.copy_object_to(destination_arg),
                     "copy from a missing repository")
        source = LocalGitMetadataSource(source_arg, shas[1])
        expect_error(
            lambda: source.copy_object_to(Path(scratch.path, "absent", destination_name)),
            "copy to a missing repository")
        os.unlink(os.path.join(scratch.path, "out"))
        if objects(destination_path) != held:
            raise Violation("failed copies changed the destination", "destination changed")
        if objects(source_path) != before_source:
            raise Violation("the source repository changed", "source changed")
        if sorted(os.listdir(scratch.path)) != outside:
            raise Violation(f"files appeared: {os.listdir(scratch.path)}", "files appeared")
    return count


def expect_error(function, what):
    try:
        result = function()
    except Violation:
        raise
    except Exception:
        return
    raise Violation(f"{what} does not report an error (result {result!r:.80})",
                    "missing object not reported")


def sources():
    for path in PATHS:
        for prefix in ("", "/abs/"):
            for reference in ("a" * 40, "refs/heads/x", "", "x y", "\u00e9"):
                yield "git", prefix + path, reference
    for value in JSONS:
        yield "immediate", value, None


def make(spec):
    kind, value, reference = spec
    if kind == "git":
        return LocalGitMetadataSource(Path(value), reference)
    return ImmediateMetadataSource(copy.deepcopy(value))


def json_case(spec):
    source = make(spec)
    for again in (MetadataSource.from_json_obj(source.to_json_obj()),
                  MetadataSource.from_json_str(source.to_json_str()),
                  type(source).from_json_obj(json.loads(source.to_json_str())),
                  type(source).from_json_str(source.to_json_str())):
        if type(again) is not type(source) or again != source or not source == again:
            raise Violation(f"{spec} reads back as {again and again.to_json_str()}",
                            "round trip")
        if json.dumps(again.to_json_obj()) != json.dumps(source.to_json_obj()):
            raise Violation(f"{spec} converts to other JSON", "round trip")
        if spec[0] == "immediate" and json.dumps(again.content) != json.dumps(spec[1]):
            raise Violation(f"content of {spec} differs", "round trip")
    if spec[0] == "immediate":
        import io
        out = io.StringIO()
        source.write_object_to(out)
        if json.loads(out.getvalue()) != spec[1]:
            raise Violation(f"content of {spec} is written as {out.getvalue()!r}", "writing")
        clone = source.deepcopy()
        if clone != source:
            raise Violation("copy differs", "copy")
        if isinstance(spec[1], dict):
            clone.content["new"] = 1
            if source.content != spec[1]:
                raise Violation("copy shares its content", "copy")
    return 1


def equal_case(spec):
    """sources are equal only if they describe the same"""
    source = make(spec)
    for other in sources():
        same = json.dumps(spec) == json.dumps(other)
        if type(spec[1]) is not type(other[1]) and spec[0] == other[0] == "immediate":
            continue        # 0 == False and the like
        if spec[0] == other[0] == "git":
            same = Path(spec[1]) == Path(other[1]) and spec[2] == other[2]
        if (make(other) == source) != same or (make(other) != source) == same:
            raise Violation(f"{spec} == {other} is {not same}", "equality")
    return 1


def corruptions():
    for spec in (("git", "/a/b", "a" * 40), ("immediate", {"x": 1}, None)):
        good = make(spec).to_json_obj()
        yield spec[0], []
        yield spec[0], "text"
        yield spec[0], 5
        yield spec[0], None
        yield spec[0], {}
        for key in good:
            bad = copy.deepcopy(good)
            del bad[key]
            yield spec[0], bad
        for key in good["@"]:
            bad = copy.deepcopy(good)
            del bad["@"][key]
            yield spec[0], bad
            for value in ("", "x", None, 2, version_string + " ", "1.0", "2", [],
                          "LocalGitMetadataSource", "ImmediateMetadataSource"):
                bad = copy.deepcopy(good)
                if bad["@"][key] == value:
                    continue
                bad["@"][key] = value
                yield spec[0], bad
        for value in ("", "x", None, 5, [], "LocalGitMetadataSource", "ImmediateMetadataSource"):
            bad = copy.deepcopy(good)
            if bad[MetadataSource.TYPE_KEY] == value:
                continue
            bad[MetadataSource.TYPE_KEY] = value
            yield spec[0], bad
        bad = copy.deepcopy(good)
        bad["@"] = None
        yield spec[0], bad
    good = make(("git", "/a/b", "a" * 40)).to_json_obj()
    for key in ("git_repository_path", "object_reference"):
        for value in (None, 5, [], {}, True):
            yield "git", dict(good, **{key: value})


def corrupt_case(item):
    kind, bad = item
    cls = {"git": LocalGitMetadataSource, "immediate": ImmediateMetadataSource}[kind]
    readers = [lambda: MetadataSource.from_json_obj(copy.deepcopy(bad)),
               lambda: MetadataSource.from_json_str(json.dumps(bad)),
               lambda: cls.from_json_obj(copy.deepcopy(bad))]
    for reader in readers:
        try:
            result = reader()
        except Exception:
            continue
        if result is not None:
            raise Violation(f"malformed description {bad!r} is read as {result.to_json_str()}",
                            "malformed description accepted")
    return 1


def dispatch(item):
    return {"repo": git_case, "sequence": sequence_case, "json": json_case, "equal": equal_case,
            "corrupt": corrupt_case}[item[0]](item[1])


def run(ctx):
    items = []
    if ctx.quick:
        pairs = [(a, a) for a in PATHS] + [(PATHS[0], a) for a in PATHS[1:]]
    else:
        pairs = list(itertools.product(PATHS, repeat=2))
    for number, (a, b) in enumerate(pairs):
        items.append(("repo", (a, b, number % 2 == 1)))
    for mode, buffering in OPENED:
        steps = [s for s in STEPS if s != "immediate" or "b" not in mode]
        for first in steps:
            items.append(("sequence", (mode, buffering, tuple(
                (first,) + rest for size in range(3 if ctx.quick else 4)
                for rest in itertools.product(steps, repeat=size)))))
    items += [("json", s) for s in sources()] + [("equal", s) for s in sources()]
    items += [("corrupt", c) for c in corruptions()]
    values = run_cases(ctx, dispatch, items, chunk=2)
    ctx.count("evaluations", sum(values))
    ctx.count("distinct_nontrivial", sum(values))
    ctx.note("rule", "every path, content, spelling or corruption is a case of its own")
    ctx.note("real_git", True)
    for item in items[::max(1, len(items) // 8)]:
        ctx.sample(item)
    ctx.assume("references are complete object names of blobs; surrounding white space is ignored")


def replay(item):
    return dispatch(item)
