"""C23: metadata paths are normalised relative paths"""
import copy
import itertools
import pickle

from ..content import MetadataPath
from ..framework import Violation, run_cases

from pathlib import PurePosixPath

LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of all spellings up to a length against a component oracle"
NOTE = ("All texts up to the stated length over letters, slash, dot, backslash and blank, all "
        "combinations of several arguments (texts, paths, metadata paths), all pairs and triples "
        "of short paths for joining, and chains of path operations, compared with the sequence "
        "of components.")

ALPHABET = "ab/. \\"
SMALL = "a/."


def components(*args):
    result = []
    for arg in args:
        if isinstance(arg, PurePosixPath):
            arg = "/".join(arg.parts)
        if arg.startswith("/"):
            result = []
        result += [c for c in arg.split("/") if c not in ("", ".")]
    return tuple(result)


def verify(path, expected, what):
    if type(path) is not MetadataPath:
        raise Violation(f"{what} yields a {type(path).__name__}", "other type")
    if tuple(path.parts) != expected:
        raise Violation(f"{what} has components {path.parts}, expected {expected}",
                        "other components")
    text = str(path)
    if text != "/".join(expected):
        raise Violation(f"text of {what} is {text!r}, components {expected}", "other text")
    if path.as_posix() != text:
        raise Violation(f"posix text of {what} is {path.as_posix()!r}", "other text")
    if path.is_absolute() or text.startswith("/"):
        raise Violation(f"{what} is absolute", "absolute path")
    if len(path) != len(expected):
        raise Violation(f"length of {what} is {len(path)}", "length")
    again = MetadataPath(text)
    if again != path or hash(again) != hash(path) or again.parts != path.parts:
        raise Violation(f"{what} is not equal to the path made from its text {text!r}",
                        "text conversion")
    if MetadataPath(path) != path or MetadataPath(*path.parts) != path:
        raise Violation(f"{what} is not equal to its copy", "copy")
    for clone in (copy.copy(path), copy.deepcopy(path), pickle.loads(pickle.dumps(path))):
        if clone != path or type(clone) is not MetadataPath:
            raise Violation(f"copy of {what} differs", "copy")


def texts(alphabet, length):
    for size in range(length + 1):
        for chars in itertools.product(alphabet, repeat=size):
            yield "".join(chars)


def single(item):
    """all texts that start with item[0] and have the given length"""
    start, rest = item
    count = 0
    by_parts = {}
    for chars in itertools.product(ALPHABET, repeat=rest):
        text = start + "".join(chars)
        path = MetadataPath(text)
        expected = components(text)
        verify(path, expected, f"MetadataPath({text!r})")
        other = by_parts.setdefault(expected, path)
        if other != path or hash(other) != hash(path) or path not in {other}:
            raise Violation(f"{text!r}: equal components, different paths", "equality")
        count += 1
    distinct = list(by_parts.items())[:60]
    for (parts, path), (other_parts, other) in itertools.combinations(distinct, 2):
        if path == other or not path != other:
            raise Violation(f"{parts} and {other_parts} are equal", "equality")
    if len(set(by_parts.values())) != len(by_parts):
        raise Violation("different components, equal paths", "equality")
    return count


def several(item):
    count = 0
    first = item
    options = list(texts(SMALL, 3))
    for rest in itertools.chain(((),), ((t,) for t in options),
                                itertools.product(list(texts(SMALL, 2)), repeat=2)):
        args = (first,) + tuple(rest)
        expected = components(*args)
        verify(MetadataPath(*args), expected, f"MetadataPath{args!r}")
        # texts, metadata paths and other paths in any combination
        if len(args) < 3:
            for kinds in itertools.product((str, PurePosixPath, MetadataPath), repeat=len(args)):
                mixed = [k(a) for k, a in zip(kinds, args)]
                reset = [a if k is not MetadataPath else a.lstrip("/")
                         for k, a in zip(kinds, args)]
                verify(MetadataPath(*mixed), components(*reset), f"MetadataPath{tuple(mixed)!r}")
                count += 1
        count += 1
    return count


def join_case(first):
    count = 0
    names = ("a", "b", "..", "a b", ".x")
    paths = [p for size in range(3) for p in itertools.product(names, repeat=size)]
    p = MetadataPath("/".join(first))
    empty = MetadataPath("")
    for e in (empty, MetadataPath("."), MetadataPath("/"), MetadataPath()):
        if p / e != p or e / p != p or p.joinpath(e) != p or e.joinpath(p) != p:
            raise Violation(f"joining {p!r} with the empty path {e!r} changes it", "identity")
    for second in paths:
        q = MetadataPath("/".join(second))
        verify(p / q, first + second, f"{p!r} / {q!r}")
        verify(p / str(q), first + second, f"{p!r} / {str(q)!r}")
        verify(p.joinpath(q), first + second, f"{p!r}.joinpath({q!r})")
        verify(MetadataPath(p, q), first + second, f"MetadataPath({p!r}, {q!r})")
        if (p == q) != (first == second) or (p != q) == (first == second):
            raise Violation(f"{p!r} == {q!r}", "equality")
        if (p < q) and (q < p):
            raise Violation(f"order of {p!r} and {q!r}", "order")
        if first == second and hash(p) != hash(q):
            raise Violation(f"hash of {p!r}", "equality")
        verify((p / q).relative_to(p), second, f"({p!r} / {q!r}).relative_to({p!r})")
        if first + second:
            verify((p / q).parent, (first + second)[:-1], f"({p!r} / {q!r}).parent")
        for parent, size in zip((p / q).parents, range(len(first + second) - 1, -1, -1)):
            verify(parent, (first + second)[:size], f"a parent of {p / q!r}")
        for third in paths[:15]:
            r = MetadataPath("/".join(third))
            if (p / q) / r != p / (q / r):
                raise Violation(f"joining {p!r}, {q!r} and {r!r} is not associative",
                                "associativity")
            count += 1
    return count


def dispatch(item):
    kind, value = item
    return {"single": single, "several": several, "join": join_case}[kind](value)


def run(ctx):
    items = []
    length = 6 if ctx.quick else 8
    for size in range(length + 1):
        if size < 3:
            items.append(("single", ("", size)))
        else:
            items += [("single", (s, size - 2))
                      for s in map("".join, itertools.product(ALPHABET, repeat=2))]
    items += [("several", t) for t in texts(SMALL, 3)]
    names = ("a", "b", "..", "a b", ".x")
    items += [("join", p) for size in range(4) for p in itertools.product(names, repeat=size)]
    values = run_cases(ctx, dispatch, items)
    ctx.count("evaluations", sum(values))
    ctx.count("distinct_nontrivial", sum(values))
    ctx.note("rule", "every spelling, combination of arguments, or triple is a case of its own")
    for item in items[::max(1, len(items) // 8)]:
        ctx.sample(item)
    ctx.assume("the path is a relative POSIX path: an absolute argument discards the ones before "
               "it, as in pathlib, and '..' is an ordinary component")


def replay(item):
    return dispatch(item)
