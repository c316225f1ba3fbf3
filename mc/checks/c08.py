"""C08: metadata holds the latest run per extractor and configuration"""
import itertools
import json
import time

from ..content import ExtractorConfiguration, Metadata, cfg_key, freeze, read_metadata
from ..framework import Violation, run_cases
from .. import world as W
from ..shapes import unloaded
from ..content import (  # noqa: F401
    FileTree, MetadataPath,
)
from dataladmetadatamodel.metadata import MetadataInstance, MetadataInstanceSet

LEVEL = "exploration"
TECHNIQUE = "exhaustive exploration of run sequences on the real code against a dictionary"
NOTE = ("All sequences of recorded runs up to the stated length over extractors, versions and "
        "parameters (nested, reordered, differing in type), interleaved with saving, releasing, "
        "reloading and JSON conversion; equality is decided for all pairs of sequences. "
        "Configurations that Python considers equal (1, 1.0, True) are not distinguished.")

CONFIGS = [("1", {}), ("1", {"p": 1}), ("1", {"p": "1"}), ("2", {"p": 1}),
           ("1", {"p": [1, {"q": None}]}), ("1", {"q": 2, "p": 1}), ("1", {"p": 1, "q": 2})]
SAME = {6: 5}       # equal configurations
RUNS = [("e", 0), ("e", 1), ("e", 2), ("e", 3), ("f", 0), ("f", 1), ("e", 4), ("e", 5), ("e", 6)]
ACTIONS = ("save", "reload", "json", "copy")


def record(meta, run, number):
    extractor, config = run
    version, parameter = CONFIGS[config]
    meta.add_extractor_run(
        float(number), extractor, f"n{number}", f"m{number}",
        ExtractorConfiguration(version, json.loads(json.dumps(parameter))),
        {"value": number, "run": [extractor, config]})


def expected_content(sequence):
    result = {}
    number = 0
    for item in sequence:
        if isinstance(item, str):
            continue
        number += 1
        extractor, config = item
        version, parameter = CONFIGS[config]
        result.setdefault(extractor, {})[version, freeze(parameter)] = (
            float(number), f"n{number}", f"m{number}",
            freeze({"value": number, "run": [extractor, config]}))
    return result


def check(meta, expected, what):
    got = read_metadata(meta)
    if got != expected:
        raise Violation(f"{what}: {got} instead of {expected}", what)
    for name, instances in meta.extractor_runs:
        if type(instances) is not MetadataInstanceSet:
            raise Violation("unexpected type of runs")
        listed = sorted(i.author_name for i in instances)
        if listed != sorted(v[1] for v in expected[name].values()):
            raise Violation(f"{what}: instances listed {listed}", f"{what}: listing")
        for version, parameter in CONFIGS:
            wanted = expected[name].get((version, freeze(parameter)))
            configuration = ExtractorConfiguration(version, parameter)
            try:
                instance = instances.get_instance_for_configuration(configuration)
            except (ValueError, KeyError):
                instance = None
            if (instance is None) != (wanted is None) or (
                    instance is not None and instance.author_name != wanted[1]):
                raise Violation(f"{what}: lookup of configuration {version, parameter}",
                                f"{what}: lookup of configuration")
        clone = MetadataInstanceSet.from_json_str(instances.to_json_str())
        if not clone == instances or not instances == clone:
            raise Violation(f"{what}: instance set differs after JSON conversion")
        rebuilt = MetadataInstanceSet(list(instances)[::-1])
        if not rebuilt == instances or not instances == rebuilt:
            raise Violation(f"{what}: instance sets with the same runs are not equal")
        for instance in instances:
            if not MetadataInstance.from_json_str(instance.to_json_str()) == instance:
                raise Violation(f"{what}: instance differs after JSON conversion")
            copy = ExtractorConfiguration.from_json_str(instance.configuration.to_json_str())
            if not copy == instance.configuration:
                raise Violation(f"{what}: configuration differs after JSON conversion")


def build(sequence, realm):
    meta = Metadata()
    number = 0
    for item in sequence:
        if item == "save":
            meta.write_out(realm)
        elif item == "reload":
            meta.write_out(realm)
            meta.purge()
        elif item == "json":
            meta = Metadata.from_json(meta.to_json())
        elif item == "copy":
            source, content = meta, read_metadata(meta)
            meta = meta.deepcopy(None, realm)
            if read_metadata(source) != content:
                raise Violation("deepcopy changed the source")
        else:
            number += 1
            record(meta, item, number)
    return meta


def case(sequence):
    world = W.get_world()
    world.reset()
    realm = world.realms["R"]
    expected = expected_content(sequence)
    meta = build(sequence, realm)
    check(meta, expected, "content")
    check(meta, expected, "content after read")
    clone = Metadata.from_json(meta.to_json())
    check(clone, expected, "content after JSON conversion")
    if not (clone == meta and meta == clone):
        raise Violation("metadata is not equal to itself after JSON conversion")
    reference = meta.write_out(realm)
    world.new_session()
    loaded = unloaded("Metadata", realm, reference)
    check(loaded, expected, "content after reload")
    if not (clone == loaded and loaded == clone):
        raise Violation("metadata is not equal after reload")
    return repr(expected)


# one field of a run at a time takes an unusual value
USUAL = {"stamp": 5.0, "extractor": "e", "name": "n", "mail": "m", "version": "1",
         "parameter": {"p": 1}, "content": {"x": 1}}
UNUSUAL = {
    "stamp": [0, 0.0, 4.0, 6, -1.5, 1e-9, 1e300, 1700000000.123456, None],
    "extractor": ["", "@", "E", "e ", "é\n"],
    "name": ["", "@", "é\u2028\"", " n"],
    "mail": ["", "@", "é\u2028\"", " m"],
    "version": ["", "01", "1.0", " 1"],
    "parameter": [{}, {"": 1}, {"p": 0.5}, {"p": None}, {"p": False}, {"p": ""}, {"p": []},
                  {"p": {"p": 1}}, {"p": [1, 2]}, {"p": [2, 1]}, {"@": 1}],
    "content": [None, 0, False, "", [], {}, 1, "1", {"@": 1}, {"x": None}, [[]], {"": {}}],
}
FIELDS = [USUAL] + [dict(USUAL, **{field: value})
                    for field, values in UNUSUAL.items() for value in values]


def record_fields(meta, fields):
    """add the run, return its time stamp"""
    before = time.time()
    meta.add_extractor_run(
        fields["stamp"], fields["extractor"], fields["name"], fields["mail"],
        ExtractorConfiguration(fields["version"], json.loads(json.dumps(fields["parameter"]))),
        json.loads(json.dumps(fields["content"])))
    after = time.time()
    if fields["stamp"] is not None:
        return fields["stamp"]
    configuration = ExtractorConfiguration(fields["version"], fields["parameter"])
    stamp = meta.extractor_runs_for_extractor(
        fields["extractor"]).get_instance_for_configuration(configuration).time_stamp
    if not before <= stamp <= after:
        raise Violation(f"time stamp {stamp} of a run that was recorded between "
                        f"{before} and {after}", "time stamp of the present")
    return stamp


def typed(content):
    return sorted((name, sorted((key, repr(run)) for key, run in runs.items()))
                  for name, runs in content.items())


def fields_case(item):
    """two recorded runs with unusual values, saved and reloaded between them or not"""
    first, second, between = item
    world = W.get_world()
    world.reset()
    realm = world.realms["R"]
    meta = Metadata()
    expected = {}
    for index in (first, second):
        fields = FIELDS[index]
        stamp = record_fields(meta, fields)
        expected.setdefault(fields["extractor"], {})[
            fields["version"], freeze(fields["parameter"])] = (
                stamp, fields["name"], fields["mail"], freeze(fields["content"]))
        got = read_metadata(meta)
        if got != expected:
            raise Violation(f"content: {got} instead of {expected}", "content of unusual runs")
        if between == "reload":
            meta.write_out(realm)
            meta.purge()
        elif between == "json":
            meta = Metadata.from_json(meta.to_json())
    reference = meta.write_out(realm)
    world.new_session()
    got = read_metadata(unloaded("Metadata", realm, reference))
    if typed(got) != typed(expected):
        raise Violation(f"content after reload: {got} instead of {expected}",
                        "content of unusual runs after reload")
    return repr(expected) if None not in (FIELDS[first]["stamp"], FIELDS[second]["stamp"]) else ""


def run_name(item):
    return item if isinstance(item, str) else (item[0], SAME.get(item[1], item[1]))


def semantic(sequence):
    return [run_name(i) for i in sequence]


def pair(item):
    """equality of two run sets, every run has the number of its run in the second list"""
    first, second = item
    metas, contents = [], []
    for runs in (first, second):
        meta = Metadata()
        content = {}
        for run, number in runs:
            record(meta, run, number)
            content[run_name(run)] = number, run[1] if run[1] in SAME else None, run
        metas.append(meta)
        contents.append({k: (v[0], v[2]) for k, v in content.items()})
    expected = contents[0] == contents[1]
    for a, b in ((0, 1), (1, 0)):
        got = metas[a] == metas[b]
        if got is not expected:
            raise Violation(
                f"{item[a]} == {item[b]} yields {got}", "equality of metadata is wrong")
    if (metas[0] != metas[1]) is expected:
        raise Violation(f"{item[0]} != {item[1]} is wrong", "inequality of metadata is wrong")
    return 1


def run_lists(runs, values, size):
    for length in range(size + 1):
        for chosen in itertools.product([(r, v) for r in runs for v in values], repeat=length):
            yield chosen


def pair_block(first):
    world = W.get_world()
    world.reset()
    count = 0
    for second in PAIRS:
        count += pair((first, second))
    return count


PAIRS = []


def run(ctx):
    length = 4 if ctx.quick else 5
    runs = RUNS[:6]
    cases = [s for n in range(length + 1) for s in itertools.product(runs, repeat=n)]
    cases += [s for n in range(1, 4 if ctx.quick else 5) for s in itertools.product(RUNS, repeat=n)]
    cases += [s for n in range(2, 4 if ctx.quick else 5)
              for s in itertools.product(RUNS[:2] + RUNS[4:5] + list(ACTIONS), repeat=n)
              if any(isinstance(i, str) for i in s)]
    cases = list(dict.fromkeys(cases))
    values = run_cases(ctx, case, cases)
    ctx.count("evaluations", len(values))
    ctx.count("distinct_nontrivial", len(set(values)))
    values = run_cases(ctx, fields_case, [
        (i, j, between) for i in range(len(FIELDS)) for j in range(len(FIELDS))
        for between in (("", "reload", "json") if not ctx.quick or 0 in (i, j) else ("reload",))])
    ctx.count("evaluations", len(values))
    ctx.count("distinct_nontrivial", len(set(values)))
    # equality of all pairs
    del PAIRS[:]
    PAIRS.extend(run_lists([("e", 0), ("e", 1), ("f", 1), ("e", 5), ("e", 6)][:4 if ctx.quick else 5],
                           (1, 2), 3 if ctx.quick else 3))
    counts = run_cases(ctx, pair_block, list(PAIRS))
    ctx.count("equality_pairs", sum(counts))
    ctx.count("evaluations", sum(counts))
    ctx.note("rule", "sequences of recorded runs and actions; distinct: by resulting content")
    for item in cases[::max(1, len(cases) // 8)]:
        ctx.sample(item)
    ctx.assume("configurations that are equal in Python are the same configuration")


def replay(item):
    if len(item) == 3 and isinstance(item[0], int):
        return fields_case(item)
    if item and isinstance(item[0], tuple) and item[0] and isinstance(item[0][0], tuple):
        del PAIRS[:]
        PAIRS.extend(run_lists(
            [("e", 0), ("e", 1), ("f", 1), ("e", 5), ("e", 6)], (1, 2), 3))
        return pair_block(item)
    return case(item)
