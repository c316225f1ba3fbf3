"""C01: a saved model reloads with identical content"""
from .. import gitmodel
from .. import world as W
from ..conformance import Trace, real_read, validate_trace
from ..framework import Violation, run_cases
from ..shapes import BUILD, DOC, READ, all_shapes, unloaded
from ..content import diff, load, read_version_list, read_uuid_set

TECHNIQUE = "explicit-state exploration of the real code on a git model"
NOTE = ("Every model shape up to the bounds of mc/shapes.py is saved and read back by a process "
        "without shared memory, on a git model that is validated against the real git; values "
        "outside the enumerated shapes are not covered.")

LEVEL = "exploration"


def expect(got, expected, what, cls):
    if got != expected:
        raise Violation(f"{cls}: {what} (expected / got): {diff(expected, got)}",
                        f"{cls}: {what}")


def same(a, b):
    return (a.class_name, a.location) == (b.class_name, b.location)


def forced_equal(cls, realm, obj, reference, expected, what):
    """
    The same reference, or one with the same content. (An empty file tree and
    an absent one are the same content with different stored forms: an empty
    one is absent after it was loaded.)
    """
    forced = obj.write_out(realm, force_write=True)
    if not same(reference, forced):
        if not has_empty_member(expected):
            raise Violation(f"{cls}: {what} yields another reference")
        expect(READ[cls](unloaded(cls, realm, forced)), expected, f"content after {what}", cls)


def has_empty_member(doc):
    if isinstance(doc, dict):
        return not doc or any(has_empty_member(v) for v in doc.values())
    return isinstance(doc, tuple) and any(has_empty_member(v) for v in doc)


def case(item):
    cls, shape = item
    world = W.get_world()
    realm = world.realms["R"]
    expected = DOC[cls](shape)
    read = READ[cls]

    world.reset()
    obj = BUILD[cls](shape)
    expect(read(obj), expected, "content of the object in memory", cls)
    reference = obj.write_out(realm)
    if not same(reference, obj.write_out(realm)):
        raise Violation(f"{cls}: saving twice yields different references")
    if not same(reference, obj.write_out(realm, force_write=True)):
        raise Violation(f"{cls}: forced saving yields another reference")
    expect(read(obj), expected, "content after save", cls)
    obj.purge()
    expect(read(obj), expected, "content after release", cls)
    obj.purge()
    if not same(reference, obj.write_out(realm)):
        raise Violation(f"{cls}: saving the released object yields another reference")
    expect(read(obj), expected, "content after release and save", cls)
    forced_equal(cls, realm, obj, reference, expected, "forced saving after reading")
    snapshot = world.snapshot()

    # a new process that only knows the reference
    world.reset(snapshot)
    obj = unloaded(cls, realm, reference)
    expect(read(obj), expected, "content in a new process", cls)
    if not same(reference, obj.write_out(realm)):
        raise Violation(f"{cls}: saving the loaded object yields another reference")
    world.reset(snapshot)
    obj = unloaded(cls, realm, reference)
    expect(read(obj), expected, "content in a new process", cls)
    forced_equal(cls, realm, obj, reference, expected, "forced saving of the loaded object")
    if cls in ("TreeVersionList", "UUIDSet"):
        world.reset(snapshot)
        tvl, uuids = load(realm)
        if cls == "TreeVersionList":
            expect(tvl is not None and read_version_list(tvl), expected, "published content", cls)
        else:
            expect(uuids is not None and read_uuid_set(uuids), expected, "published content", cls)

    # the same content built and saved by another process in another store
    world.reset()
    obj = BUILD[cls](shape)
    if not same(reference, obj.write_out(realm)):
        raise Violation(f"{cls}: saving the same content in another process yields "
                        f"another reference")
    # ... and as a member of an unsaved, then modified object: again in the first store
    world.reset(snapshot)
    obj = BUILD[cls](shape)
    if not same(reference, obj.write_out(realm)):
        raise Violation(f"{cls}: saving the same content again yields another reference")
    # written to a second place of the same process
    obj.purge()
    expect(read(obj), expected, "content after second save and release", cls)
    return repr(expected) if expected else None


def run(ctx):
    cases = list(all_shapes(not ctx.quick))
    values = run_cases(ctx, case, cases)
    ctx.count("evaluations", len(values))
    ctx.count("distinct_nontrivial", len({v for v in values if v}))
    ctx.note("rule", "every shape of mc/shapes.py for every savable class; non-trivial: the "
                     "content is not empty; distinct: by content")
    for index in range(0, len(cases), max(1, len(cases) // 8)):
        ctx.sample(cases[index])
    # bind the git model to the real git
    world = W.get_world()
    repos, expected = [], []
    tops = [c for c in cases if c[0] in ("TreeVersionList", "UUIDSet")]
    step = max(1, len(tops) // (12 if ctx.quick else 60))
    for cls, shape in tops[::step]:
        world.reset()
        with Trace(world) as trace:
            BUILD[cls](shape).write_out(world.realms["R"])
        validate_trace(ctx, trace)
        repos.append(world.repo().copy())
        doc = DOC[cls](shape)
        expected.append({"tvl": doc, "uuid": None} if cls == "TreeVersionList"
                        else {"tvl": None, "uuid": doc})
    for item, doc, result in zip(tops[::step], expected, real_read(repos)):
        if result != ("ok", doc):
            ctx.violation(f"{item[0]}: real process reads {result!r:.500}", item,
                          "real process reads other content")
        ctx.count("real_process_reads")
    ctx.assume("identifiers, versions and record names of root records are not None")


def replay(item):
    return case(item)
