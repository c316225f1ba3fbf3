"""
Boring reference model of metadata-model content: plain objects.

Identity matters: a root record that is reachable through the dataset tree and
through the UUID set is one object as long as neither container was released.
"""


class RMeta:
    def __init__(self):
        self.runs = {}          # extractor -> {cfg_key: (stamp, name, mail, content)}
        self.clean = False      # not modified since it was saved

    def children(self):
        return []

    def doc(self):
        return {e: dict(r) for e, r in self.runs.items()}

    def copy(self):
        new = RMeta()
        new.runs = {e: dict(r) for e, r in self.runs.items()}
        new.clean = self.clean
        return new


class RNode:
    """base of all containers"""

    def __init__(self):
        self.clean = False
        self.saved_doc = None

    def _copy_flags(self, other):
        other.clean = self.clean
        other.saved_doc = self.saved_doc
        return other


class RFiles(RNode):
    def __init__(self):
        super().__init__()
        self.files = {}         # path -> RMeta

    def children(self):
        return list(self.files.values())

    def doc(self):
        return {p: m.doc() for p, m in self.files.items()}

    def copy(self):
        new = self._copy_flags(RFiles())
        new.files = {p: m.copy() for p, m in self.files.items()}
        return new


class RRecord(RNode):
    def __init__(self, ident, version):
        super().__init__()
        self.ident = ident
        self.version = version
        self.dlm = None
        self.files = None

    def children(self):
        return [c for c in (self.dlm, self.files) if c is not None]

    def doc(self):
        return {"id": self.ident, "version": self.version,
                "dlm": self.dlm.doc() if self.dlm else {},
                "files": self.files.doc() if self.files else {}}

    def copy(self):
        new = self._copy_flags(RRecord(self.ident, self.version))
        new.dlm = self.dlm.copy() if self.dlm else None
        new.files = self.files.copy() if self.files else None
        return new


class RTree(RNode):
    def __init__(self):
        super().__init__()
        self.datasets = {}      # path -> RRecord

    def children(self):
        return list(self.datasets.values())

    def doc(self):
        return ("tree", {p: r.doc() for p, r in self.datasets.items()})

    def release(self):
        """the members are dropped and loaded again later"""
        self.datasets = {p: r.copy() for p, r in self.datasets.items()}

    def copy(self):
        new = self._copy_flags(RTree())
        new.datasets = {p: r.copy() for p, r in self.datasets.items()}
        return new


class RVersions(RNode):
    def __init__(self):
        super().__init__()
        self.versions = {}      # (version, prefix) -> [stamp, RRecord|RTree]

    def children(self):
        return [e for _, e in self.versions.values()]

    def doc(self):
        return {k: (s, e.doc() if isinstance(e, RTree) else ("mrr", e.doc()))
                for k, (s, e) in self.versions.items()}

    def release(self):
        for entry in self.versions.values():
            entry[1] = entry[1].copy()

    def copy(self):
        new = self._copy_flags(RVersions())
        new.versions = {k: [s, e.copy()] for k, (s, e) in self.versions.items()}
        return new


class RUuids(RNode):
    def __init__(self):
        super().__init__()
        self.uuids = {}         # uuid text -> RVersions

    def children(self):
        return list(self.uuids.values())

    def doc(self):
        return {u: v.doc() for u, v in self.uuids.items()}

    def release(self):
        self.uuids = {u: v.copy() for u, v in self.uuids.items()}

    def copy(self):
        new = self._copy_flags(RUuids())
        new.uuids = {u: v.copy() for u, v in self.uuids.items()}
        return new


def mark_saved(node):
    node.clean = True
    if isinstance(node, RNode):
        for child in node.children():
            mark_saved(child)
        node.saved_doc = repr(node.doc())


def mark_unsaved(node):
    node.clean = False
    for child in node.children():
        mark_unsaved(child)


def completely_saved(node):
    """
    The node was saved, nothing in it was modified since, and what was saved
    then is what it holds now.  (Sufficient, not necessary.)
    """
    return node.clean and all(completely_saved(c) for c in node.children()) and (
        not isinstance(node, RNode) or node.saved_doc == repr(node.doc()))


class RModel:
    """The two top-level objects (None: does not exist)"""

    def __init__(self):
        self.tvl = None
        self.uuids = None
        self.stored = {"tvl": None, "uuid": None}

    def doc(self):
        return {"tvl": None if self.tvl is None else self.tvl.doc(),
                "uuid": None if self.uuids is None else self.uuids.doc()}

    def reload(self):
        """A new process loads the stored content"""
        new = rebuild(self.stored)
        self.tvl, self.uuids = new.tvl, new.uuids


def _meta(doc):
    meta = RMeta()
    meta.runs = {e: dict(r) for e, r in doc.items()}
    return meta


def _record(doc):
    record = RRecord(doc["id"], doc["version"])
    if doc["dlm"]:
        record.dlm = _meta(doc["dlm"])
    if doc["files"]:
        record.files = RFiles()
        record.files.files = {p: _meta(m) for p, m in doc["files"].items()}
    return record


def _element(doc):
    kind, content = doc
    if kind == "mrr":
        return _record(content)
    tree = RTree()
    tree.datasets = {p: _record(r) for p, r in content.items()}
    return tree


def _versions(doc):
    versions = RVersions()
    versions.versions = {k: [s, _element(e)] for k, (s, e) in doc.items()}
    return versions


def rebuild(doc):
    model = RModel()
    if doc["tvl"] is not None:
        model.tvl = _versions(doc["tvl"])
        mark_saved(model.tvl)
    if doc["uuid"] is not None:
        model.uuids = RUuids()
        model.uuids.uuids = {u: _versions(v) for u, v in doc["uuid"].items()}
        mark_saved(model.uuids)
    model.stored = {"tvl": doc["tvl"], "uuid": doc["uuid"]}
    return model
