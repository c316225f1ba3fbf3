"""
Independent reader of the stored form: which stored objects belong to which
part of the model.  Used to judge the extent of read and write operations.

locate(repo) -> {part: set of object ids}; parts are tuples:
    ("T",)                           tree version list
    ("T", version, prefix)           dataset tree (root tree object)
    ("T", version, prefix, "node", path)      inner tree object
    ("T", version, prefix, "rec", path)       root record
    (... "rec", path, "dlm")                  dataset-level metadata (reference + content)
    (... "rec", path, "files")                file tree (root tree object)
    (... "rec", path, "files", "node", path)
    (... "rec", path, "files", "meta", path)
    ("U",), ("U", uuid), ("U", uuid, version, prefix) [root record], ... as above
"""
import json

from .gitmodel import decode_tree

TVL_REF = "refs/datalad/dataset-tree-version-list"
UUID_REF = "refs/datalad/dataset-uuid-set"
RECORD_NAME = b".datalad_metadata_root_record"
NONE = "*None*"


class Locator:
    def __init__(self, repo):
        self.repo = repo
        self.parts = {}

    def add(self, part, sha):
        self.parts.setdefault(part, set()).add(sha)

    def blob(self, sha):
        kind, data = self.repo.objects[sha]
        assert kind == "blob"
        return json.loads(data)

    def tree(self, sha):
        kind, data = self.repo.objects[sha]
        assert kind == "tree"
        return decode_tree(data)

    def run(self):
        top = self.repo.refs.get(TVL_REF)
        if top:
            self.add(("T",), top)
            for entry in self.blob(top):
                self.element(("T", entry["primary_data_version"], prefix(entry["path"])),
                             entry["dataset_tree"])
        top = self.repo.refs.get(UUID_REF)
        if top:
            self.add(("U",), top)
            for _, name, sha in self.tree(top):
                uuid = name.decode()
                self.add(("U", uuid), sha)
                for entry in self.blob(sha):
                    self.element(("U", uuid, entry["primary_data_version"],
                                  prefix(entry["path"])), entry["dataset_tree"])
        return self.parts

    def element(self, part, reference):
        if reference["location"] == NONE:
            return
        if reference["class_name"] == "MetadataRootRecord":
            self.record(part, reference["location"])
        else:
            self.nodes(part, part + ("rec",), reference["location"], "",
                       lambda p, path, sha: self.record(p + (record_path(path),), sha))

    def nodes(self, root, leaf, sha, path, handle):
        self.add(root if not path else root + ("node", path), sha)
        for mode, name, child in self.tree(sha):
            sub = (path + "/" if path else "") + name.decode()
            if mode == b"40000":
                self.nodes(root, leaf, child, sub, handle)
            else:
                handle(leaf, sub, child)

    def record(self, part, sha):
        self.add(part, sha)
        content = self.blob(sha)
        location = content["dataset_level_metadata"]["location"]
        if location != NONE:
            self.metadata(part + ("dlm",), location)
        location = content["file_tree"]["location"]
        if location != NONE:
            files = part + ("files",)
            self.nodes(files, files + ("meta",), location, "",
                       lambda p, path, sha: self.metadata(p + (path,), sha))

    def metadata(self, part, sha):
        self.add(part, sha)
        self.add(part, self.blob(sha)["location"])


def prefix(text):
    return "" if text == "." else text


def record_path(path):
    return "/".join(path.split("/")[:-1])


def locate(repo):
    return Locator(repo).run()


def containers(part):
    """all parts on the way from the top-level object to the part, and itself"""
    result = {part}
    for i in range(1, len(part)):
        head = part[:i]
        result.add(head)
        if head[-1] in ("node", "meta", "rec") and i < len(part):
            # inner nodes above the path
            path = part[i]
            names = path.split("/")
            # a record lies in the directory of its dataset path
            last = len(names) + 1 if head[-1] == "rec" and path else len(names)
            for k in range(1, last):
                result.add(head[:-1] + ("node", "/".join(names[:k])))
    return result
