From 4a834918a5d20d9fe727ea69641e3d924ef681ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:51 +0000
Subject: [PATCH 01/35] fix: apply MetadataPath normalisation on python >= 3.12

Since python 3.12 pathlib ignores the arguments given to __new__, absolute
paths were no longer turned into relative paths.
---
 dataladmetadatamodel/metadatapath.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/dataladmetadatamodel/metadatapath.py b/dataladmetadatamodel/metadatapath.py
index 04f6bbe..49cbbe6 100644
--- a/dataladmetadatamodel/metadatapath.py
+++ b/dataladmetadatamodel/metadatapath.py
@@ -1,11 +1,21 @@
+import sys
 from pathlib import PurePosixPath
 
 from dataladmetadatamodel.log import logger
 
 
 class MetadataPath(PurePosixPath):
-    def __new__(cls, *args):
-
+    if sys.version_info >= (3, 12):
+        # Since python 3.12 the path is set in `__init__`, arguments
+        # to `__new__` are ignored by the super-classes.
+        def __init__(self, *args):
+            super().__init__(self._get_relative_path(*args))
+    else:
+        def __new__(cls, *args):
+            return super().__new__(cls, cls._get_relative_path(*args))
+
+    @staticmethod
+    def _get_relative_path(*args) -> str:
         posix_args = []
         for arg in args:
             if isinstance(arg, str):
@@ -14,15 +24,12 @@ class MetadataPath(PurePosixPath):
 
         original_path = PurePosixPath(*posix_args)
         if not original_path.is_absolute():
-            created_path = super().__new__(
-                cls,
-                "/".join(original_path.parts))
+            created_path = "/".join(original_path.parts)
         else:
-            modified_path = "/".join(original_path.parts[1:])
-            created_path = super().__new__(cls, modified_path)
+            created_path = "/".join(original_path.parts[1:])
             logger.warning(
                 f"Denied creation of absolute metadata path: {original_path}, "
-                f"created {modified_path} instead. This is considered an error "
+                f"created {created_path} instead. This is considered an error "
                 f"in the calling code.")
 
         return created_path
-- 
2.43.0


From f6967f878165e6b8e113133fd9e222499c45b9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:13 +0000
Subject: [PATCH 02/35] fix: compare metadata instance sets with more than one
 configuration

Extractor configurations can not be ordered, comparison raised a TypeError.
---
 dataladmetadatamodel/metadata.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/metadata.py b/dataladmetadatamodel/metadata.py
index 639ff27..438a4a9 100644
--- a/dataladmetadatamodel/metadata.py
+++ b/dataladmetadatamodel/metadata.py
@@ -212,8 +212,11 @@ class MetadataInstanceSet:
         return cls.from_json_obj(json.loads(json_str))
 
     def __eq__(self, other: "MetadataInstanceSet"):
-        return sorted(self.parameter_set) == sorted(other.parameter_set) \
-               and self._instances == other._instances
+        # The index of a configuration depends on the order in which the
+        # configurations were added, it is not relevant for equality.
+        return len(self._instances) == len(other._instances) and all(
+            instance in other._instances.values()
+            for instance in self._instances.values())
 
 
 class Metadata(MappableObject):
-- 
2.43.0


From c781dcc1ad0ea62bf378e2384a53f9f4c8e861a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:13 +0000
Subject: [PATCH 03/35] fix: create metadata in FileTree.add_extractor_run for
 new paths

---
 dataladmetadatamodel/filetree.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/filetree.py b/dataladmetadatamodel/filetree.py
index 77271c8..a04560a 100644
--- a/dataladmetadatamodel/filetree.py
+++ b/dataladmetadatamodel/filetree.py
@@ -62,9 +62,8 @@ class FileTree(MTreeProxy):
                           configuration: ExtractorConfiguration,
                           metadata_content: JSONObject):
 
-        try:
-            metadata = self.get_metadata(path)
-        except AttributeError:
+        metadata = self.get_metadata(path)
+        if metadata is None:
             metadata = Metadata()
             self.add_metadata(path, metadata)
 
-- 
2.43.0


From 810aeafb9c664cfbb7fd401a51ebf57265ce5bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:24 +0000
Subject: [PATCH 04/35] fix: support root records without dataset-level
 metadata in purge and get

---
 dataladmetadatamodel/metadatarootrecord.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/metadatarootrecord.py b/dataladmetadatamodel/metadatarootrecord.py
index ee3244a..2f177d6 100644
--- a/dataladmetadatamodel/metadatarootrecord.py
+++ b/dataladmetadatamodel/metadatarootrecord.py
@@ -45,11 +45,11 @@ class MetadataRootRecord(MappableObject):
         ]
 
     def purge_impl(self):
-        self.dataset_level_metadata.purge()
+        if self.dataset_level_metadata is not None:
+            self.dataset_level_metadata.purge()
         if self._file_tree is not None:
             self._file_tree.purge()
-        if self.dataset_level_metadata is not None:
-            self.dataset_level_metadata = None
+        self.dataset_level_metadata = None
         self._file_tree = None
 
     def set_file_tree(self, file_tree: FileTree):
@@ -72,6 +72,8 @@ class MetadataRootRecord(MappableObject):
 
     def get_dataset_level_metadata(self):
         self.ensure_mapped()
+        if self.dataset_level_metadata is None:
+            return None
         return self.dataset_level_metadata.read_in()
 
     def deepcopy_impl(self,
-- 
2.43.0


From 22e0a195ec7e8a528e9e31aaf50d4d45e1074a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 05/35] fix: read in unmapped objects in len, comparison, and
 JSON conversion

---
 dataladmetadatamodel/metadata.py    | 3 +++
 dataladmetadatamodel/versionlist.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/dataladmetadatamodel/metadata.py b/dataladmetadatamodel/metadata.py
index 438a4a9..f3be03a 100644
--- a/dataladmetadatamodel/metadata.py
+++ b/dataladmetadatamodel/metadata.py
@@ -239,6 +239,8 @@ class Metadata(MappableObject):
         self.instance_sets: Dict[str, MetadataInstanceSet] = dict()
 
     def __eq__(self, other):
+        self.ensure_mapped()
+        other.ensure_mapped()
         return self.instance_sets == other.instance_sets
 
     @staticmethod
@@ -292,6 +294,7 @@ class Metadata(MappableObject):
         self.instance_sets[extractor_name] = instance_set
 
     def to_json(self) -> str:
+        self.ensure_mapped()
         return json.dumps({
             "@": dict(
                 type="Metadata",
diff --git a/dataladmetadatamodel/versionlist.py b/dataladmetadatamodel/versionlist.py
index d9055ec..86ff388 100644
--- a/dataladmetadatamodel/versionlist.py
+++ b/dataladmetadatamodel/versionlist.py
@@ -60,6 +60,7 @@ class VersionList(MappableObject):
             initial_set or dict()
 
     def __len__(self):
+        self.ensure_mapped()
         return sum([len(path_dict) for path_dict in self.version_set.values()])
 
     def purge_impl(self):
-- 
2.43.0


From f0fea86b376f783a44fe97be057986a782275b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 06/35] fix: read in unmapped UUID sets and version lists in
 set and unget operations

---
 dataladmetadatamodel/uuidset.py     | 2 ++
 dataladmetadatamodel/versionlist.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/uuidset.py b/dataladmetadatamodel/uuidset.py
index 8d6aa00..fde6bc2 100644
--- a/dataladmetadatamodel/uuidset.py
+++ b/dataladmetadatamodel/uuidset.py
@@ -44,6 +44,7 @@ class UUIDSet(MappableObject):
         Existing references are deleted.
         The entry is marked as dirty.
         """
+        self.ensure_mapped()
         self.touch()
         self.uuid_set[uuid] = version_list
 
@@ -60,6 +61,7 @@ class UUIDSet(MappableObject):
         Remove a version list from memory. First, persist the
         current status, if it was changed.
         """
+        self.ensure_mapped()
         self.uuid_set[uuid].write_out()
         self.uuid_set[uuid].purge()
 
diff --git a/dataladmetadatamodel/versionlist.py b/dataladmetadatamodel/versionlist.py
index 86ff388..5dd1a76 100644
--- a/dataladmetadatamodel/versionlist.py
+++ b/dataladmetadatamodel/versionlist.py
@@ -188,7 +188,9 @@ class VersionList(MappableObject):
         the backend, if it was changed or--- then purge it
         from memory.
         """
-        version_record = self.version_set[primary_data_version][prefix_path]
+        version_record = self._get_version_record(
+            primary_data_version,
+            prefix_path)
         version_record.element.write_out(new_destination)
         version_record.element.purge()
 
-- 
2.43.0


From ace6bf0f494194f8a52aa9a4687d3610927fa7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 07/35] fix: return a tree version list reference when saving a
 tree version list

---
 dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index 99ddfa8..f39c695 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -111,4 +111,4 @@ class TreeVersionListGitMapper(VersionListGitMapper):
             realm,
             GitReference.TREE_VERSION_LIST.value,
             reference.location)
-        return reference
+        return Reference("TreeVersionList", reference.location)
-- 
2.43.0


From 635f65a7c181078e6b67aba1998a316b3ffd1293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 08/35] fix: support saving of empty trees, for example empty
 UUID sets

---
 .../mapper/gitmapper/gitbackend/subprocess.py        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 0a387fa..121d272 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -150,10 +150,10 @@ def git_save_tree_node(repo_dir: str,
                        entry_set: Iterable[Tuple[str, str, str, str]]
                        ) -> str:
 
-    tree_spec = "\n".join([
-        f"{flag} {node_type} {object_hash}\t{name}"
+    tree_spec = "".join([
+        f"{flag} {node_type} {object_hash}\t{name}\n"
         for flag, node_type, object_hash, name in entry_set
-    ]) + "\n"
+    ])
     cmd_line = git_command_line(repo_dir, "mktree", ["--missing", ])
     return checked_execute(cmd_line, stdin_content=tree_spec)[0][0]
 
@@ -161,10 +161,10 @@ def git_save_tree_node(repo_dir: str,
 def git_save_tree(repo_dir: str,
                   entry_set: Iterable[Tuple[str, str, str, str]]
                   ) -> str:
-    tree_spec = "\n".join([
-        f"{flag} {node_type} {object_hash}\t{name}"
+    tree_spec = "".join([
+        f"{flag} {node_type} {object_hash}\t{name}\n"
         for flag, node_type, object_hash, name in entry_set
-    ]) + "\n"
+    ])
     cmd_line = git_command_line(repo_dir, "mktree", ["--missing", ])
     return checked_execute(cmd_line, stdin_content=tree_spec)[0][0]
 
-- 
2.43.0


From 807f0097930f8eb2842ca84a82900bf4255de1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:22 +0000
Subject: [PATCH 09/35] fix: quote tree entry names that contain line breaks

---
 dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
index eb1272b..584489c 100644
--- a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
@@ -76,12 +76,16 @@ class MTreeNodeGitMapper(Mapper):
 
     @classmethod
     def escape_double_quotes(cls, input_string: str) -> str:
-        if '"' in input_string:
+        # Names with line breaks have to be quoted as well, because
+        # git mktree expects one entry per line
+        if any(character in input_string for character in '"\n\r'):
             return (
                 '"'
                 + input_string
                 .replace('\\', '\\\\')
                 .replace('\"', '\\"')
+                .replace('\n', '\\n')
+                .replace('\r', '\\r')
                 + '"'
             )
         else:
-- 
2.43.0


From 62d920a58b4697f19d93d9c6b465646b164d58eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 10/35] fix: split git output at line feeds only

Unquoted names, i.e. with core.quotePath set to false, can contain other
characters that str.splitlines() regards as line boundaries.
---
 .../mapper/gitmapper/gitbackend/subprocess.py         | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 121d272..6d72b86 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -29,6 +29,13 @@ def execute(arguments: Union[str, List[str]],
         stderr=subprocess.PIPE)
 
 
+def split_lines(output: bytes) -> List[str]:
+    # Split at line feeds only, other line boundaries that are
+    # recognized by str.splitlines() might be part of a name.
+    lines = output.decode().split("\n")
+    return lines[:-1] if lines[-1] == "" else lines
+
+
 def checked_execute(arguments: Union[str, List[str]],
                     stdin_content: Optional[Union[str, bytes]] = None
                     ) -> Tuple[List[str], List[str]]:
@@ -46,8 +53,8 @@ def checked_execute(arguments: Union[str, List[str]],
         error.stderr = result.stderr.decode()
         raise error
     return (
-        result.stdout.decode().splitlines(),
-        result.stderr.decode().splitlines())
+        split_lines(result.stdout),
+        split_lines(result.stderr))
 
 
 def git_command_line(repo_dir: str,
-- 
2.43.0


From 99daaa6ea66e5a6a7917d8c57a0115d39a10e870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 11/35] fix: load stored text unmodified

Trailing line feeds were removed and other line ends were converted.
---
 .../mapper/gitmapper/gitbackend/subprocess.py  | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 6d72b86..2bdb762 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -36,9 +36,9 @@ def split_lines(output: bytes) -> List[str]:
     return lines[:-1] if lines[-1] == "" else lines
 
 
-def checked_execute(arguments: Union[str, List[str]],
-                    stdin_content: Optional[Union[str, bytes]] = None
-                    ) -> Tuple[List[str], List[str]]:
+def checked_execute_raw(arguments: Union[str, List[str]],
+                        stdin_content: Optional[Union[str, bytes]] = None
+                        ) -> Any:
 
     result = execute(arguments, stdin_content)
     if result.returncode != 0:
@@ -52,6 +52,14 @@ def checked_execute(arguments: Union[str, List[str]],
         error.stdout = result.stdout.decode()
         error.stderr = result.stderr.decode()
         raise error
+    return result
+
+
+def checked_execute(arguments: Union[str, List[str]],
+                    stdin_content: Optional[Union[str, bytes]] = None
+                    ) -> Tuple[List[str], List[str]]:
+
+    result = checked_execute_raw(arguments, stdin_content)
     return (
         split_lines(result.stdout),
         split_lines(result.stderr))
@@ -72,8 +80,8 @@ def git_command_line(repo_dir: str,
 
 
 def git_text_result(cmd_line: Union[str, List[str]]):
-    result = checked_execute(cmd_line)[0]
-    return "\n".join(result)
+    # Do not modify the text, e.g. line ends
+    return checked_execute_raw(cmd_line).stdout.decode()
 
 
 def adapt_for_remote(repo_dir: str, object_reference: str) -> str:
-- 
2.43.0


From 8edd195673aa1901bb8723d3205b75707a916841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 12/35] fix: copy the content in Text.deepcopy

---
 dataladmetadatamodel/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/text.py b/dataladmetadatamodel/text.py
index d5f89b9..cbfd906 100644
--- a/dataladmetadatamodel/text.py
+++ b/dataladmetadatamodel/text.py
@@ -41,6 +41,7 @@ class Text(MappableObject):
                       new_destination: Optional[str] = None,
                       **kwargs) -> "Text":
 
-        copied_text = Text()
+        copied_text = Text(self.content)
         copied_text.write_out(new_destination)
+        copied_text.purge()
         return copied_text
-- 
2.43.0


From a3bf89a41605455ba2dd1ab49cd9fe6787c28544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 13/35] fix: treat objects with a None-reference as saved

Stored models that contain an empty dataset tree could not be saved or
purged after loading them.
---
 dataladmetadatamodel/mappableobject.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 442e964..5a2ee16 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -84,6 +84,15 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
         # delegate to our subclasses
         return self.modifiable_sub_objects_impl()
 
+    def is_saved_on(self, destination: str) -> bool:
+        # A None-reference represents an empty object, there is
+        # nothing that has to be saved, unless it is modified.
+        if not self.mapped \
+                and self.reference is not None \
+                and self.reference.is_none_reference():
+            return True
+        return super().is_saved_on(destination)
+
     def read_in(self,
                 backend_type: str = "git"
                 ) -> "MappableObject":
@@ -98,9 +107,12 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
             # If the reference is a None-reference,
             # we can handle this here.
             if self.reference.is_none_reference():
-                assert self.reference.class_name == type(self).__name__
+                assert self.reference.class_name in (
+                    type(self).__name__, "FileTree", "DatasetTree")
                 logger.warning(f"read_in({self}): None-reference in {self}")
                 self.purge_impl()
+                self.mapped = True
+                self.set_saved_on(self.realm)
                 return self
 
             # Ensure that the object is saved on the given realm
-- 
2.43.0


From c552d38a4d62424be592e4fdcac20c4e113ff0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 14/35] fix: do not store empty sub-trees

Saving a tree that contains an empty sub-tree, e.g. after the last entry of
the sub-tree was deleted, failed.
---
 dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
index 584489c..670024f 100644
--- a/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/mtreenodemapper.py
@@ -70,7 +70,13 @@ class MTreeNodeGitMapper(Mapper):
                 self.escape_double_quotes(child_name)
             )
             for child_name, child_node in mtree_node.child_nodes.items()
+            if not child_node.reference.is_none_reference()
         ]
+
+        # If there are only empty sub-trees, the tree is empty
+        if not dir_entries:
+            return Reference.get_none_reference("MTreeNode")
+
         mtree_node_location = git_save_tree_node(realm, dir_entries)
         return Reference("MTreeNode", mtree_node_location)
 
-- 
2.43.0


From 378a6197b9b1e2ef351e6b1f97d110725b5e3f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 15/35] fix: save and keep objects whose sub-objects were saved
 separately

An object was considered saved if all its sub-objects are saved, even if
sub-objects were modified, and saved (and purged), after the object itself
was saved. Saving the object was skipped in this case and purging it was
accepted, the modifications of the sub-object were lost.

The saved state of an object now includes the locations of the saved states
of its sub-objects. Purge checks the complete object before it modifies it.
---
 dataladmetadatamodel/mappableobject.py | 22 ++++++++++++++++++++--
 dataladmetadatamodel/mtreeproxy.py     |  4 ++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 5a2ee16..0483b42 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -5,6 +5,7 @@ from abc import (
 from contextlib import contextmanager
 from typing import (
     Iterable,
+    List,
     Optional,
 )
 
@@ -67,6 +68,9 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
         self.reference = reference
         self.mapped = reference is None
 
+        # Locations of the sub-objects in the saved state of this object
+        self.saved_sub_object_locations: List[Optional[str]] = []
+
     @property
     def modifiable_sub_objects(self) -> Iterable["MappableObject"]:
         """
@@ -91,7 +95,18 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 and self.reference is not None \
                 and self.reference.is_none_reference():
             return True
-        return super().is_saved_on(destination)
+
+        # If a sub-object was modified and saved after this object was
+        # saved, the saved state refers to an old state of the sub-object.
+        return super().is_saved_on(destination) and (
+            not self.mapped
+            or self.saved_sub_object_locations == self._get_sub_object_locations())
+
+    def _get_sub_object_locations(self) -> List[Optional[str]]:
+        return [
+            sub_object.reference.location if sub_object.reference else None
+            for sub_object in self.modifiable_sub_objects
+        ]
 
     def read_in(self,
                 backend_type: str = "git"
@@ -113,6 +128,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 self.purge_impl()
                 self.mapped = True
                 self.set_saved_on(self.realm)
+                self.saved_sub_object_locations = []
                 return self
 
             # Ensure that the object is saved on the given realm
@@ -134,6 +150,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
 
             # Mark the object as mapped.
             self.mapped = True
+            self.saved_sub_object_locations = self._get_sub_object_locations()
 
         else:
 
@@ -206,6 +223,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 force_write)
 
         self.set_saved_on(destination_realm)
+        self.saved_sub_object_locations = self._get_sub_object_locations()
 
         assert isinstance(self.reference, Reference), \
             f"write_out({self}): object {self} has no valid " \
@@ -216,7 +234,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
     def purge(self):
         if self.mapped:
 
-            if len(self.saved_on) == 0:
+            if not self.is_saved_on(self.realm):
                 raise ValueError(
                     f"purge({self}): called with unsaved object: {self}")
 
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index b299cab..6442318 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -50,6 +50,10 @@ class MTreeProxy:
     def __contains__(self, path: MetadataPath) -> bool:
         return self.mtree.get_object_at_path(path) is not None
 
+    @property
+    def reference(self) -> Optional[Reference]:
+        return self.mtree.reference
+
     def ensure_mapped(self) -> bool:
         return self.mtree.ensure_mapped()
 
-- 
2.43.0


From 236e354a5bd3ae15803c4616cbbc98cae6c004db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 16/35] fix: set the realm of an object after it was saved
 successfully

A failing write left the object with a reference that is not valid in its
realm.
---
 dataladmetadatamodel/mappableobject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 0483b42..254b1ef 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -198,10 +198,9 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 f"write_out({self}): trying to write to a remote realm: "
                 f"{destination_realm}")
 
-        self.realm = destination_realm
-
         if self.is_saved_on(destination_realm):
             if not force_write:
+                self.realm = destination_realm
                 logger.debug(
                     f"write_out({self}): skipping map_out because {self} "
                     f"is already stored on {destination_realm}")
@@ -222,6 +221,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 destination_realm,
                 force_write)
 
+        self.realm = destination_realm
         self.set_saved_on(destination_realm)
         self.saved_sub_object_locations = self._get_sub_object_locations()
 
-- 
2.43.0


From 66ea32dc653be78597200f9efb50f5f2b58f7686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 17/35] fix: use the default destination when saving a purged
 object

---
 dataladmetadatamodel/mappableobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 254b1ef..155a8ed 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -177,7 +177,7 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
                 f"write_out: object {self} has no valid " \
                 f"reference: {self.reference}"
 
-            if not self.is_saved_on(destination_realm):
+            if not self.is_saved_on(destination_realm or self.realm):
                 raise RuntimeError(
                     f"write_out({self}): modified object got lost "
                     f"on {destination_realm}")
-- 
2.43.0


From 3d528e79b500bfbec02e8c468871de849e0ea322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 18/35] fix: forget destinations that hold outdated sub-objects
 when saving elsewhere

---
 dataladmetadatamodel/mappableobject.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataladmetadatamodel/mappableobject.py b/dataladmetadatamodel/mappableobject.py
index 155a8ed..8261772 100644
--- a/dataladmetadatamodel/mappableobject.py
+++ b/dataladmetadatamodel/mappableobject.py
@@ -214,6 +214,9 @@ class MappableObject(ModifiableObject, metaclass=ABCMeta):
             f"write_out({self}): calling map_out to save {self} "
             f"to {destination_realm}")
 
+        # Forget destinations that hold an older state of a sub-object
+        self.saved_on = set(filter(self.is_saved_on, self.saved_on))
+
         self.reference = get_mapper(
             type(self).__name__,
             backend_type).map_out(
-- 
2.43.0


From 7cc7cebaab6fd3eb52880a31336b3ac90a17f238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 19/35] fix: add object references for root records in version
 lists

Root records that are only referenced by a version list were lost in git gc.
---
 .../mapper/gitmapper/versionlistmapper.py            | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index f39c695..ce40def 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -3,7 +3,10 @@ from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
     git_save_json,
     git_update_ref,
 )
-from dataladmetadatamodel.mapper.gitmapper.objectreference import GitReference
+from dataladmetadatamodel.mapper.gitmapper.objectreference import (
+    GitReference,
+    add_blob_reference,
+)
 from dataladmetadatamodel.mapper.mapper import Mapper
 from dataladmetadatamodel.mapper.reference import Reference
 
@@ -68,6 +71,7 @@ class VersionListGitMapper(Mapper):
                      force_write: bool
                      ) -> Reference:
 
+        from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord
         from dataladmetadatamodel.versionlist import VersionList
 
         assert isinstance(version_list, VersionList)
@@ -82,6 +86,12 @@ class VersionListGitMapper(Mapper):
             for version_record in prefix_set.values()
         ]
 
+        # Metadata root records might only be referenced by the version
+        # list, i.e. in the JSON-string that is stored in the repository.
+        for _, version_record in version_list._iterate_version_records():
+            if isinstance(version_record.element, MetadataRootRecord):
+                add_blob_reference(version_record.element.reference.location)
+
         location = git_save_json(realm, json_object)
         return Reference("VersionList", location)
 
-- 
2.43.0


From a8f2c9f299e853f1d9aa63ec7125c5e87e8ad753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 20/35] fix: flush object references only to the realm that
 contains the objects

References to objects of all realms were flushed to the first realm that was
flushed, objects in other realms were not protected from git gc.
---
 .../mapper/gitmapper/metadatamapper.py        |  4 +-
 .../gitmapper/metadatarootrecordmapper.py     |  6 ++-
 .../mapper/gitmapper/objectreference.py       | 51 ++++++++++++++-----
 .../mapper/gitmapper/versionlistmapper.py     |  4 +-
 dataladmetadatamodel/mtreeproxy.py            |  2 +-
 5 files changed, 48 insertions(+), 19 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
index ed11cdc..3200656 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
@@ -75,7 +75,7 @@ class MetadataGitMapper(Mapper):
         # JSON-strings that are stored in the
         # repository.
         metadata_blob_location = git_save_str(realm, metadata.to_json())
-        add_blob_reference(metadata_blob_location)
+        add_blob_reference(metadata_blob_location, realm)
 
         # Save reference. NB we don't add the metadata reference to the object
         # tree here. Our "owner" will do that if necessary. For example, the
@@ -105,7 +105,7 @@ class MetadataGitMapper(Mapper):
         # Cache metadata, and cache a reference object. the
         # following code is "cache"-equivalent to the immediate case
         metadata_blob_location = cache.cache_blob(realm, metadata.to_json())
-        add_blob_reference(metadata_blob_location)
+        add_blob_reference(metadata_blob_location, realm)
 
         metadata_reference_blob_location = cache.cache_blob(
             realm,
diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
index 2965c76..7ab827e 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
@@ -76,7 +76,7 @@ class MetadataRootRecordGitMapper(Mapper):
                 "git",
                 force_write)
             if not file_tree_reference.is_none_reference():
-                add_tree_reference(file_tree_reference.location)
+                add_tree_reference(file_tree_reference.location, realm)
 
         if mrr.dataset_level_metadata is None:
             dataset_level_metadata_reference = Reference.get_none_reference("Metadata")
@@ -85,7 +85,9 @@ class MetadataRootRecordGitMapper(Mapper):
                 realm,
                 "git",
                 force_write)
-            add_blob_reference(dataset_level_metadata_reference.location)
+            add_blob_reference(
+                dataset_level_metadata_reference.location,
+                realm)
 
         json_object = {
             Strings.DATASET_IDENTIFIER: str(mrr.dataset_identifier),
diff --git a/dataladmetadatamodel/mapper/gitmapper/objectreference.py b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
index dd96007..1b14e33 100644
--- a/dataladmetadatamodel/mapper/gitmapper/objectreference.py
+++ b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
@@ -2,8 +2,11 @@ import enum
 import logging
 from pathlib import Path
 from typing import (
+    Dict,
+    Optional,
     Set,
     Tuple,
+    Union,
 )
 
 from ...mapper.reference import none_location
@@ -13,7 +16,12 @@ from .utils import split_git_lstree_line
 
 logger = logging.getLogger("datalad.metalad.gitmapper.objectreference")
 
-cached_object_references: Set[Tuple[EntryType, str]] = set()
+# Object references that are not yet flushed, and the realms to which they
+# belong. References that belong to the realm `None` are flushed to any realm.
+cached_object_references: Dict[
+    Tuple[EntryType, str],
+    Set[Optional[Path]]
+] = dict()
 
 
 class GitReference(enum.Enum):
@@ -27,14 +35,21 @@ class GitReference(enum.Enum):
 checked_legacy_stores = set()
 
 
+def _get_realm_path(realm: Union[None, str, Path]) -> Optional[Path]:
+    return None if realm is None else Path(realm).resolve()
+
+
 def add_object_reference(entry_type: EntryType,
-                         object_hash: str):
+                         object_hash: str,
+                         realm: Union[None, str, Path] = None):
 
     if object_hash == none_location:
         logger.warning("attempt to add a None-reference")
         return
 
-    cached_object_references.add((entry_type, object_hash))
+    cached_object_references.setdefault(
+        (entry_type, object_hash),
+        set()).add(_get_realm_path(realm))
 
 
 def add_legacy_store_entries_from(realm: Path,
@@ -52,7 +67,7 @@ def add_legacy_store_entries_from(realm: Path,
                     f"{reference.value}) to new format")
 
         for entry in legacy_entries:
-            cached_object_references.add((entry_type, entry[2]))
+            add_object_reference(entry_type, entry[2], realm)
         return True
     except RuntimeError:
         return False
@@ -90,8 +105,6 @@ def remove_legacy_store_reference(realm: Path, reference: GitReference):
 
 
 def flush_object_references(realm: Path):
-    global cached_object_references
-
     from .gitbackend.subprocess import git_update_ref
     from ..gitmapper.treeupdater import (
         PathInfo,
@@ -102,7 +115,14 @@ def flush_object_references(realm: Path):
 
     legacy_trees_added, legacy_blobs_added = add_legacy_store_entries(realm)
 
-    if cached_object_references:
+    realm_paths = {None, _get_realm_path(realm)}
+    realm_object_references = [
+        object_reference
+        for object_reference, paths in cached_object_references.items()
+        if paths & realm_paths
+    ]
+
+    if realm_object_references:
         path_infos = [
             PathInfo(
                 [
@@ -113,7 +133,7 @@ def flush_object_references(realm: Path):
                 ],
                 object_hash,
                 entry_type)
-            for entry_type, object_hash in cached_object_references
+            for entry_type, object_hash in realm_object_references
         ]
 
         with locked_backend(realm):
@@ -125,7 +145,10 @@ def flush_object_references(realm: Path):
             tree_hash = add_paths(realm, path_infos, root_entries)
             git_update_ref(str(realm), GitReference.OBJECT_REFERENCES.value, tree_hash)
 
-        cached_object_references = set()
+        for object_reference in realm_object_references:
+            cached_object_references[object_reference] -= realm_paths
+            if not cached_object_references[object_reference]:
+                del cached_object_references[object_reference]
 
     if legacy_trees_added is True:
         remove_legacy_store_reference(realm, GitReference.LEGACY_TREES)
@@ -133,12 +156,14 @@ def flush_object_references(realm: Path):
         remove_legacy_store_reference(realm, GitReference.LEGACY_BLOBS)
 
 
-def add_tree_reference(object_hash: str):
-    add_object_reference(EntryType.Directory, object_hash)
+def add_tree_reference(object_hash: str,
+                       realm: Union[None, str, Path] = None):
+    add_object_reference(EntryType.Directory, object_hash, realm)
 
 
-def add_blob_reference(object_hash: str):
-    add_object_reference(EntryType.File, object_hash)
+def add_blob_reference(object_hash: str,
+                       realm: Union[None, str, Path] = None):
+    add_object_reference(EntryType.File, object_hash, realm)
 
 
 def remove_object_reference(*args, **kwargs):
diff --git a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
index ce40def..6680392 100644
--- a/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/versionlistmapper.py
@@ -90,7 +90,9 @@ class VersionListGitMapper(Mapper):
         # list, i.e. in the JSON-string that is stored in the repository.
         for _, version_record in version_list._iterate_version_records():
             if isinstance(version_record.element, MetadataRootRecord):
-                add_blob_reference(version_record.element.reference.location)
+                add_blob_reference(
+                    version_record.element.reference.location,
+                    realm)
 
         location = git_save_json(realm, json_object)
         return Reference("VersionList", location)
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index 6442318..ba319c3 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -85,7 +85,7 @@ class MTreeProxy:
             MetadataGitMapper.flush_realm(cache_destination)
 
         if not reference.is_none_reference():
-            add_tree_reference(reference.location)
+            add_tree_reference(reference.location, cache_destination)
         return reference
 
     def purge(self):
-- 
2.43.0


From 9fc70f27321458e24cf643f9e1be9f2be7d59861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 21/35] fix: keep existing object references if reading them
 fails

A failed read was handled like a missing reference, all existing object
references were replaced.
---
 .../mapper/gitmapper/gitbackend/subprocess.py | 19 +++++++++++++++++++
 .../mapper/gitmapper/objectreference.py       |  9 ++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index 2bdb762..ca1c92c 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -1,6 +1,7 @@
 import json
 import shlex
 import subprocess
+from pathlib import Path
 from typing import (
     Any,
     Dict,
@@ -118,6 +119,24 @@ def git_object_exists_locally(repo_dir: str,
     return execute(cmd_line).returncode == 0
 
 
+def git_reference_exists(repo_dir: str,
+                         reference: str) -> bool:
+    """
+    Check for the existence of a reference, to distinguish between a missing
+    reference and a failed access to an existing reference.
+
+    Raises RuntimeError, if existence can not be determined.
+    """
+    cmd_line = git_command_line(
+        repo_dir,
+        "show-ref",
+        ["--verify", "--quiet", reference])
+    result = execute(cmd_line)
+    if result.returncode not in (0, 1) and Path(repo_dir, ".git", "HEAD").exists():
+        raise RuntimeError(f"cannot read references of {repo_dir}")
+    return result.returncode == 0
+
+
 def git_read_tree_node(repo_dir: str,
                        object_reference: str) -> List[str]:
     repo_dir = adapt_for_remote(repo_dir, object_reference)
diff --git a/dataladmetadatamodel/mapper/gitmapper/objectreference.py b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
index 1b14e33..29cea21 100644
--- a/dataladmetadatamodel/mapper/gitmapper/objectreference.py
+++ b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
@@ -105,7 +105,10 @@ def remove_legacy_store_reference(realm: Path, reference: GitReference):
 
 
 def flush_object_references(realm: Path):
-    from .gitbackend.subprocess import git_update_ref
+    from .gitbackend.subprocess import (
+        git_reference_exists,
+        git_update_ref,
+    )
     from ..gitmapper.treeupdater import (
         PathInfo,
         _get_dir,
@@ -140,6 +143,10 @@ def flush_object_references(realm: Path):
             try:
                 root_entries = _get_dir(realm, GitReference.OBJECT_REFERENCES.value)
             except RuntimeError:
+                # Do not discard existing references, if they can't be read
+                if git_reference_exists(
+                        str(realm), GitReference.OBJECT_REFERENCES.value):
+                    raise
                 root_entries = []
 
             tree_hash = add_paths(realm, path_infos, root_entries)
-- 
2.43.0


From bd67d9c7e162c61c1510016a95514a6156f2753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 22/35] fix: complete the conversion of legacy reference stores
 after a failure

A failed read of a legacy store was handled like a missing store, and a
failed flush left the legacy store in place until the process ended.
---
 .../mapper/gitmapper/objectreference.py              | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/objectreference.py b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
index 29cea21..55b7499 100644
--- a/dataladmetadatamodel/mapper/gitmapper/objectreference.py
+++ b/dataladmetadatamodel/mapper/gitmapper/objectreference.py
@@ -56,7 +56,10 @@ def add_legacy_store_entries_from(realm: Path,
                                   reference: GitReference,
                                   entry_type: EntryType):
 
-    from .gitbackend.subprocess import git_ls_tree
+    from .gitbackend.subprocess import (
+        git_ls_tree,
+        git_reference_exists,
+    )
 
     try:
         legacy_entries = (
@@ -70,6 +73,8 @@ def add_legacy_store_entries_from(realm: Path,
             add_object_reference(entry_type, entry[2], realm)
         return True
     except RuntimeError:
+        if git_reference_exists(str(realm), reference.value):
+            raise
         return False
 
 
@@ -78,8 +83,6 @@ def add_legacy_store_entries(realm: Path) -> Tuple[bool, bool]:
     Add legacy store entries to the cache, if they exist
     """
     if realm not in checked_legacy_stores:
-        checked_legacy_stores.add(realm)
-
         legacy_trees_added = add_legacy_store_entries_from(
             realm,
             GitReference.LEGACY_TREES,
@@ -162,6 +165,9 @@ def flush_object_references(realm: Path):
     if legacy_blobs_added is True:
         remove_legacy_store_reference(realm, GitReference.LEGACY_BLOBS)
 
+    # Only now all legacy entries are converted
+    checked_legacy_stores.add(realm)
+
 
 def add_tree_reference(object_hash: str,
                        realm: Union[None, str, Path] = None):
-- 
2.43.0


From 181321fb21d92cbacced75112416c71d9ed93e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 23/35] fix: distinguish missing from unreadable top-level
 metadata objects

If one of the top-level objects did not exist, or if reading one failed, both
were considered as missing, and replaced by empty objects in case of automatic
creation.
---
 dataladmetadatamodel/common.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index fa370f9..71bded5 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -39,6 +39,26 @@ def _get_uuid_set_reference(
         location)
 
 
+def _read_in_if_existing(
+        top_level_object: Union[TreeVersionList, UUIDSet]
+        ) -> Union[None, TreeVersionList, UUIDSet]:
+    """
+    Read in the object. Returns None, if it does not exist. Raises
+    RuntimeError, if an existing local object cannot be read.
+    """
+    from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
+        git_reference_exists)
+
+    try:
+        return top_level_object.read_in()
+    except RuntimeError:
+        if Reference.is_local(top_level_object.realm) and git_reference_exists(
+                top_level_object.realm,
+                top_level_object.reference.location):
+            raise
+        return None
+
+
 def get_top_level_metadata_objects(
         mapper_family: str,
         realm: Union[str, Path]
@@ -69,10 +89,9 @@ def get_top_level_metadata_objects(
             realm,
             get_uuid_set_location(mapper_family)))
 
-    try:
-        return tree_version_list.read_in(), uuid_set.read_in()
-    except RuntimeError:
-        return None, None
+    return (
+        _read_in_if_existing(tree_version_list),
+        _read_in_if_existing(uuid_set))
 
 
 def get_top_nodes_and_metadata_root_record(
-- 
2.43.0


From 16110e525e707500386be63bc531bbd731f273f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 24/35] fix: handle failures while saving a file tree

After a failure the realm remained in caching mode and all following attempts
to save a file tree failed, and metadata objects were considered saved
although their content was never written.
---
 .../mapper/gitmapper/gitblobcache.py          |  3 +++
 .../mapper/gitmapper/metadatamapper.py        | 22 ++++++++++++++++++-
 dataladmetadatamodel/mtreeproxy.py            | 17 +++++++++-----
 3 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
index a0fa835..49cef93 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
@@ -55,6 +55,9 @@ class GitBlobCache:
         self.cached_objects.append((blob, expected_hash))
         return expected_hash
 
+    def discard(self):
+        self.cached_objects = []
+
     def flush(self):
         """
         Write all cached objects to a git repository,
diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
index 3200656..70346f9 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
@@ -1,4 +1,7 @@
-from typing import Dict
+from typing import (
+    Dict,
+    List,
+)
 
 from dataladmetadatamodel.mapper.gitmapper.objectreference import add_blob_reference
 from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
@@ -15,6 +18,9 @@ class MetadataGitMapper(Mapper):
 
     metadata_caches: Dict[str, GitBlobCache] = dict()
 
+    # Metadata objects that were saved in a cache
+    cached_metadata: Dict[str, List["Metadata"]] = dict()
+
     @classmethod
     def get_cache(cls, realm: str):
         return cls.metadata_caches.get(realm, None)
@@ -24,6 +30,7 @@ class MetadataGitMapper(Mapper):
         if cls.get_cache(realm) is not None:
             raise RuntimeError(f"already caching realm: {realm}")
         cls.metadata_caches[realm] = GitBlobCache(realm)
+        cls.cached_metadata[realm] = []
 
     @classmethod
     def flush_realm(cls, realm: str):
@@ -32,6 +39,17 @@ class MetadataGitMapper(Mapper):
             raise RuntimeError(f"realm is not cached: {realm}")
         cache.flush()
         del cls.metadata_caches[realm]
+        del cls.cached_metadata[realm]
+
+    @classmethod
+    def discard_realm(cls, realm: str):
+        """
+        Stop caching after an error. Metadata objects
+        that might not be stored are marked as unsaved.
+        """
+        cls.metadata_caches.pop(realm).discard()
+        for metadata in cls.cached_metadata.pop(realm):
+            metadata.set_unsaved()
 
     def map_in_impl(self,
                     metadata: "Metadata",
@@ -102,6 +120,8 @@ class MetadataGitMapper(Mapper):
                             metadata: "Metadata",
                             realm: str) -> Reference:
 
+        self.cached_metadata[realm].append(metadata)
+
         # Cache metadata, and cache a reference object. the
         # following code is "cache"-equivalent to the immediate case
         metadata_blob_location = cache.cache_blob(realm, metadata.to_json())
diff --git a/dataladmetadatamodel/mtreeproxy.py b/dataladmetadatamodel/mtreeproxy.py
index ba319c3..f9b19bc 100644
--- a/dataladmetadatamodel/mtreeproxy.py
+++ b/dataladmetadatamodel/mtreeproxy.py
@@ -77,12 +77,17 @@ class MTreeProxy:
         if isinstance(self, FileTree):
             MetadataGitMapper.cache_realm(cache_destination)
 
-        reference = self.mtree.write_out(destination,
-                                         backend_type,
-                                         force_write)
-
-        if isinstance(self, FileTree):
-            MetadataGitMapper.flush_realm(cache_destination)
+        try:
+            reference = self.mtree.write_out(destination,
+                                             backend_type,
+                                             force_write)
+
+            if isinstance(self, FileTree):
+                MetadataGitMapper.flush_realm(cache_destination)
+        except BaseException:
+            if isinstance(self, FileTree):
+                MetadataGitMapper.discard_realm(cache_destination)
+            raise
 
         if not reference.is_none_reference():
             add_tree_reference(reference.location, cache_destination)
-- 
2.43.0


From 49cdfe455919af1cabcd00fbbd23305f2e61400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 25/35] fix: use a single lock for all path spellings of a
 realm

---
 dataladmetadatamodel/mapper/gitmapper/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/utils.py b/dataladmetadatamodel/mapper/gitmapper/utils.py
index 1afff10..f6d8326 100644
--- a/dataladmetadatamodel/mapper/gitmapper/utils.py
+++ b/dataladmetadatamodel/mapper/gitmapper/utils.py
@@ -75,7 +75,10 @@ def unlock_backend(realm: Path):
 
 
 def get_lock_dir(realm: Path, create_directory: bool = True) -> Path:
-    lock_dir = realm / ".git"
+    # All spellings of the path of a realm have to use the same lock, because
+    # POSIX file locks are released, if any file descriptor of the lock file
+    # is closed.
+    lock_dir = (realm / ".git").resolve()
     if not lock_dir.exists() and create_directory:
         # if exist_ok is False, we might get an error if
         # a concurrent mapper tries to lock the same
-- 
2.43.0


From 207dbf29879fd6fdb1bac10beded7b23a34d3f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 26/35] fix: support special characters in the paths of
 metadata sources

Paths were not quoted in the shell commands that copy git objects. Copying a
missing object wrote an empty object to the destination.
---
 dataladmetadatamodel/metadatasource.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/dataladmetadatamodel/metadatasource.py b/dataladmetadatamodel/metadatasource.py
index 572b2c7..69ad052 100644
--- a/dataladmetadatamodel/metadatasource.py
+++ b/dataladmetadatamodel/metadatasource.py
@@ -94,9 +94,10 @@ class LocalGitMetadataSource(MetadataSource):
             and self.object_reference == other.object_reference)
 
     def write_object_to(self, file_descriptor: IO):
-        command = f"git --git-dir {self.git_repository_path / '.git'} " \
-                  f"cat-file blob {self.object_reference}"
-        result = subprocess.run(command, stdout=file_descriptor, shell=True)
+        command = [
+            "git", "--git-dir", str(self.git_repository_path / ".git"),
+            "cat-file", "blob", self.object_reference]
+        result = subprocess.run(command, stdout=file_descriptor)
         if result.returncode != 0:
             raise RuntimeError(
                 f"subprocess returned {result.returncode}, "
@@ -108,13 +109,15 @@ class LocalGitMetadataSource(MetadataSource):
         instance into the git repository given by
         destination_repository.
         """
-        command = f"git --git-dir {self.git_repository_path / '.git'} " \
-                  f"cat-file blob {self.object_reference}|" \
-                  f"git --git-dir {destination_repository / '.git'} " \
-                  f"hash-object -w --stdin"
+        content = subprocess.check_output([
+            "git", "--git-dir", str(self.git_repository_path / ".git"),
+            "cat-file", "blob", self.object_reference])
         copied_object_reference = subprocess.check_output(
-            command,
-            shell=True).decode().strip()
+            [
+                "git", "--git-dir", str(destination_repository / ".git"),
+                "hash-object", "-w", "--stdin"
+            ],
+            input=content).decode().strip()
         assert copied_object_reference == self.object_reference
         return copied_object_reference
 
-- 
2.43.0


From 5629c10c1636b000dce6a4305ef50ab51db37c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 27/35] fix: support byte strings in the git blob cache

---
 dataladmetadatamodel/mapper/gitmapper/gitblobcache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
index 49cef93..5374162 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitblobcache.py
@@ -76,8 +76,8 @@ class GitBlobCache:
         file_list = []
         for index, (blob, expected_hash) in enumerate(self.cached_objects):
             temp_file_path = self.temp_dir_path / str(index)
-            with temp_file_path.open("tw") as f:
-                f.write(blob)
+            temp_file_path.write_bytes(
+                blob.encode() if isinstance(blob, str) else blob)
             file_list.append(str(temp_file_path))
 
         hash_values = git_save_file_list(self.realm, file_list)
-- 
2.43.0


From 54ca0699f52b647260d2c69505cc3f70dbbe04b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 28/35] fix: looking up a record without auto_create does not
 add index entries

---
 dataladmetadatamodel/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index 71bded5..d26a7f2 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -236,7 +236,7 @@ def get_metadata_root_record_from_top_nodes(
         else:
             root_mrr = dataset_tree.get_metadata_root_record(MetadataPath(""))
 
-        if (root_dataset_version, prefix_path) not in root_uuid_version_list.versions_and_prefix_paths():
+        if auto_create and (root_dataset_version, prefix_path) not in root_uuid_version_list.versions_and_prefix_paths():
             root_uuid_version_list.set_versioned_element(
                 primary_data_version=root_dataset_version,
                 time_stamp=str(time.time()),
@@ -282,7 +282,7 @@ def get_metadata_root_record_from_top_nodes(
         metadata_root_record = dataset_tree.get_metadata_root_record(
             dataset_tree_path)
 
-    if (primary_data_version, prefix_path) not in uuid_version_list.versions_and_prefix_paths():
+    if auto_create and (primary_data_version, prefix_path) not in uuid_version_list.versions_and_prefix_paths():
         uuid_version_list.set_versioned_element(
             primary_data_version=primary_data_version,
             time_stamp=str(time.time()),
-- 
2.43.0


From 45ef0c1d4fefabb2f1ebd671a4f798e5cbab0192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 29/35] fix: reference metadata blobs of file trees only when
 they are stored

If saving a file tree failed, the references to metadata blobs that were still
in the write cache remained, and the next flush of the object references
published references to objects that do not exist.
---
 .../mapper/gitmapper/metadatamapper.py            | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
index 70346f9..65b7d64 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatamapper.py
@@ -1,6 +1,7 @@
 from typing import (
     Dict,
     List,
+    Tuple,
 )
 
 from dataladmetadatamodel.mapper.gitmapper.objectreference import add_blob_reference
@@ -18,8 +19,9 @@ class MetadataGitMapper(Mapper):
 
     metadata_caches: Dict[str, GitBlobCache] = dict()
 
-    # Metadata objects that were saved in a cache
-    cached_metadata: Dict[str, List["Metadata"]] = dict()
+    # Metadata objects that were saved in a cache, and
+    # the location of their content
+    cached_metadata: Dict[str, List[Tuple["Metadata", str]]] = dict()
 
     @classmethod
     def get_cache(cls, realm: str):
@@ -38,6 +40,9 @@ class MetadataGitMapper(Mapper):
         if cache is None:
             raise RuntimeError(f"realm is not cached: {realm}")
         cache.flush()
+        # Only now the blobs are known to be stored
+        for _, metadata_blob_location in cls.cached_metadata[realm]:
+            add_blob_reference(metadata_blob_location, realm)
         del cls.metadata_caches[realm]
         del cls.cached_metadata[realm]
 
@@ -48,7 +53,7 @@ class MetadataGitMapper(Mapper):
         that might not be stored are marked as unsaved.
         """
         cls.metadata_caches.pop(realm).discard()
-        for metadata in cls.cached_metadata.pop(realm):
+        for metadata, _ in cls.cached_metadata.pop(realm):
             metadata.set_unsaved()
 
     def map_in_impl(self,
@@ -120,12 +125,10 @@ class MetadataGitMapper(Mapper):
                             metadata: "Metadata",
                             realm: str) -> Reference:
 
-        self.cached_metadata[realm].append(metadata)
-
         # Cache metadata, and cache a reference object. the
         # following code is "cache"-equivalent to the immediate case
         metadata_blob_location = cache.cache_blob(realm, metadata.to_json())
-        add_blob_reference(metadata_blob_location, realm)
+        self.cached_metadata[realm].append((metadata, metadata_blob_location))
 
         metadata_reference_blob_location = cache.cache_blob(
             realm,
-- 
2.43.0


From 5f8d39649ae429c8301006f1153b08e0ef7c9ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 30/35] fix: load top-level objects that are created while they
 are looked up

A top-level object, that was created by another process between the failing
attempt to read it and the check for its existence, was reported as unreadable.
---
 dataladmetadatamodel/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index d26a7f2..28cdb32 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -55,7 +55,8 @@ def _read_in_if_existing(
         if Reference.is_local(top_level_object.realm) and git_reference_exists(
                 top_level_object.realm,
                 top_level_object.reference.location):
-            raise
+            # It might have been created after the first attempt
+            return top_level_object.read_in()
         return None
 
 
-- 
2.43.0


From af01f6e920f8dcba5aa936a0c8d0d27543862a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 31/35] fix: distinguish missing from unreadable remote
 metadata

If a remote repository could not be accessed, its top-level metadata objects were
considered as missing.
---
 dataladmetadatamodel/common.py                             | 4 ++--
 .../mapper/gitmapper/gitbackend/subprocess.py              | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/dataladmetadatamodel/common.py b/dataladmetadatamodel/common.py
index 28cdb32..b03d9bd 100644
--- a/dataladmetadatamodel/common.py
+++ b/dataladmetadatamodel/common.py
@@ -44,7 +44,7 @@ def _read_in_if_existing(
         ) -> Union[None, TreeVersionList, UUIDSet]:
     """
     Read in the object. Returns None, if it does not exist. Raises
-    RuntimeError, if an existing local object cannot be read.
+    RuntimeError, if an existing object cannot be read.
     """
     from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import (
         git_reference_exists)
@@ -52,7 +52,7 @@ def _read_in_if_existing(
     try:
         return top_level_object.read_in()
     except RuntimeError:
-        if Reference.is_local(top_level_object.realm) and git_reference_exists(
+        if git_reference_exists(
                 top_level_object.realm,
                 top_level_object.reference.location):
             # It might have been created after the first attempt
diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index ca1c92c..a58fde0 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -127,6 +127,13 @@ def git_reference_exists(repo_dir: str,
 
     Raises RuntimeError, if existence can not be determined.
     """
+    if Reference.is_remote(repo_dir):
+        result = execute(
+            ["git", "-P", "ls-remote", "--exit-code", repo_dir, reference])
+        if result.returncode not in (0, 2):
+            raise RuntimeError(f"cannot read references of {repo_dir}")
+        return result.returncode == 0
+
     cmd_line = git_command_line(
         repo_dir,
         "show-ref",
-- 
2.43.0


From 5d1d7a66ded45cc32eaee9fa8cdc7d40803983cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 32/35] fix: reading fails if a file is named like the
 reference or object

'git show <name>' refuses names that are also names of files in the
current directory, and reads paths of files if the object does not
exist.
---
 dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
index a58fde0..eedef0e 100644
--- a/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
+++ b/dataladmetadatamodel/mapper/gitmapper/gitbackend/subprocess.py
@@ -99,7 +99,7 @@ def adapt_for_remote(repo_dir: str, object_reference: str) -> str:
 
 def git_load_str(repo_dir: str, object_reference: str) -> str:
     repo_dir = adapt_for_remote(repo_dir, object_reference)
-    cmd_line = git_command_line(repo_dir, "show", [object_reference])
+    cmd_line = git_command_line(repo_dir, "show", [object_reference, "--"])
     return git_text_result(cmd_line)
 
 
-- 
2.43.0


From ab172514c6a9c7b1bf69abd51de154388c77c07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:26 +0000
Subject: [PATCH 33/35] fix: elements that are looked up or modified while a
 tree is listed got lost or ended the listing with an error

---
 dataladmetadatamodel/mtreenode.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/dataladmetadatamodel/mtreenode.py b/dataladmetadatamodel/mtreenode.py
index 6c83f9f..7a417ce 100644
--- a/dataladmetadatamodel/mtreenode.py
+++ b/dataladmetadatamodel/mtreenode.py
@@ -7,10 +7,7 @@ from typing import (
     Union,
 )
 
-from dataladmetadatamodel.mappableobject import (
-    MappableObject,
-    ensure_mapped,
-)
+from dataladmetadatamodel.mappableobject import MappableObject
 from dataladmetadatamodel.metadatapath import MetadataPath
 from dataladmetadatamodel.mapper.reference import Reference
 
@@ -27,6 +24,8 @@ class MTreeNode(MappableObject):
         self.leaf_class = leaf_class
         self.leaf_class_name = leaf_class.__name__
         self.child_nodes = dict()
+        # True, if the node was only mapped to list its children
+        self.mapped_for_listing = False
 
     def __contains__(self, path: MetadataPath) -> bool:
         return self.get_child(path) is not None
@@ -70,6 +69,8 @@ class MTreeNode(MappableObject):
                   ) -> Optional[MappableObject]:
 
         self.ensure_mapped()
+        # The caller might modify the child, so the node has to stay mapped
+        self.mapped_for_listing = False
         return self.child_nodes.get(str(child_name), None)
 
     def add_child(self, node_name: str, child: MappableObject):
@@ -99,6 +100,7 @@ class MTreeNode(MappableObject):
                 + ", ".join(duplicated_names))
 
         self.touch()
+        self.mapped_for_listing = False
         self.child_nodes = {
             **self.child_nodes,
             **dict(children)
@@ -177,7 +179,9 @@ class MTreeNode(MappableObject):
         if show_intermediate:
             yield MetadataPath(""), self
 
-        with ensure_mapped(self):
+        if self.ensure_mapped():
+            self.mapped_for_listing = True
+        try:
             for child_name, child_node in self.child_nodes.items():
                 if not isinstance(child_node, MTreeNode):
                     yield MetadataPath(child_name), child_node
@@ -185,6 +189,12 @@ class MTreeNode(MappableObject):
                     for sub_path, tree_node in child_node.get_paths_recursive(
                             show_intermediate):
                         yield MetadataPath(child_name) / sub_path, tree_node
+        finally:
+            # Do not purge the node, if the caller modified elements of it, or
+            # looked up elements in it, while the children were listed.
+            if self.mapped_for_listing and self.is_saved_on(self.realm):
+                self.mapped_for_listing = False
+                self.purge()
 
     @staticmethod
     def is_root_path(path: MetadataPath) -> bool:
-- 
2.43.0


From 47bc521aa5f1fec3ec18cdcc09de662bda535868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:36 +0000
Subject: [PATCH 34/35] fix: write buffered content before git writes to the
 same file

LocalGitMetadataSource.write_object_to() lets git write to the
underlying file. Content that was written to the file object before,
but was still buffered, ended up behind the object.
---
 dataladmetadatamodel/metadatasource.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataladmetadatamodel/metadatasource.py b/dataladmetadatamodel/metadatasource.py
index 69ad052..bbbe72c 100644
--- a/dataladmetadatamodel/metadatasource.py
+++ b/dataladmetadatamodel/metadatasource.py
@@ -97,6 +97,10 @@ class LocalGitMetadataSource(MetadataSource):
         command = [
             "git", "--git-dir", str(self.git_repository_path / ".git"),
             "cat-file", "blob", self.object_reference]
+        # Git writes to the underlying file, buffered content of
+        # the caller has to be written before.
+        if hasattr(file_descriptor, "flush"):
+            file_descriptor.flush()
         result = subprocess.run(command, stdout=file_descriptor)
         if result.returncode != 0:
             raise RuntimeError(
-- 
2.43.0


From fc284fd90922f8a6ed51d77d67abfa55f180ffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:36 +0000
Subject: [PATCH 35/35] fix: load root records without dataset identifier or
 version

The values None were saved as the string 'None'. A record without
identifier could not be loaded, and the version was read as 'None'.
---
 .../mapper/gitmapper/metadatarootrecordmapper.py      | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
index 7ab827e..1d24e61 100644
--- a/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
+++ b/dataladmetadatamodel/mapper/gitmapper/metadatarootrecordmapper.py
@@ -50,9 +50,11 @@ class MetadataRootRecordGitMapper(Mapper):
         else:
             file_tree = FileTree(realm=realm, reference=file_tree_reference)
 
+        dataset_identifier = json_object[Strings.DATASET_IDENTIFIER]
+
         MetadataRootRecord.__init__(
             metadata_root_record,
-            UUID(json_object[Strings.DATASET_IDENTIFIER]),
+            None if dataset_identifier is None else UUID(dataset_identifier),
             json_object[Strings.DATASET_VERSION],
             metadata,
             file_tree,
@@ -90,8 +92,11 @@ class MetadataRootRecordGitMapper(Mapper):
                 realm)
 
         json_object = {
-            Strings.DATASET_IDENTIFIER: str(mrr.dataset_identifier),
-            Strings.DATASET_VERSION: str(mrr.dataset_version),
+            Strings.DATASET_IDENTIFIER: (
+                None
+                if mrr.dataset_identifier is None
+                else str(mrr.dataset_identifier)),
+            Strings.DATASET_VERSION: mrr.dataset_version,
             Strings.DATASET_LEVEL_METADATA: dataset_level_metadata_reference.to_json_obj(),
             Strings.FILE_TREE: file_tree_reference.to_json_obj()}
 
-- 
2.43.0

