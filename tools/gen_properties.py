"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
D = "dataladmetadatamodel/"
G = D + "mapper/gitmapper/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "A saved model reloads with identical content",
  "Any metadata object, file tree, dataset tree, root record, version list, tree version list or UUID set that was saved to a realm reads back, in a process that shares no memory with the writer, with the same content: the same paths, dataset identifiers and versions, time stamps, prefix paths, extractor runs and metadata values. A file tree or dataset tree without entries, and an absent file tree or absent dataset-level metadata, read back as empty or absent, and models containing them can be saved, released and saved again like any other. Saving the same content twice yields the same reference.",
  ["inputs"], "every model shape built from a small alphabet of tree shapes (up to 3 levels), optional parts (identifiers and versions included), versions, prefix paths, identifiers and metadata values, and every class that can be saved",
  "the existing tests save one or two hand-written models with non-empty parts through mocks; the combinations of empty, absent, shared and nested parts are never sampled",
  [D+"metadatarootrecord.py", D+"mtreenode.py", D+"mtreeproxy.py", D+"versionlist.py", D+"uuidset.py", G+"mtreenodemapper.py", G+"metadatarootrecordmapper.py", G+"versionlistmapper.py", G+"uuidsetmapper.py", G+"metadatamapper.py", G+"textmapper.py"],
  [("per-class git mappers", G+"*mapper.py map_in_impl/map_out_impl"), ("None references for empty trees", D+"mapper/reference.py get_none_reference")],
  ["public accessors of freshly loaded objects"])

p("C02", "No modification is lost over any session history",
  "Every modification made through objects reached by lookup from the loaded top-level objects is contained in the next successful save of the top-level objects, whatever mixture of partial saves of inner objects, releases from memory, lookups and earlier saves preceded it. A fresh process then reads exactly the content the modifications produced: nothing lost, resurrected, duplicated or attached to another dataset, version or path.",
  ["histories"], "all sequences, up to a bound, of modify / partial save / release / look up / full save / reload steps over a small model with a tree version list, a UUID set, root records, file trees and metadata, from empty and from stored initial states",
  "whether a change is lost depends on which inner objects were saved or released, and in which order, before the outer object is saved; the tests save each object once",
  [D+"mappableobject.py", D+"modifiableobject.py", D+"mtreeproxy.py", D+"filetree.py", D+"versionlist.py", D+"uuidset.py", D+"metadatarootrecord.py"],
  [("saved-on tracking", D+"modifiableobject.py is_saved_on"), ("write_out skip decision", D+"mappableobject.py write_out"), ("unget operations", D+"versionlist.py, uuidset.py, filetree.py")],
  ["content read by a fresh process after each save"], [dict(name="saved_on", meaning="destinations that hold the current content", where=D+"modifiableobject.py")])

p("C03", "Releasing an object from memory never discards unsaved data",
  "Releasing (purging) an object from memory either is refused with an error and changes nothing that can be read through the model, or leaves an object whose content, when next accessed, is exactly the content it had before. An object whose complete content is saved can always be released.",
  ["histories"], "all sequences, up to a bound, of modifications, saves of any subset of the object hierarchy, and releases at every level of the hierarchy",
  "the tests purge a single flat object before and after one save; a release of a container whose members are saved, unsaved, or saved with newer content than the container knows is not sampled",
  [D+"mappableobject.py", D+"modifiableobject.py", D+"mtreenode.py", D+"metadatarootrecord.py", D+"versionlist.py", D+"uuidset.py"],
  [("purge guard", D+"mappableobject.py purge"), ("recursive purge", D+"*.py purge_impl")], ["content seen through the public accessors before and after purge"])

p("C04", "Loading state is invisible to readers",
  "Every read operation on a model object (lookup, listing, counting, membership, comparison, conversion to JSON) returns the same result whether the object and the objects around it are already loaded, were released, or were never loaded. Read operations never change what is stored and never change what later operations return.",
  ["histories"], "all short sequences of read operations and releases, on every object of a stored model, starting from each combination of loaded and not loaded parts",
  "the tests read freshly built or freshly loaded objects only; results read from an object in another loading state are never compared",
  [D+"mappableobject.py", D+"metadata.py", D+"versionlist.py", D+"uuidset.py", D+"mtreenode.py", D+"datasettree.py", D+"filetree.py", D+"metadatarootrecord.py"],
  [("ensure_mapped on access", D+"mappableobject.py ensure_mapped")], ["return values of public accessors"])

p("C05", "Work is limited to the part of the model in focus",
  "Looking up the metadata at one path reads only stored objects that lie on the way from the top-level object to that path. Saving a model writes only objects that were changed and the objects that contain them; saving an unchanged, loaded or released model writes nothing new and moves no published reference.",
  ["histories", "inputs"], "every lookup path and every single- or two-step modification of a set of stored models, with the storage accesses of each step observed",
  "the result is the same when far too much is loaded or written, so result-based tests cannot see it; one test looks at one loaded flag",
  [D+"mappableobject.py", D+"mtreenode.py", G+"mtreenodemapper.py", G+"metadatarootrecordmapper.py", G+"versionlistmapper.py", G+"uuidsetmapper.py"],
  [("proxy pattern: unmapped children", G+"mtreenodemapper.py map_in_impl"), ("skip of saved objects", D+"mappableobject.py write_out")], ["storage commands issued by an operation"])

p("C06", "Trees behave like maps from paths to entries",
  "A file tree or dataset tree behaves, for every sequence of additions, lookups, membership tests, listings, subtree insertions and subtree deletions, like a map from paths to entries: a lookup returns the entry added at exactly that path or nothing, and listings contain each entry exactly once. An addition that would replace an existing entry or subtree, or would turn an entry into a directory, is refused with an error and leaves the tree unchanged; adding an extractor run at a path without metadata creates it.",
  ["histories"], "all operation sequences up to a bound over a set of colliding paths (equal, prefix of each other, siblings, empty), on fresh, stored and reloaded trees",
  "the tests add a fixed list of non-colliding paths once; collisions on partially loaded trees and refused operations in the middle of a history are not sampled",
  [D+"mtreenode.py", D+"mtreeproxy.py", D+"filetree.py", D+"datasettree.py"],
  [("add_child_at, remove_child_at, get_object_at_path", D+"mtreenode.py")], ["public tree API"])

p("C07", "Every path name survives storage unchanged",
  "Entries of file trees and dataset trees can be stored under any name that is a legal path component, including names with spaces, quotes, backslashes, tabs, line breaks, non-ASCII characters or leading special characters, and are listed and found under exactly that name after a reload. Different names never collide.",
  ["inputs", "configurations"], "every name up to a length bound over an alphabet of the characters that are special to the storage format, at leaf and directory level, alone and in pairs, under each relevant git configuration",
  "the tests use ten chosen names; the storage format quotes names depending on combinations of characters",
  [G+"mtreenodemapper.py", G+"gitbackend/subprocess.py", G+"utils.py"],
  [("name quoting", G+"mtreenodemapper.py escape_double_quotes"), ("name unquoting", G+"mtreenodemapper.py map_in_impl")], ["paths listed by a reloaded tree"])

p("C08", "Metadata holds the latest run per extractor and configuration",
  "For every sequence of recorded extractor runs, a metadata object holds exactly one run for each pair of extractor and configuration (extractor version and parameters), namely the last one recorded, under the configuration it was recorded with; recording a run never alters other runs. Conversion to JSON and back loses nothing, and two metadata objects compare equal exactly when they hold the same runs, without ever raising an error.",
  ["histories", "inputs"], "all sequences up to a bound of recorded runs over a small set of extractors, configurations (including nested, empty and reordered parameters) and contents, with JSON round trips in between",
  "tests record at most two runs; equality of sets with several configurations and updates after a round trip are not sampled",
  [D+"metadata.py"], [("instance keyed by configuration index", D+"metadata.py MetadataInstanceSet"), ("JSON conversion", D+"metadata.py to_json/from_json")], ["Metadata API"])

p("C09", "Saved and flushed metadata survives garbage collection",
  "Once a process has saved the top-level objects and flushed the object references of the realm, everything that can be read through them is protected from storage garbage collection: after collecting all unreachable objects, a fresh process still reads the identical content, with nothing missing. This holds after every history of saves in which every process flushed what it saved, and also for metadata that was saved earlier and is still part of the model.",
  ["histories"], "all histories up to a bound of modifications through the dataset-tree side and the UUID side, saves and flushes, each followed by removal of every object git cannot reach",
  "objects that are referenced only from JSON text look fine until git prunes them; no test runs a garbage collection",
  [G+"objectreference.py", G+"metadatarootrecordmapper.py", G+"metadatamapper.py", G+"versionlistmapper.py", G+"treeupdater.py", D+"mtreeproxy.py"],
  [("object reference collection and flush", G+"objectreference.py flush_object_references"), ("registration by the mappers", G+"*mapper.py add_*_reference")], ["content read after git gc"])

p("C10", "A crash never leaves a published reference to incomplete data",
  "If the saving process dies between any two storage operations, or in the middle of a batch of object writes, every published top-level object can still be read completely by a new process and shows either its previous or its newly saved content. Metadata that was saved and flushed before stays protected from garbage collection, and repeating the interrupted save succeeds and yields the intended content.",
  ["crash_points", "histories"], "every crash point (before and after each storage mutation, and inside each batch) of a set of save-and-flush histories starting from empty and populated realms",
  "the tests never interrupt a save; the number of crash points is large and each one must be recovered from",
  [G+"uuidsetmapper.py", G+"versionlistmapper.py", G+"gitblobcache.py", G+"objectreference.py", G+"metadatamapper.py", D+"mtreeproxy.py"],
  [("references updated last", G+"versionlistmapper.py, uuidsetmapper.py git_update_ref"), ("batch flush before root record is written", D+"mtreeproxy.py write_out")], ["content read by a new process after the crash"])

p("C11", "A failed storage command is reported and harms nothing",
  "If any single storage command fails, or the user interrupts it (KeyboardInterrupt), during loading, saving, copying or flushing, the operation either reports an error or has the same effect as without the failure; it never reports success with content missing. After a failure stored data that existed before is still readable and protected, the objects in memory keep their content, and repeating the operation without the failure succeeds and stores everything.",
  ["fault_sequences"], "every single storage-command failure (and every pair in the thorough tier) at every position of a set of load / modify / save / flush histories, followed by a retry in the same process",
  "the tests contain no failing storage command besides missing references",
  [G+"gitbackend/subprocess.py", D+"mtreeproxy.py", G+"metadatamapper.py", G+"gitblobcache.py", D+"mappableobject.py", G+"objectreference.py", D+"common.py"],
  [("return code check", G+"gitbackend/subprocess.py checked_execute"), ("state updated only after success", D+"mappableobject.py write_out")], ["exceptions, content after retry, content of a fresh process"])

p("C12", "Concurrent writers do not lose each other's metadata",
  "When several processes save to the same realm at the same time, the object references recorded by every process whose flush succeeded are all present afterwards, under every interleaving. Processes that perform load-modify-save-flush sessions while holding the backend lock end up with all modifications of all sessions stored.",
  ["schedules"], "every interleaving, up to a preemption bound, of the storage and lock operations of two or three processes",
  "no test starts a second process; the outcome depends on the schedule",
  [G+"objectreference.py", G+"utils.py", G+"treeupdater.py"],
  [("read-modify-write of the reference tree under the lock", G+"objectreference.py flush_object_references")], ["references and content after all processes finished"])

p("C13", "The backend lock is exclusive between processes and reentrant",
  "While one process holds the lock of a realm, no other process can obtain it, however deeply the holder nests lock and unlock calls, whichever errors are raised inside locked regions, wherever the user interrupts it (also while it waits for the lock), whichever spelling of the realm's path is used and whatever other realms it locks; once the outermost region is left the lock is free. Locks of different realms do not interfere, and waiting processes obtain the lock after it was released.",
  ["schedules", "histories"], "every interleaving of bounded nested lock / unlock / error programs of two or three processes over one or two realms and several path spellings",
  "the lock has no test at all; exclusion is a property of all schedules",
  [G+"utils.py"], [("counted inter-process file lock", G+"utils.py lock_backend/unlock_backend/locked_backend")], ["who is inside the locked region at each moment"],
  [dict(name="lock counter", meaning="nesting depth per realm", where=G+"utils.py LockState")])

p("C14", "Legacy reference stores are converted without loss",
  "When a realm still has the legacy object-reference stores, flushing moves every legacy tree and blob reference into the current store and removes a legacy store only when all its entries are recorded in the current one. At every crash point, failed command and interleaving of converting processes each legacy-referenced object stays reachable from a legacy or the current store, references already in the current store are kept, and a later flush completes the conversion.",
  ["crash_points", "fault_sequences", "schedules"], "every crash point, single command failure and interleaving of two processes for flushes over all combinations of empty, absent and populated legacy and current stores",
  "one test converts one legacy store in one process without interruption",
  [G+"objectreference.py"], [("add_legacy_store_entries, remove_legacy_store_reference", G+"objectreference.py")], ["objects reachable from refs/datalad/*"])

p("C15", "Realms and models are independent of each other",
  "Operations on one realm never change the content, the references or the protection from garbage collection of another realm, even if one process works on several realms in any interleaved order: each realm records exactly the references of the objects stored in it. An object saved to several realms is complete and readable in each realm it was successfully saved to, and is never considered saved in a realm that does not hold its current content.",
  ["histories"], "all interleaved histories up to a bound of modifications, saves, flushes and reloads over two realms in one process",
  "all tests use one realm per test; the process-wide caches and the per-destination saved state interact only with several realms",
  [G+"objectreference.py", D+"modifiableobject.py", D+"mappableobject.py", G+"metadatamapper.py"],
  [("per-destination saved state", D+"modifiableobject.py"), ("collected object references", G+"objectreference.py")], ["content and reachability per realm"])

p("C16", "Deep copies are complete and independent",
  "Deep-copying any model object to a destination realm yields an object with equal content (with prefix paths prepended by the requested path prefix for version lists) that is fully stored in the destination: it is readable there after the source realm is deleted, and as part of a published top-level object, once the destination is flushed, after garbage collection. The source object keeps its content, unsaved modifications and stored data, and later changes to either of them never show in the other.",
  ["inputs", "histories"], "every class and every small model shape, from every loading state of the source (in memory, saved, partly released), followed by modifications on either side",
  "the tests copy two fixed models and compare them while both realms exist",
  [D+"mappableobject.py", D+"metadata.py", D+"mtreenode.py", D+"mtreeproxy.py", D+"metadatarootrecord.py", D+"versionlist.py", D+"uuidset.py", D+"text.py"],
  [("deepcopy_impl per class", D+"*.py")], ["content of copy and source"])

p("C17", "Top-level lookup finds what exists and creates only what is missing",
  "Looking up the record of a dataset version returns the record stored for that dataset identifier, version, prefix path and dataset-tree path if it exists. With automatic creation, exactly the missing elements are created, in both the dataset-tree and the UUID index, with the requested identifiers, and nothing that exists is replaced or changed, also if only one of the two indices exists; without it nothing is created and missing elements yield no record.",
  ["histories", "inputs"], "all sequences up to a bound of lookups (with and without creation) over small sets of datasets, versions, prefix paths and sub-dataset paths, with saves and reloads in between",
  "the one test performs one creation on an empty realm and checks only types",
  [D+"common.py"], [("get_top_nodes_and_metadata_root_record", D+"common.py"), ("get_top_level_metadata_objects", D+"common.py")], ["returned records, content of both indices"])

p("C18", "Adding objects to a stored tree is an exact merge",
  "Adding a set of objects at given paths to a stored tree yields a stored tree that contains exactly the previous entries and the added ones, added entries replacing previous ones of the same kind at the same path, whatever prefixes the paths share with each other or with existing entries. Conflicts (the same path as entry and directory, duplicated paths, changing the kind of an existing entry) are refused with an error.",
  ["inputs"], "every small set of paths to add (up to 4 paths, 3 levels, 2 names per level, both kinds) against every small existing tree",
  "the tests use a handful of trees; the merge recursion has many shape-dependent branches",
  [G+"treeupdater.py"], [("add_paths", G+"treeupdater.py")], ["full listing of the resulting tree"])

p("C19", "Batched writing is equivalent to immediate writing",
  "Storing metadata through the batching write cache yields the same references and the same stored objects as storing each object immediately, for every number of objects relative to the batch size, including duplicates, empty and non-ASCII text, and byte strings. When a batch is flushed every reference handed out for the realm denotes a stored object with exactly the given content.",
  ["inputs", "histories"], "every sequence of cached objects and flushes over a small content alphabet for every small batch size, and whole file trees around the default batch size",
  "the tests never reach the batch size and store only small ASCII JSON",
  [G+"gitblobcache.py", G+"metadatamapper.py", D+"mtreeproxy.py"], [("GitBlobCache.cache_blob/flush", G+"gitblobcache.py")], ["objects stored in the realm"])

p("C20", "Remote realms are read faithfully and never written",
  "Reading from a remote realm returns exactly the content a local read of that realm would return at that moment: a top-level load always reflects the current remote references, also after the remote was changed or rewritten, and different remotes never mix. Saving to a remote realm is refused with an error, and no operation on a remote realm changes the remote.",
  ["histories", "configurations"], "all histories up to a bound of remote updates and reads over two remotes with colliding reference names, through a real git transport, for each recognised remote address form",
  "the tests of this part need the network and cannot run here; each reads one fixed remote once",
  [G+"localcache.py", G+"gitbackend/subprocess.py", D+"mapper/reference.py", D+"mappableobject.py"],
  [("local cache repository per remote", G+"localcache.py"), ("refusal to write", D+"mappableobject.py write_out")], ["content read, state of the remote"])

p("C21", "Foreign format versions are rejected, old class names accepted",
  "Loading an object from a stored form whose recorded format version is not the supported one fails with an error at every place where a version is recorded, and never yields an object. Stored references that use the former class names for file trees and dataset trees, or former additional fields, are read with the same content as current ones.",
  ["inputs"], "every place in the stored form of a complete model where a version or class name is recorded, times a set of replacement versions and former class names",
  "tests construct one faulty version for one class that is not part of the stored model",
  [D+"__init__.py", D+"mapper/reference.py", D+"metadata.py", D+"metadatasource.py", D+"mapper/mapper.py"],
  [("check_serialized_version", D+"__init__.py"), ("class name conversion", D+"mapper/mapper.py map_in")], ["exceptions and content on load"])

p("C22", "Metadata sources deliver and copy exactly their content",
  "A metadata source that refers to an object in a git repository writes exactly the bytes of this object and copies exactly this object into another repository, whatever the repository paths (including blanks, quotes and other shell-special characters) and content, and reports an error if the object does not exist; several sources, and other content, that are written to the same open file appear in the order in which they were written. Conversion of any metadata source to JSON and back yields an equal source, and malformed descriptions are rejected rather than misread.",
  ["inputs"], "every combination of a set of repository path names with special characters, object contents and missing objects; every sequence of up to three or four writes to one file; every single-field corruption of the JSON form",
  "the tests use one repository path made of letters and one ASCII content",
  [D+"metadatasource.py"], [("git cat-file | git hash-object pipelines", D+"metadatasource.py"), ("from_json_obj", D+"metadatasource.py")], ["bytes written, objects in the destination"])

p("C23", "Metadata paths are normalised relative paths",
  "Every metadata path is relative: leading slashes, empty and single-dot components never appear in it, an empty path is the identity of joining, joining is associative, and text and path convert into each other without loss. Two metadata paths are equal exactly when their component sequences are equal, independent of the spelling they were created from.",
  ["inputs"], "every string up to a length bound over an alphabet of separators, dots, blanks, backslashes and letters, and every pair and triple of a subset for joins",
  "tests check a dozen spellings; the class depends on the path implementation of the running Python version",
  [D+"metadatapath.py"], [("MetadataPath construction", D+"metadatapath.py")], ["parts, str, equality, hash, join"])

p("C24", "Readers are not disturbed by concurrent writers",
  "A process that loads metadata while other processes save to the same realm never fails, never waits for them, and finds each of the two top-level objects in a state that was published at some moment while it loaded; a later load never finds an older state than an earlier one. Everything it reads afterwards through the loaded objects (listing, looking up, releasing and re-reading parts, copying to another realm) is exactly the content of those states, whatever the writers do in the meantime and wherever they are killed.",
  ["schedules", "crash points"], "every interleaving of the storage operations of a reader (8 kinds) with saving processes, and a kill of a process at every point",
  "no test has a second process; lazily loaded objects are read long after the load, so the outcome depends on the schedule",
  [D+"common.py", D+"mappableobject.py", G+"versionlistmapper.py", G+"uuidsetmapper.py", G+"gitbackend/subprocess.py"],
  [("publication of the top-level objects after everything they refer to", G+"versionlistmapper.py TreeVersionListGitMapper.map_out_impl"), ("loading by immutable object names", D+"common.py get_top_level_metadata_objects")], ["content read by the reader, compared to an undisturbed reader of each published state"])

p("C25", "The place of a realm and the configuration of git do not matter",
  "Metadata that is saved, published, modified under the lock, collected by git gc, copied and read by separate processes is the same, byte for byte in the stored references, in every directory whatever its name, through every spelling of its path (absolute, relative, with redundant separators, through links, different spellings in save, flush, lock and read), in every state of the repository, from every current directory, and with every configuration of git and environment that a user may have. Reading changes no file of the realm, and no temporary file remains.",
  ["configurations", "inputs"], "all directory names of an alphabet of awkward names, all combinations of path spellings, all settings (thorough: all pairs) of git configuration and environment, all listed repository states",
  "tests run in one temporary directory with one configuration",
  [G+"gitbackend/subprocess.py", G+"utils.py", G+"objectreference.py", G+"gitblobcache.py"],
  [("git command lines", G+"gitbackend/subprocess.py"), ("realm paths", G+"objectreference.py _get_realm_path")], ["content and references, compared to those in a plain place; files in and around the realm"])

p("C26", "Listings can be consumed step by step while the model is used",
  "A listing of a model object (paths of file trees and dataset trees, versions and elements of version lists, identifiers of UUID sets, extractors and runs of metadata) can be consumed step by step, or be abandoned at any step, while other listings of the same object proceed and while elements are looked up, modified, added to trees, saved or released between the steps. It never fails, and delivers every element that existed all the time exactly once, with its content at that moment unless something was released or other listings proceeded meanwhile. No listing detaches an object that was looked up: its modifications, during and after the listing, are contained in the next save.",
  ["histories"], "every interleaving of the steps of up to two listings with the other operations, from every state of loading, up to a depth",
  "tests consume listings at once; a tree node that was loaded for the listing is released when the listing leaves it, whatever happened in between",
  [D+"mtreenode.py", D+"mtreeproxy.py", D+"versionlist.py", D+"uuidset.py", D+"metadata.py"],
  [("release of nodes after they were listed", D+"mtreenode.py get_paths_recursive")], ["delivered elements, content saved afterwards"])

p("C27", "Missing stored objects are reported and can be supplied later",
  "If stored objects of a realm are missing (an incomplete clone or transfer), every lookup, listing, top-level lookup, modification, save and copy that needs one of them reports an error; a missing object is never taken for an absent or empty element, for other content, or for a reason to create anything. Operations that do not concern a missing object work as in the complete realm, and preserve the references to it. Once the objects are supplied everything is there again: the same process can repeat a failed operation and gets the exact result, what was modified and saved meanwhile is combined with everything else, and everything is protected from garbage collection. A copy that is reported as successful is complete, and what a failed one published is readable.",
  ["fault_sequences", "inputs"], "every stored object, and every pair of objects of the model, missing during every listed operation, followed by its repetition with the objects supplied",
  "tests work on complete realms; a missing object at one particular place has to be told apart from an absent element",
  [D+"common.py", D+"mtreenode.py", D+"mtreeproxy.py", D+"mappableobject.py", G+"mtreenodemapper.py"],
  [("reading of trees", G+"mtreenodemapper.py"), ("top-level references", D+"common.py get_top_level_metadata_objects")], ["content in new processes", "reported errors"])

p("C28", "Version lists, UUID sets and root records behave like maps",
  "For every sequence of setting, replacing, looking up, listing, modifying and releasing elements, saving, releasing and reloading, a version list behaves like a map from pairs of version and prefix path to a time stamp and an element, a UUID set like a map from identifiers to version lists, and a root record like a pair of dataset-level metadata and file tree: a lookup returns exactly what was set last there, with its time stamp and prefix path; a lookup or release of something that is missing is refused and changes nothing; listings deliver each entry exactly once and the count is the number of entries. Setting an element never affects other entries, also if the same element is set at several places.",
  ["histories"], "all sequences of operations up to a depth, loaded or not",
  "tests set and look up single elements of lists that were never saved or released in between",
  [D+"versionlist.py", D+"uuidset.py", D+"metadatarootrecord.py", G+"versionlistmapper.py", G+"uuidsetmapper.py"],
  [("elements of version lists", D+"versionlist.py"), ("version lists of identifiers", D+"uuidset.py"), ("parts of records", D+"metadatarootrecord.py")], ["lookups, listings, counts, content after reload"])

p("C29", "Only the part of the metadata that is in use is held in memory",
  "Metadata of a realm may be larger than the memory. A lookup loads at most the elements on the way to what is looked up. While the paths of a tree are listed, at most the nodes on the way to the current entry are loaded in addition; after the listing, complete or abandoned at any entry, exactly those elements are loaded that were loaded before, or that the consumer looked up meanwhile. While anything is copied, at most the elements on the way to the current one are loaded, in the original and in the copy; afterwards exactly what was loaded before is loaded, and nothing of the copy. Saving loads nothing and releases nothing, enumerating versions, identifiers and datasets loads no elements. Giving an element back releases it with everything below, releasing an object releases everything below it, and no object below it is kept.",
  ["histories"], "all sequences of lookups, modifications, listings, copies, saves and releases up to a depth, from loaded and unloaded models",
  "tests look at results, not at what remains in memory on which way",
  [D+"mappableobject.py", D+"mtreenode.py", D+"versionlist.py", D+"uuidset.py", D+"metadatarootrecord.py"],
  [("release after copies", D+"mappableobject.py ensure_mapped"), ("release after listings", D+"mtreenode.py get_paths_recursive")], ["attribute mapped of the objects, number of objects"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
