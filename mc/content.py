"""
Plain-data content of metadata models, read through the public API only.

None and "no entries" are the same content for file trees and dataset-level
metadata.
"""
from .world import setup
setup()

from uuid import UUID  # noqa: E402
from dataladmetadatamodel.common import (  # noqa: E402
    get_top_level_metadata_objects,
    get_top_nodes_and_metadata_root_record,
)
from dataladmetadatamodel.datasettree import DatasetTree  # noqa: E402
from dataladmetadatamodel.filetree import FileTree  # noqa: E402
from dataladmetadatamodel.metadata import (  # noqa: E402
    ExtractorConfiguration,
    Metadata,
)
from dataladmetadatamodel.metadatapath import MetadataPath  # noqa: E402
from dataladmetadatamodel.metadatarootrecord import MetadataRootRecord  # noqa: E402
from dataladmetadatamodel.mtreenode import MTreeNode  # noqa: E402
from dataladmetadatamodel.text import Text  # noqa: E402
from dataladmetadatamodel.uuidset import UUIDSet  # noqa: E402
from dataladmetadatamodel.versionlist import TreeVersionList, VersionList  # noqa: E402
from dataladmetadatamodel.mapper.reference import Reference  # noqa: E402
from dataladmetadatamodel.mapper.gitmapper.objectreference import (  # noqa: E402
    flush_object_references,
)
import json  # noqa: E402
from pathlib import Path  # noqa: E402


def freeze(value):
    """hashable form of a JSON value, distinguishes types"""
    return json.dumps(value, sort_keys=True)


def cfg_key(configuration):
    return (configuration.version, freeze(dict(configuration.parameter)))


def read_instance_set(instance_set):
    result = {}
    for configuration in instance_set.configurations:
        instance = instance_set.get_instance_for_configuration(configuration)
        key = cfg_key(configuration)
        assert key not in result, f"configuration listed twice: {key}"
        assert cfg_key(instance.configuration) == key, \
            f"instance of configuration {key} has configuration {cfg_key(instance.configuration)}"
        result[key] = (instance.time_stamp, instance.author_name,
                       instance.author_email, freeze(instance.metadata_content))
    assert len(list(instance_set)) == len(result), "instances without configuration"
    return result


def read_metadata(metadata):
    if metadata is None:
        return {}
    result = {}
    for name, instance_set in metadata.extractor_runs:
        assert name not in result
        result[name] = read_instance_set(instance_set)
        assert result[name] == read_instance_set(metadata.extractor_runs_for_extractor(name))
    assert sorted(metadata.extractors) == sorted(result)
    return result


def read_file_tree(file_tree):
    if file_tree is None:
        return {}
    result = {}
    for path, metadata in file_tree.get_paths_recursive():
        key = str(path)
        assert key not in result, f"path listed twice: {key}"
        assert type(metadata) is Metadata
        result[key] = read_metadata(metadata)
    for key in result:
        assert read_metadata(file_tree.get_metadata(MetadataPath(key))) == result[key], key
    return result


def read_mrr(mrr):
    mrr.ensure_mapped()
    return {
        "id": None if mrr.dataset_identifier is None else str(mrr.dataset_identifier),
        "version": mrr.dataset_version,
        "dlm": read_metadata(mrr.get_dataset_level_metadata()),
        "files": read_file_tree(mrr.file_tree),
    }


def read_tree(dataset_tree):
    result = {}
    for path, mrr in dataset_tree.dataset_paths:
        key = str(path)
        assert key not in result, f"dataset path listed twice: {key}"
        result[key] = read_mrr(mrr)
    for key in result:
        found = dataset_tree.get_metadata_root_record(MetadataPath(key))
        assert found is not None, f"listed dataset not found: {key}"
        assert read_mrr(found) == result[key]
        assert MetadataPath(key) in dataset_tree
    return result


def read_element(element):
    if isinstance(element, MetadataRootRecord):
        return ("mrr", read_mrr(element))
    assert isinstance(element, DatasetTree), element
    return ("tree", read_tree(element))


def read_version_list(version_list):
    result = {}
    listed = list(version_list.versions_and_prefix_paths())
    for version, prefix in listed:
        key = (version, str(prefix))
        assert key not in result, f"version listed twice: {key}"
        stamp, path, element = version_list.get_versioned_element(version, prefix)
        assert str(path) == str(prefix)
        result[key] = (stamp, read_element(element))
    assert len(version_list) == len(result)
    return result


def read_uuid_set(uuid_set):
    return {
        str(uuid): read_version_list(uuid_set.get_version_list(uuid))
        for uuid in list(uuid_set.uuids())}


def load(realm):
    return get_top_level_metadata_objects("git", realm)


def read_top(tvl, uuid_set):
    return {
        "tvl": None if tvl is None else read_version_list(tvl),
        "uuid": None if uuid_set is None else read_uuid_set(uuid_set)}


def read_realm(realm):
    """Content of a realm as seen by a process that has just been started."""
    tvl, uuid_set = load(realm)
    return read_top(tvl, uuid_set)


def diff(a, b, path=""):
    """short description of the first difference"""
    if type(a) is not type(b):
        return f"{path}: {a!r} != {b!r}"
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a:
                return f"{path}/{k}: missing in first, second has {b[k]!r}"
            if k not in b:
                return f"{path}/{k}: missing in second, first has {a[k]!r}"
            if a[k] != b[k]:
                return diff(a[k], b[k], f"{path}/{k}")
        return None
    if isinstance(a, (tuple, list)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f"{path}[{i}]")
        return None
    return None if a == b else f"{path}: {a!r} != {b!r}"
