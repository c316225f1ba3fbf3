"""
Capture and restore of the mutable process state of dataladmetadatamodel.

A "fresh process" of the modelled machine is obtained by restoring the state
that the package had after import.  Covered: module globals, class attributes,
mutable default arguments, attributes of instances of package classes that are
reachable from those (e.g. the registered mappers), and functools caches.
"""
import copy
import functools
import pkgutil
import importlib
import sys
import types

PACKAGE = "dataladmetadatamodel"
ATOMIC = (type(None), bool, int, float, complex, str, bytes, type, types.FunctionType,
          types.BuiltinFunctionType, types.ModuleType, types.MethodType)
CONTAINERS = (dict, list, set, bytearray)


def import_all():
    import dataladmetadatamodel
    for info in pkgutil.walk_packages(dataladmetadatamodel.__path__, PACKAGE + "."):
        if ".tests" in info.name:
            continue
        importlib.import_module(info.name)


def _is_package_instance(value):
    module = getattr(type(value), "__module__", "") or ""
    return module.split(".")[0] == PACKAGE


class PackageState:
    def __init__(self):
        import_all()
        self.owners = []        # (namespace getter, setter, names)
        self.caches = []
        seen = set()
        modules = [m for n, m in sorted(sys.modules.items())
                   if (n == PACKAGE or n.startswith(PACKAGE + ".")) and ".tests" not in n]
        classes = []
        functions = []
        for module in modules:
            for value in list(vars(module).values()):
                if isinstance(value, type) and value.__module__ == module.__name__ \
                        and id(value) not in seen:
                    seen.add(id(value))
                    classes.append(value)
                self._collect_function(value, functions)
        for cls in classes:
            for value in list(vars(cls).values()):
                if isinstance(value, (staticmethod, classmethod)):
                    value = value.__func__
                if isinstance(value, property):
                    for f in (value.fget, value.fset):
                        self._collect_function(f, functions)
                self._collect_function(value, functions)
        self.spaces = modules + classes
        self.functions = functions
        self.baseline = {}      # (space index, name) -> (object, deep copy or None)
        self.names = []
        for index, space in enumerate(self.spaces):
            names = set()
            for name, value in list(vars(space).items()):
                if name.startswith("__") or name in ("_abc_impl",):
                    continue
                names.add(name)
                if self._stateful(value):
                    self.baseline[index, name] = (value, _Frozen(value))
                else:
                    self.baseline[index, name] = (value, None)
            self.names.append(names)
        self.key_counts = [len(vars(space)) for space in self.spaces]
        self.defaults = []
        for function in functions:
            for value in (function.__defaults__ or ()) + tuple(
                    (function.__kwdefaults__ or {}).values()):
                if isinstance(value, CONTAINERS):
                    self.defaults.append((value, copy.copy(value)))

    def relocate(self, old, new):
        """Paths below the directory `old` that were computed on import"""
        import pathlib
        for index, space in enumerate(self.spaces):
            for name in self.names[index]:
                value = vars(space).get(name)
                if isinstance(value, (str, pathlib.PurePath)) and \
                        (str(value) == old or str(value).startswith(old + "/")):
                    moved = type(value)(new + str(value)[len(old):])
                    setattr(space, name, moved)
                    self.baseline[index, name] = (moved, None)

    def _collect_function(self, value, functions):
        if hasattr(value, "cache_clear") and callable(getattr(value, "cache_clear")):
            if value not in self.caches:
                self.caches.append(value)
        if isinstance(value, types.FunctionType) and \
                (value.__module__ or "").split(".")[0] == PACKAGE:
            functions.append(value)

    @staticmethod
    def _stateful(value):
        return isinstance(value, CONTAINERS) or (
            _is_package_instance(value) and not isinstance(value, (type,))
            and hasattr(value, "__dict__") and not _is_enum(value))

    def reset(self):
        """Return to the state after import"""
        for index, space in enumerate(self.spaces):
            self._restore_space(index, space)
        for value, saved in self.defaults:
            _refill(value, saved)
        for cache in self.caches:
            cache.cache_clear()

    def _restore_space(self, index, space):
        names = self.names[index]
        current = vars(space)
        if len(current) != self.key_counts[index]:
            for name in list(current):
                if name.startswith("__") or name in names or name == "_abc_impl":
                    continue
                if isinstance(current[name], (types.ModuleType, type, types.FunctionType)):
                    continue
                delattr(space, name)
        for name in names:
            value, frozen = self.baseline[index, name]
            if frozen is not None:
                frozen.restore()
            if current.get(name, self) is not value:
                setattr(space, name, value)

    # -- capture for explicit-state exploration ----------------------------
    def capture(self):
        """Slots whose current value differs from the baseline.

        The values are returned as they are (aliased); the caller has to
        deep-copy them together with the model objects."""
        result = {}
        for index, space in enumerate(self.spaces):
            current = vars(space)
            for name in self.names[index]:
                value, frozen = self.baseline[index, name]
                now = current.get(name, self)
                if now is not value:
                    result[index, name] = ("rebound", now)
                elif frozen is not None and not frozen.unchanged():
                    result[index, name] = ("content", frozen.content())
            if len(current) != self.key_counts[index]:
                for name in list(current):
                    if name.startswith("__") or name in self.names[index] or name == "_abc_impl":
                        continue
                    if isinstance(current[name], (types.ModuleType, type, types.FunctionType)):
                        continue
                    result[index, name] = ("rebound", current[name])
        return result

    def restore(self, captured):
        self.reset()
        for (index, name), (kind, value) in captured.items():
            if kind == "rebound":
                setattr(self.spaces[index], name, value)
            else:
                target, frozen = self.baseline[index, name]
                _refill_any(target, value)


def _is_enum(value):
    import enum
    return isinstance(value, enum.Enum)


def _refill(container, content):
    if isinstance(container, dict):
        container.clear()
        container.update(content)
    elif isinstance(container, list):
        container[:] = content
    elif isinstance(container, set):
        container.clear()
        container.update(content)
    elif isinstance(container, bytearray):
        container[:] = content


def _refill_any(target, content):
    if isinstance(target, CONTAINERS):
        _refill(target, content)
    else:
        target.__dict__.clear()
        target.__dict__.update(content)


class _Frozen:
    """Remembers the nested content of a container or package instance"""

    def __init__(self, value, seen=None):
        self.value = value
        seen = seen or {}
        seen[id(value)] = self
        if isinstance(value, dict):
            self.shallow = dict(value)
            children = list(value.values())
        elif isinstance(value, (list, set, bytearray)):
            self.shallow = copy.copy(value)
            children = list(value) if not isinstance(value, bytearray) else []
        else:
            self.shallow = dict(value.__dict__)
            children = list(value.__dict__.values())
        self.children = []
        for child in children:
            if PackageState._stateful(child) and id(child) not in seen:
                self.children.append(_Frozen(child, seen))

    def restore(self):
        if not self._same():
            _refill_any(self.value, self.shallow)
        for child in self.children:
            child.restore()

    def _same(self):
        value = self.value
        current = value if isinstance(value, CONTAINERS) else value.__dict__
        if len(current) != len(self.shallow):
            return False
        if isinstance(current, dict):
            shallow = self.shallow
            for key, item in current.items():
                if key not in shallow or shallow[key] is not item:
                    return False
            return True
        if isinstance(current, (list,)):
            return all(a is b for a, b in zip(current, self.shallow))
        return current == self.shallow

    def unchanged(self):
        return self._same() and all(c.unchanged() for c in self.children)

    def content(self):
        return self.value if isinstance(self.value, CONTAINERS) else self.value.__dict__
