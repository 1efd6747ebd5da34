"""Stand-in for the part of OpenCV's Python bindings that reads files (the bindings are not installed):
cv2.FileStorage over the YAML that OpenCV writes, with the FileNode methods of the bindings."""
import re
import yaml

FILE_STORAGE_READ = 0


class _Loader(yaml.SafeLoader):
    pass


def _plain(loader, suffix, node):
    if isinstance(node, yaml.MappingNode):
        return loader.construct_mapping(node, deep=True)
    if isinstance(node, yaml.SequenceNode):
        return loader.construct_sequence(node, deep=True)
    return loader.construct_scalar(node)


_Loader.add_multi_constructor('', _plain)


class FileNode:
    def __init__(self, v=None, name=''):
        self._v, self._n = v, name

    def name(self):
        return self._n

    def empty(self):
        return self._v is None

    isNone = empty

    def isMap(self):
        return isinstance(self._v, dict)

    def isSeq(self):
        return isinstance(self._v, list)

    def isInt(self):
        return isinstance(self._v, int) and not isinstance(self._v, bool)

    def isReal(self):
        return isinstance(self._v, float)

    def isString(self):
        return isinstance(self._v, str)

    def keys(self):
        return list(self._v)

    def size(self):
        return len(self._v) if isinstance(self._v, (dict, list)) else 0 if self._v is None else 1

    def getNode(self, k):
        return FileNode(self._v.get(k), k) if isinstance(self._v, dict) else FileNode()

    def at(self, i):
        if not 0 <= i < self.size():
            raise IndexError(i)
        return FileNode(self._v[i] if isinstance(self._v, list) else list(self._v.values())[i])

    def real(self):
        return float(self._v) if isinstance(self._v, (int, float)) else 0.0

    def string(self):
        return self._v if isinstance(self._v, str) else ''


class FileStorage:
    def __init__(self, name, mode):
        with open(name) as f:
            t = f.read()
        t = re.sub(r'^%YAML:1\.0\s*\n', '', t)
        t = re.sub(r'(?m)(?<=[{,\s])(\w+):(?=[^\s])', r'\1: ', t)   # OpenCV writes no blank after a colon in flow style
        self._d = yaml.load(t, Loader=_Loader) or {}

    def isOpened(self):
        return True

    def getFirstTopLevelNode(self):
        return FileNode(self._d[next(iter(self._d))], next(iter(self._d))) if self._d else FileNode()

    def getNode(self, k):
        return FileNode(self._d.get(k), k)

    def root(self):
        return FileNode(self._d)

    def release(self):
        pass
