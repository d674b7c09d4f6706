"""Never let a cached bytecode file stand in for the current source of the package under test."""
import importlib.machinery as _m
import os as _os

_root = _os.path.realpath(_os.environ.get("MC_REPO", "/repo")) + "/"
_orig = _m.SourceFileLoader.path_stats


def _path_stats(self, path):
    if _os.path.realpath(path).startswith(_root):
        raise OSError("source only")
    return _orig(self, path)


_m.SourceFileLoader.path_stats = _path_stats
