import importlib.machinery
import os
import sys

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))


class SourceLoader(importlib.machinery.SourceFileLoader):
    """Always compiles the current source: byte code written earlier must not
    stand in for it."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


def hook(path):
    real = os.path.realpath(path)
    if real != REPO and not real.startswith(REPO + os.sep):
        raise ImportError
    return importlib.machinery.FileFinder(path, (SourceLoader, ['.py']))


sys.path_hooks.insert(0, hook)
sys.path_importer_cache.clear()
sys.path.insert(0, os.getcwd())

from mon.core import main  # noqa: E402
main(sys.argv[1:])
