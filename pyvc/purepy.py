"""Load modules that /repo compiles with Cython in pure Python mode from their current .py source.

A check must see the source of the working tree, not the extension built from an earlier one."""
import importlib.machinery, importlib.util, os, sys

REPO_SRC = os.environ.get('VERIF_REPO_SRC', '/repo/src')
PURE = {'s3ql._linked_dict': 's3ql/_linked_dict.py'}


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        rel = PURE.get(name)
        if rel is None:
            return None
        fn = os.path.join(REPO_SRC, rel)
        if not os.path.exists(fn):
            return None
        return importlib.util.spec_from_file_location(name, fn)


def install():
    if not any(f is Finder for f in sys.meta_path):
        sys.meta_path.insert(0, Finder)


install()
