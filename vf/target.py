"""Load the code under test from /repo's working tree, fresh for each case."""
import importlib.util
import importlib.abc
import importlib.machinery
import os
import sys

REPO = os.environ.get('VF_REPO', '/repo')
_codes = {}
_instrument = None


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        code = _codes.get(fullname)
        if code is None:
            path = self.get_filename(fullname)
            with open(path, 'rb') as f:
                src = f.read()
            code = compile(src, path, 'exec', dont_inherit=True)
            _codes[fullname] = code
            if _instrument is not None and not fullname.endswith('_version'):
                # function bodies only: the module body runs at import
                for c in code.co_consts:
                    if hasattr(c, 'co_code'):
                        _instrument(c)
        return code


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self):
        self.cache = {}

    def find_spec(self, fullname, path, target=None):
        if fullname != 'aiuti' and not fullname.startswith('aiuti.'):
            return None
        rel = os.path.join(REPO, *fullname.split('.'))
        for p, pkg in ((os.path.join(rel, '__init__.py'), True),
                       (rel + '.py', False)):
            if fullname in self.cache or os.path.isfile(p):
                if self.cache.setdefault(fullname, p) != p:
                    continue
                return importlib.util.spec_from_file_location(
                    fullname, p, loader=_Loader(fullname, p),
                    submodule_search_locations=(
                        [os.path.dirname(p)] if pkg else None))
        return None


def install(instrument=None):
    global _instrument
    _instrument = instrument
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder())
    importlib.import_module('aiuti')


def fresh(name='asyncio'):
    """Re-execute all of aiuti's submodules; return aiuti.<name>."""
    mods = sys.modules
    for m in [m for m in mods if m.startswith('aiuti.')
              and m != 'aiuti._version']:
        del mods[m]
    return importlib.import_module('aiuti.' + name)
