"""Compiles the extension modules from the current sources into a scratch directory (for replays) and installs them."""
import glob, importlib.machinery, importlib.util, os, subprocess, sys, sysconfig, tempfile, shutil, atexit
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
EXTS = {
    'frds.algorithms.utils.utils_ext': 'frds/algorithms/utils/utils_module.cpp',
    'frds.measures.measures_ext': 'frds/measures/measures_module.cpp',
    'frds.algorithms.isolation_forest.iforest_ext': 'frds/algorithms/isolation_forest/iforest_module.cpp',
}

REPLAY_FLAGS = ['-include', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'verif_rng.hpp'), '-Wl,-Bsymbolic']


def command(name, out, extra=()):
    import numpy
    return ['g++', '-shared', '-fPIC', '-O1', '-std=c++17', '-w', '-pthread', f"-I{sysconfig.get_paths()['include']}", f"-I{numpy.get_include()}",
            *extra, *(REPLAY_FLAGS if 'iforest' in name else ()), os.path.join(SRC, EXTS[name]), '-o', out]


def build(names=None, extra=(), outdir=None):
    """-> directory with the .so files; failures are recorded as <name>.err"""
    d = outdir or tempfile.mkdtemp(prefix='frds_ext_')
    procs = []
    for n in names or EXTS:
        out = os.path.join(d, n + '.so')
        procs.append((n, out, subprocess.Popen(command(n, out, extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for n, out, p in procs:
        o, _ = p.communicate()
        if p.returncode: open(os.path.join(d, n + '.err'), 'wb').write(o)
    return d


_loaded = {}


class Finder:
    """serves the extension modules from the directory they were freshly built into (never from /repo)"""
    dir = None

    def find_spec(self, name, path=None, target=None):
        if name not in EXTS: return None
        p = os.path.join(self.dir, name + '.so') if self.dir else None
        if not p or not os.path.exists(p): raise ModuleNotFoundError(f"No module named {name!r} (not built)", name=name)
        return importlib.machinery.ModuleSpec(name, self, origin=p)

    def create_module(self, spec):
        k = spec.origin
        if k not in _loaded:
            ld = importlib.machinery.ExtensionFileLoader(spec.name, k)
            sp = importlib.util.spec_from_file_location(spec.name, k, loader=ld)
            m = importlib.util.module_from_spec(sp)
            ld.exec_module(m)
            _loaded[k] = m
        return _loaded[k]

    def exec_module(self, m): pass


FINDER = Finder()


def install(d):
    """imports of the extension modules come from directory d (None: they are absent)"""
    FINDER.dir = d
    if FINDER not in sys.meta_path: sys.meta_path.insert(0, FINDER)
    for n in EXTS: sys.modules.pop(n, None)


def block(): install(None)
