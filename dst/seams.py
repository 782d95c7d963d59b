"""Seams: everything the library under test takes from its environment and
that could make two runs differ is routed through here.

 * code      the repository's working tree is loaded as package `causets`
 * hashing   CausetEvent hashes (id based) -> seeded, so that the iteration
             order of every set of events is a decision of the simulator
 * random    numpy.random.default_rng -> registered simulated generators
 * disk      open() of files inside the scratch directory -> FaultyFileIO
 * interrupt sys.settrace line events -> an exception at the k-th line
 * threads   see sched.py
"""
import builtins
import errno
import importlib
import importlib.machinery
import importlib.util
import io
import os
import random
import sys
import threading
import warnings

REPO = os.path.realpath(os.environ.get('CAUSETS_REPO', '/repo'))
M64 = (1 << 64) - 1


def mix(*xs):
    """splitmix64 over a tuple of integers: the only seed derivation used."""
    h = 0x9E3779B97F4A7C15
    for x in xs:
        if isinstance(x, str):
            for ch in x.encode():
                h = ((h ^ ch) * 0x100000001B3) & M64
            x = len(x)
        z = (h ^ (x & M64)) + 0x9E3779B97F4A7C15 & M64
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
        h = z ^ (z >> 31)
    return h


class Injected(Exception):
    """An exception injected by the simulator (never raised by the library)."""


class InjectedInterrupt(BaseException):
    """Injected like a KeyboardInterrupt: not an Exception."""


# ---------------------------------------------------------------- hash seam
class HashSeam:
    def __init__(self):
        self.active = False
        self.reset(0, 'scramble')

    def reset(self, seed, mode):
        self.seed, self.mode = seed, mode
        self.table = {}
        self.keep = []
        self.counts = {}
        self.local = threading.local()  # .key: (phase, client), see C22

    def __call__(self, obj):
        t = self.table
        h = t.get(id(obj))
        if h is None:
            key = getattr(self.local, 'key', None)
            if key is None:
                k = len(self.keep)
            else:   # numbered per client: independent of the interleaving
                k = self.counts[key] = self.counts.get(key, 0) + 1
                k += 1000003 * key[1]
            self.keep.append(obj)
            m = self.mode
            if m == 'asc':
                h = k
            elif m == 'desc':
                h = (1 << 40) - k
            elif m == 'collide':
                h = mix(self.seed, k) & 3
            else:
                h = mix(self.seed, k) >> 3
            t[id(obj)] = h
        return h


HASH = HashSeam()
HASH_MODES = ('scramble', 'scramble', 'scramble', 'collide', 'asc', 'desc')


# ------------------------------------------------------------------ rng seam
_SimRng = None
_registry = []       # generators created through default_rng() without seed
_case_seed = 0


def make_simrng(np):
    Gen = np.random.Generator

    class SimRng(Gen):
        """numpy Generator whose draws can fail or hit extreme values.
        plan: {'fail_at': k, 'exc': name, 'extreme': prob}"""

        def __init__(self, seed, plan=None):
            super().__init__(np.random.PCG64(seed & M64))
            self.sim_set(seed, plan)

        def sim_set(self, seed, plan=None):
            self.bit_generator.state = \
                np.random.PCG64(seed & M64).state
            self.plan = plan or {}
            self.draws = 0
            self.fired = 0
            self.extremes = 0
            self.poissons = []
            self.side = random.Random(mix(seed, 77))

        def _tick(self):
            self.draws += 1
            if self.plan.get('fail_at') == self.draws:
                self.fired += 1
                raise {'mem': MemoryError, 'val': ValueError,
                       'os': OSError, 'inj': Injected,
                       'int': InjectedInterrupt}[
                    self.plan.get('exc', 'inj')]('injected draw failure')

        def _ext(self, x, lo, hi, kind):
            p = self.plan.get('extreme', 0.0)
            if p <= 0.0:
                return x
            a = np.array(x, dtype=float, copy=True)
            flat = a.reshape(-1)
            lo = np.broadcast_to(np.asarray(lo, float), a.shape).reshape(-1)
            hi = np.broadcast_to(np.asarray(hi, float), a.shape).reshape(-1)
            hit = False
            for i in range(flat.size):
                if self.side.random() < p:
                    hit = True
                    if kind == 'u':
                        q = self.side.randrange(4)
                        w = hi[i] - lo[i]
                        flat[i] = (lo[i], np.nextafter(hi[i], lo[i]),
                                   lo[i] + w * 1e-9, hi[i] - w * 1e-9)[q]
                    else:
                        q = self.side.randrange(4)
                        flat[i] = (8.0, -8.0, 1e-12, -1e-12)[q]
            if not hit:
                return x
            self.extremes += 1
            if np.ndim(x) == 0:
                return float(a)
            return a

        def uniform(self, low=0.0, high=1.0, size=None):
            self._tick()
            return self._ext(super().uniform(low, high, size), low, high, 'u')

        def random(self, size=None, dtype=np.float64, out=None):
            self._tick()
            x = super().random(size, dtype, out)
            return x if out is not None else self._ext(x, 0.0, 1.0, 'u')

        def standard_normal(self, size=None, dtype=np.float64, out=None):
            self._tick()
            x = super().standard_normal(size, dtype, out)
            return x if out is not None else self._ext(x, 0, 0, 'n')

        def normal(self, loc=0.0, scale=1.0, size=None):
            self._tick()
            return super().normal(loc, scale, size)

        def poisson(self, lam=1.0, size=None):
            self._tick()
            x = super().poisson(lam, size)
            if self.plan.get('small') and size is None:
                x = int(x) % self.plan['small']
            self.poissons.append(int(np.sum(x)))
            return x

        def integers(self, *a, **k):
            self._tick()
            return super().integers(*a, **k)

        def choice(self, *a, **k):
            self._tick()
            return super().choice(*a, **k)

        def exponential(self, *a, **k):
            self._tick()
            return super().exponential(*a, **k)

        def beta(self, *a, **k):
            self._tick()
            return super().beta(*a, **k)

        def shuffle(self, *a, **k):
            self._tick()
            return super().shuffle(*a, **k)

        def permutation(self, *a, **k):
            self._tick()
            return super().permutation(*a, **k)

        def sim_state(self):
            return repr(self.bit_generator.state)
    return SimRng


class Lib:
    """The loaded library (real code) and its seams."""
    pass


def load(plotting=True):
    """Load the library from REPO's working tree with all seams installed."""
    warnings.filterwarnings('ignore', category=SyntaxWarning)
    # CPython 3.12 delivers opcode events only to trace functions installed
    # after some frame has asked for them: ask once, so that all cases of a
    # process (and its replay) see the same events
    sys._getframe().f_trace_opcodes = True
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent-pycache'
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import numpy as np
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot  # noqa: F401  (not part of the system under test)
    global _SimRng
    _SimRng = make_simrng(np)
    real_default_rng = np.random.default_rng

    def default_rng(seed=None):
        if seed is None:
            r = _SimRng(mix(_case_seed, 1000 + len(_registry)))
            _registry.append(r)
            return r
        return real_default_rng(seed)
    np.random.default_rng = default_rng
    lib = Lib()
    lib.np = np
    lib.plotted = plotting
    load_package(lib)
    for m in (lib.event, lib.causet, lib.embedded, lib.sprinkled, lib.shapes,
              lib.spacetimes):
        f = os.path.realpath(m.__file__)
        if not f.startswith(REPO + os.sep):
            raise RuntimeError('library not loaded from %s: %s' % (REPO, f))
    install_fs_seam(np)
    return lib


_CODE = {}


class CachingLoader(importlib.machinery.SourceFileLoader):
    """Compiles each module once; a cold start executes it anew."""

    def get_code(self, fullname):
        c = _CODE.get(self.path)
        if c is None:
            c = _CODE[self.path] = super().get_code(fullname)
        return c


def path_hook(path):
    if os.path.realpath(path) != REPO:
        raise ImportError(path)
    return importlib.machinery.FileFinder(
        path, (CachingLoader, importlib.machinery.SOURCE_SUFFIXES))


def load_package(lib):
    """The start of the process, as far as the library can tell."""
    from .sched import lock_seam
    if path_hook not in sys.path_hooks:
        sys.path_hooks.insert(0, path_hook)
        for p in list(sys.path_importer_cache):
            if os.path.realpath(p) == REPO:
                del sys.path_importer_cache[p]
    for m in [m for m in sys.modules
              if m == 'causets' or m.startswith('causets.')]:
        del sys.modules[m]
    del _registry[:]
    init = os.path.join(REPO, '__init__.py')
    spec = importlib.util.spec_from_file_location(
        'causets', init, loader=CachingLoader('causets', init),
        submodule_search_locations=[REPO])
    pkg = importlib.util.module_from_spec(spec)
    sys.modules['causets'] = pkg
    lib.pkg = pkg
    with lock_seam() as locks:
        spec.loader.exec_module(pkg)
        load_modules(lib, importlib.import_module, lib.plotted)
    locks.patch([m for k, m in list(sys.modules.items())
                 if k == 'causets' or k.startswith('causets.')])
    lib.SimRng = _SimRng
    # hash seam (only when the library uses the default identity hash)
    HASH.active = lib.E.__hash__ is object.__hash__
    if HASH.active:
        lib.E.__hash__ = lambda self: HASH(self)
    lib.initial_registry = list(_registry)


def load_modules(lib, imp, plotting):
    lib.event = imp('causets.causetevent')
    lib.causet = imp('causets.causet')
    lib.embedded = imp('causets.embeddedcauset')
    lib.sprinkled = imp('causets.sprinkledcauset')
    lib.shapes = imp('causets.shapes')
    lib.spacetimes = imp('causets.spacetimes')
    lib.E = lib.event.CausetEvent
    lib.C = lib.causet.Causet
    lib.EC = lib.embedded.EmbeddedCauset
    lib.SC = lib.sprinkled.SprinkledCauset
    lib.Shape = lib.shapes.CoordinateShape
    lib.plotting = imp('causets.causetplotting') if plotting else None
    lib.colors = imp('causets.colorschemes')


def begin_case(lib, seed, hash_mode, hash_seed):
    """Put every seam in the state that `seed` determines."""
    global _case_seed
    _case_seed = seed
    HASH.reset(hash_seed, hash_mode)
    del _registry[len(lib.initial_registry):]
    for i, r in enumerate(lib.initial_registry):
        r.sim_set(mix(seed, 1000 + i))
    lib.np.random.seed(mix(seed, 5) & 0xFFFFFFFF)
    random.seed(mix(seed, 6))
    FS.reset()


def ambient_states(lib):
    """State of every generator that no argument refers to."""
    mt = lib.np.random.get_state()
    return ([r.sim_state() for r in _registry],
            mt[0], mt[1].tobytes(), mt[2:], random.getstate())


# ------------------------------------------------------------------- fs seam
class FSState:
    def __init__(self):
        self.root = None
        self.reset()

    def reset(self, plan=None):
        """plan: {'op': 'open'|'write'|'close'|'read', 'at': n, 'errno': e,
        'mode': 'w'|'r'}   n-th open / byte offset / n-th close"""
        self.plan = plan or {}
        self.opens = 0
        self.fired = []
        self.bytes_written = 0
        self.bytes_read = 0


FS = FSState()
_real_open = io.open


class FaultyFileIO(io.FileIO):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self._dead = False

    def write(self, b):
        p = FS.plan
        if p.get('op') == 'write':
            b = bytes(b)
            room = p['at'] - FS.bytes_written
            if len(b) > room:
                if room > 0:
                    n = super().write(b[:room])   # short (torn) write
                    FS.bytes_written += n
                    return n
                FS.fired.append('write')
                raise OSError(p['errno'], os.strerror(p['errno']))
        n = super().write(b)
        FS.bytes_written += n
        return n

    def _rd(self, n):
        p = FS.plan
        if p.get('op') == 'read' and FS.bytes_read >= p['at']:
            FS.fired.append('read')
            raise OSError(p['errno'], os.strerror(p['errno']))
        FS.bytes_read += n

    def readinto(self, b):
        p = FS.plan
        if p.get('op') == 'read':
            self._rd(0)
            room = max(1, min(len(b), p['at'] - FS.bytes_read))
            data = super().read(room)
            b[:len(data)] = data
            FS.bytes_read += len(data)
            return len(data)
        if p.get('op') == 'shortread':
            data = super().read(min(len(b), p['at']))
            b[:len(data)] = data
            if data:
                FS.fired.append('shortread')
            return len(data)
        return super().readinto(b)

    def readall(self):
        out = b''
        while True:
            buf = bytearray(4096)
            n = self.readinto(buf)
            if not n:
                return out
            out += bytes(buf[:n])

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        buf = bytearray(n)
        k = self.readinto(buf)
        return bytes(buf[:k])

    def close(self):
        if not self.closed and FS.plan.get('op') == 'close' \
                and not self._dead and FS.plan.get('mode', 'w') == (
                    'w' if self.writable() else 'r') \
                and (FS.bytes_written or not self.writable()):
            self._dead = True
            super().close()
            FS.fired.append('close')
            raise OSError(FS.plan['errno'], os.strerror(FS.plan['errno']))
        super().close()


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    try:
        path = os.fspath(file)
    except TypeError:
        path = None
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if FS.root is None or path is None or \
            not os.path.abspath(path).startswith(FS.root + os.sep):
        return _real_open(file, mode, buffering, encoding, errors, newline,
                          closefd, opener)
    FS.opens += 1
    p = FS.plan
    if p.get('op') == 'open' and p['at'] == FS.opens:
        FS.fired.append('open')
        raise OSError(p['errno'], os.strerror(p['errno']), path)
    raw = FaultyFileIO(path, mode.replace('t', '').replace('b', '')
                       .replace('U', '') or 'r')
    if raw.readable() and raw.writable():
        buf = io.BufferedRandom(raw)
    elif raw.writable():
        buf = io.BufferedWriter(raw)
    else:
        buf = io.BufferedReader(raw)
    if 'b' in mode:
        return buf
    t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)
    t.mode = mode
    return t


def install_fs_seam(np):
    builtins.open = sim_open
    io.open = sim_open
    try:
        from numpy.lib import _datasource
        fo = _datasource._file_openers
        fo._load()
        fo._file_openers[None] = sim_open
    except Exception:       # another numpy layout: only builtins.open
        pass


# ------------------------------------------------------------ interrupt seam
class LineTracer:
    """Counts executed lines of library code; raises at line `at`
    (0: never).  budget: hard limit of lines (0: none) -> NoProgress.
    opcodes: count executed bytecode instructions instead of lines."""

    def __init__(self, at=0, exc=InjectedInterrupt, budget=0, opcodes=False):
        self.at, self.exc, self.budget = at, exc, budget
        self.kind = 'opcode' if opcodes else 'line'
        self.count = 0
        self.fired = None

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(REPO):
            if self.kind == 'opcode':
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == self.kind:
            self.count += 1
            if self.count == self.at:
                self.fired = (os.path.basename(frame.f_code.co_filename),
                              frame.f_code.co_name)
                raise self.exc('injected at %s event %d' % (
                    self.kind, self.at))
            if self.budget and self.count > self.budget:
                raise NoProgress('more than %d lines' % self.budget)
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False


class NoProgress(BaseException):
    """The deterministic step budget of a case is exhausted."""


ERRNOS = (errno.ENOSPC, errno.EIO, errno.EDQUOT)
OPEN_ERRNOS = (errno.EACCES, errno.EMFILE, errno.EIO, errno.ENOSPC)
