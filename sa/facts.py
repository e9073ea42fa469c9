"""Builds the MIR fact extractor, runs it over /repo's current source and loads the facts."""
import fcntl, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, 'build')
CRATES = ['polodb_core', 'polodb', 'rust_polodb', 'polodb_librocksdb_sys']


class FactError(Exception):
    pass


def _env():
    """The environment the repository is built with (the one of /opt/vp/env.sh)."""
    e = dict(os.environ)
    e.update({
        'HOME': '/root',
        'PATH': '/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        'LANG': 'C.UTF-8', 'RUSTUP_TOOLCHAIN': 'nightly', 'CARGO_NET_OFFLINE': 'true',
        'CARGO_INCREMENTAL': '0', 'CARGO_TERM_COLOR': 'never', 'RUSTC_WRAPPER': '',
        'CARGO_PROFILE_DEV_DEBUG': 'line-tables-only',
        'ROCKSDB_INCLUDE_DIR': '/usr/include', 'ROCKSDB_LIB_DIR': '/usr/lib/x86_64-linux-gnu',
        'VIRTUAL_ENV': '/opt/vp/venv', 'PYO3_PYTHON': '/opt/vp/venv/bin/python',
    })
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    return e


def build(repo='/repo', out=None, target=None):
    out = out or os.path.join(BUILD, 'facts')
    target = target or os.path.join(BUILD, 'target')
    os.makedirs(BUILD, exist_ok=True)
    env = _env()
    sysroot = subprocess.run(['rustc', '--print', 'sysroot'], env=env, capture_output=True, text=True)
    if sysroot.returncode:
        raise FactError('no nightly toolchain: ' + sysroot.stderr)
    lib = os.path.join(sysroot.stdout.strip(), 'lib')
    src = os.path.join(VERIF, 'driver', 'main.rs')
    drv = os.path.join(BUILD, 'vpdriver')
    if not (os.path.exists(drv) and os.path.getmtime(drv) > os.path.getmtime(src)):
        tmp = drv + '.%d' % os.getpid()
        r = subprocess.run(['rustc', '--edition', '2021', '-C', 'opt-level=1', src, '-o', tmp,
                            '-C', 'link-arg=-Wl,-rpath,' + lib], env=env, cwd=BUILD, capture_output=True, text=True)
        if r.returncode:
            raise FactError('fact extractor does not build:\n' + r.stderr[-3000:])
        os.rename(tmp, drv)
    # every run analyses the current source: drop what cargo remembers of the workspace's crates
    for base in (os.path.join(target, 'debug', 'build'), os.path.join(target, 'debug', '.fingerprint')):
        if os.path.isdir(base):
            for n in os.listdir(base):
                if re.match(r'polodb|rust_polodb|py-binding|py_binding', n):
                    shutil.rmtree(os.path.join(base, n), ignore_errors=True)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    env.update({'VP_FACTS_DIR': out, 'VP_FACTS_CRATES': ','.join(CRATES), 'RUSTC_WORKSPACE_WRAPPER': drv,
                'LD_LIBRARY_PATH': lib})
    r = subprocess.run(['cargo', 'check', '--workspace', '--offline', '--locked', '--target-dir', target],
                       cwd=repo, env=env, capture_output=True, text=True)
    if r.returncode:
        raise FactError('the workspace does not compile:\n' + r.stderr[-3000:])
    for c in CRATES:
        if not os.path.exists(os.path.join(out, c + '.json')):
            raise FactError('no facts were extracted for crate ' + c)
    return out


def norm(p):
    """Type-argument-free pretty path: std::sync::Weak::<T, A>::upgrade -> std::sync::Weak::upgrade."""
    out, depth, i = [], 0, 0
    while i < len(p):
        if p.startswith('::<', i) and depth == 0 and not p.startswith('::<impl', i):
            # turbofish: drop to the matching '>'
            j, d = i + 2, 0
            while j < len(p):
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return ''.join(out)


class Body:
    __slots__ = ('crate', 'id', 'promoted', 'p', 'np', 'name', 'kind', 'coroutine', 'argc', 'locals', 'names', 'blocks',
                 'trait', 'titem', 'intrait', 'self_ty', 'pub', 'parent', 'loc', 'raw', 'w', '_cfg', 'ext')

    def __init__(self, crate, b, ext=False):
        self.crate, self.raw, self.ext = crate, b, ext
        self.id, self.promoted, self.p, self.name = b['id'], b.get('promoted'), b['p'], b.get('n')
        self.np = norm(self.p)
        self.kind, self.coroutine = b.get('kind'), b.get('coroutine')
        self.argc, self.locals, self.names, self.blocks = b['argc'], b['locals'], b.get('names') or [], b['blocks']
        self.trait, self.titem, self.intrait = b.get('trait'), b.get('titem'), b.get('intrait')
        self.self_ty, self.pub, self.parent, self.loc = b.get('self'), b.get('pub'), b.get('parent'), b.get('loc')
        self._cfg = None

    def __repr__(self):
        return '<%s%s>' % (self.np, '' if self.promoted is None else '#%s' % self.promoted)

    @property
    def file(self):
        return (self.loc or '').rsplit(':', 1)[0]


class Crate:
    def __init__(self, path):
        d = json.load(open(path))
        self.name = d['crate']
        self.types, self.ctypes, self.adts, self.impls = d['types'], d['ctypes'], d['adts'], d['impls']
        self.bodies = [Body(self, b) for b in d['bodies']]
        self.by_id, self.promoted = {}, {}
        for b in self.bodies:
            if b.promoted is None:
                self.by_id[b.id] = b
            else:
                self.promoted[(b.id, b.promoted)] = b
        self.statics = d.get('statics', {})
        self.ext = {}
        for b in d.get('ext', []):
            x = Body(self, b, True)
            self.ext[x.id] = x

    def ty(self, t):
        return self.types[t]['s'] if isinstance(t, int) else str(t)


class Facts:
    """All extracted crates; callee ids are unique across crates (they start with the crate name)."""

    def __init__(self, d):
        self.crates = {c: Crate(os.path.join(d, c + '.json')) for c in CRATES}
        self.by_id, self.ext = {}, {}
        for c in self.crates.values():
            self.by_id.update(c.by_id)
            self.ext.update(c.ext)
        self.core = self.crates['polodb_core']
        self.server = self.crates['polodb']
        self.py = self.crates['rust_polodb']
        self.sys = self.crates['polodb_librocksdb_sys']
        self.adts, self.statics = {}, {}
        for c in self.crates.values():
            for k, v in c.adts.items():
                self.adts.setdefault(k, v)
            self.statics.update(c.statics)
        # trait item -> implementing functions
        self.impls_of = {}
        for c in self.crates.values():
            for im in c.impls:
                for ti, ii in im['m']:
                    self.impls_of.setdefault(ti, []).append((c, im, ii))

    def find(self, pat, crate=None):
        """Bodies (no promoteds) whose normalised path matches the regular expression completely."""
        rx = re.compile(pat)
        return [b for b in self.by_id.values() if (crate is None or b.crate.name == crate) and rx.fullmatch(b.np)]


_cache = None


def load(repo='/repo'):
    global _cache
    if _cache is None:
        d = os.environ.get('VP_FACTS_REUSE')
        if d is None:
            d = build(repo)
        _cache = Facts(d)
    return _cache
