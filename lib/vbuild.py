"""Builds drivers from /repo's current working tree. Content-addressed object cache; no mtimes, no compiler launcher."""
import hashlib, os, re, subprocess, sys, concurrent.futures as cf, shutil, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
JOBS = int(os.environ.get('VERIF_JOBS', str(min(8, os.cpu_count() or 8))))
CXX = 'clang++'

# Sources that need libraries that do not exist in this sandbox (HDF5, Ipopt).
EXCLUDE = re.compile(r'(HDF5|Ipopt|ImpactSolution|StateOutput)')

SIMS = {'ball2d': 'ball2d', 'rb2d': 'rigidbody2d', 'rb3d': 'rigidbody3d'}

BASE = ['-std=c++14', '-w', '-DEIGEN_DONT_PARALLELIZE', '-DCMAKE_DETECTED_CLANG_COMPILER', '-DQL_FOUND',
        '-isystem', '/usr/include/eigen3', '-I' + REPO, '-I' + VERIF + '/shim', '-I' + VERIF + '/shim/bogus', '-I' + VERIF + '/shim/gen', '-I' + VERIF + '/harness']
VARIANTS = {
    # release semantics: what a user runs
    'rel': ['-O1', '-DNDEBUG'] + os.environ.get('VERIF_XFLAGS', '').split(),
    # internal assertions on
    'dbg': ['-O1'],
    # sanitizers + internal assertions
    'san': ['-I' + VERIF + '/shim/chk', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'],
}
LINK = {'rel': [], 'dbg': [], 'san': ['-fsanitize=address,undefined']}

PCH_SRC = '\n'.join('#include <%s>' % h for h in (
    'algorithm', 'array', 'cassert', 'cmath', 'cstdint', 'cstdlib', 'fstream', 'functional', 'iomanip', 'iostream', 'limits', 'map',
    'memory', 'random', 'set', 'sstream', 'string', 'unordered_map', 'vector', 'Eigen/Core', 'Eigen/Dense', 'Eigen/Sparse', 'Eigen/Geometry')) + '\n'


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(str(len(p)).encode() + b':')
        h.update(p)
    return h.hexdigest()[:32]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


_hdr = {}


def header_hash(harness=False):
    if harness not in _hdr:
        h = hashlib.sha256()
        for root in (REPO, VERIF + '/shim') + ((VERIF + '/harness',) if harness else ()):
            for d, ds, fs in sorted(os.walk(root)):
                ds[:] = sorted(x for x in ds if x not in ('.git', '_build', 'build', 'assets'))
                for f in sorted(fs):
                    if f.endswith(('.h', '.hpp', '.inl', '.hh', '.in')):
                        p = os.path.join(d, f)
                        h.update(p.encode() + b'\0' + hashlib.sha256(read(p)).digest())
        _hdr[harness] = h.hexdigest()
    return _hdr[harness]


def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode != 0:
        raise BuildError('%s failed (%d)\n%s\n%s' % (what, r.returncode, ' '.join(cmd), r.stdout[-6000:]))


def flags(variant):
    return BASE + VARIANTS[variant]


def pch(variant):
    key = sha('pch', read(VERIF + '/shim/chk/assert.h'), PCH_SRC, ' '.join(flags(variant)))
    d = os.path.join(BUILD, 'pch')
    os.makedirs(d, exist_ok=True)
    hp = os.path.join(d, 'pch_%s.h' % variant)
    out = os.path.join(d, '%s_%s.pch' % (variant, key))
    if not os.path.exists(out):
        with open(hp, 'w') as f:
            f.write(PCH_SRC)
        tmp = out + '.tmp%d' % os.getpid()
        run([CXX, '-x', 'c++-header'] + flags(variant) + ['-fpch-instantiate-templates', hp, '-o', tmp], 'PCH')
        os.replace(tmp, out)
    return out


def glob_sources(reldir):
    out = []
    for d, ds, fs in sorted(os.walk(os.path.join(REPO, reldir))):
        for f in sorted(fs):
            if f.endswith('.cpp') and not EXCLUDE.search(f):
                out.append(os.path.join(d, f))
    return out


def sources_for(component):
    """component: scisim | <sim> | <sim>utils | <sim>cli | /abs/path.cpp"""
    if component.startswith('/'):
        return [component]
    if component == 'scisim':
        return glob_sources('scisim')
    if component == 'base':
        return [p for p in glob_sources('scisim') if not re.search(r'/(ConstrainedMaps|QPSolvers|QL|Constraints|UnconstrainedMaps)/', p)]
    if component == 'ql':
        return [VERIF + '/shim/ql.cpp']
    m = re.match(r'(ball2d|rb2d|rb3d)(utils|cli)?$', component)
    return glob_sources(SIMS[m.group(1)] + (m.group(2) or ''))


class Builder:
    def __init__(self):
        self.jobs = {}     # obj -> (src, variant, extra)
        self.exes = []     # (name, variant, objs)

    def obj(self, src, variant, extra=()):
        key = sha(read(src), header_hash(src.startswith(VERIF + '/harness')), ' '.join(flags(variant)), ' '.join(extra), src)
        o = os.path.join(BUILD, 'obj', '%s_%s.o' % (os.path.basename(src)[:-4], key))
        self.jobs[o] = (src, variant, tuple(extra))
        return o

    def exe(self, name, variant, main_src, components, extra=()):
        objs = [self.obj(main_src, variant, extra)]
        for c in components:
            objs += [self.obj(s, variant) for s in sources_for(c)]
        out = os.path.join(BUILD, 'exe', '%s_%s_%s' % (name, variant, sha(*objs)))
        self.exes.append((out, variant, objs))
        return out

    def build(self):
        os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
        os.makedirs(os.path.join(BUILD, 'exe'), exist_ok=True)
        todo = [(o, j) for o, j in self.jobs.items() if not os.path.exists(o)]
        pchs = {v: pch(v) for v in sorted({j[1] for _, j in todo})}
        todo.sort(key=lambda t: -(os.path.getsize(t[1][0]) + (200000 if '/verif/harness' in t[1][0] or VERIF in t[1][0] else 0)))

        def one(t):
            o, (src, variant, extra) = t
            tmp = o + '.tmp%d' % os.getpid()
            run([CXX] + flags(variant) + list(extra) + ['-include-pch', pchs[variant], '-c', src, '-o', tmp], src)
            os.replace(tmp, o)
        errs = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for f in [ex.submit(one, t) for t in todo]:
                try:
                    f.result()
                except BuildError as e:
                    errs.append(str(e))
        if errs:
            raise BuildError('\n'.join(errs[:3]))

        def link(t):
            out, variant, objs = t
            if os.path.exists(out):
                return
            tmp = out + '.tmp%d' % os.getpid()
            run([CXX] + LINK[variant] + objs + ['-o', tmp], 'link ' + out)
            os.replace(tmp, out)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for f in [ex.submit(link, t) for t in self.exes]:
                f.result()
        return len(todo)


def prune(limit=6 << 30):
    """Keep the scratch cache bounded."""
    fs = []
    for sub in ('obj', 'exe', 'pch'):
        d = os.path.join(BUILD, sub)
        if os.path.isdir(d):
            for f in os.listdir(d):
                p = os.path.join(d, f)
                try:
                    st = os.stat(p)
                    fs.append((st.st_atime, st.st_size, p))
                except OSError:
                    pass
    tot = sum(x[1] for x in fs)
    for _, sz, p in sorted(fs):
        if tot <= limit:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        tot -= sz
