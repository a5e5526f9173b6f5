"""C04: the command-line programs under sanitizers, with mistyped options, damaged scene files and the repository's own scenes."""
import glob, os, random, re, shutil, subprocess, concurrent.futures as cf
import hashlib, threading
from vbuild import JOBS, REPO

DIRS = {'ball2d': 'ball2d', 'rb2d': 'rigidbody2d', 'rb3d': 'rigidbody3d'}
ENV = {'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0', 'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1'}
NUMS = ['0', '1', '-1', '', ' ', 'x', '1e9', '1e308', 'inf', '-inf', 'nan', '1e-320', '4294967295', '4294967296', '-2147483649', '9223372036854775808', '0.01', '1/3', '1 2', '+', '-', '.', '%s', '60', '100', '7', '9' * 400]


def scenes(sim):
    return sorted(p for p in glob.glob(os.path.join(REPO, 'assets', DIRS[sim], '**', '*.xml'), recursive=True) if os.path.getsize(p) < 60000)


def one(exe, sim, scn, seed, k, base):
    """returns (what, status, output tail, kind)"""
    r = random.Random('%d/%s/%d' % (seed, sim, k))
    d = os.path.join(base, '%s_%d' % (sim, k))
    os.makedirs(d, exist_ok=True)
    try:
        path = os.path.join(d, 'scene.xml')
        src = r.choice(scn)
        with open(src, 'rb') as f:
            t = f.read()
        kind = r.choice(['options', 'options', 'options', 'truncated', 'plain', 'plain', 'plain', 'resume', 'nothing'])
        if kind == 'truncated':
            t = t[:r.randrange(len(t) + 1)]
        with open(path, 'wb') as f:
            f.write(t)
        m = re.search(rb'dt\s*=\s*["\']([^"\']*)', t)
        dt = 0.01
        try:
            s = m.group(1).decode()
            dt = float(s) if '/' not in s else float(s.split('/')[0]) / float(s.split('/')[1])
        except Exception:
            pass
        dt = dt if 0 < dt < 1e6 else 0.01
        short = ['-e', '%.9g' % (dt * r.choice([0.5, 1, 2, 3, 3, 8]))]
        if kind in ('plain', 'truncated'):
            a = short + r.choice([[], ['-s', '1'], ['-s', '0'], ['-s', '1', '-f', '%d' % max(1, round(1 / dt))]]) + [path]
        elif kind == 'resume':
            with open(os.path.join(d, 'x.bin'), 'wb') as f:
                f.write(bytes(r.randrange(256) for _ in range(r.choice([0, 1, 3, 4, 40]))))   # not a snapshot of this program
            a = ['-r', r.choice(['x.bin', 'missing.bin', '', '.', 'scene.xml'])]
        elif kind == 'nothing':
            a = r.choice([[], ['-h'], ['--help', path], [path + 'x'], ['.'], [''], [path, path], ['-s'], ['--bogus'], ['-z', path], ['--', path, 'x'], ['-e'], ['-r']])
        else:
            a = []
            for _ in range(r.randint(1, 4)):
                o = r.choice(['-e', '-f', '-s', '--end', '--frequency', '--serialize_snapshots', '-e', '-f', '--end=', '-q', '--nonsense', '-o', '-i', '--res'])
                v = r.choice(NUMS)
                a += [o + v] if o.endswith('=') else [o, v] if r.random() < 0.9 else [o]
            if r.random() < 0.6:
                a += short
            a.insert(r.randrange(len(a) + 1), path)
        e = dict(os.environ)
        e.update(ENV)
        p = subprocess.Popen([exe] + a, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            out, _ = p.communicate(timeout=12)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            rc = 'long'     # an end time far away; nothing wrong so far
        o = out.decode('utf8', 'replace')
        m = re.search(r'(runtime error:|ERROR: AddressSanitizer|Assertion |terminate called)', o)
        return kind, a, os.path.relpath(src, REPO), rc, (o[max(0, m.start() - 160):m.start() + 500] if m else o[-300:]), bool(m), hashlib.sha256(o.encode()).hexdigest()[:16]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def monitor(res, clis, seed, tier, scratch, only=None):
    n = 150 if tier == 'quick' else 4000
    base = os.path.join(scratch, 'clisan')
    os.makedirs(base, exist_ok=True)
    lock = threading.Lock()
    jobs = [(s, k) for s in DIRS for k in range(n)]
    if only is not None:
        jobs = [(nm.split('cli_')[1], c) for nm, c in only if 'cli_' in nm]
    scn = {s: scenes(s) for s in DIRS}

    def do(j):
        s, k = j
        kind, a, src, rc, out, san, h = one(clis[(s, 'san')], s, scn[s], seed, k, base)
        with lock:
            res.evals += 1
            res.add_stat('cli_runs', 1)
            res.add_stat('cli_' + kind, 1)
            if rc == 'long':
                res.add_stat('cli_ended_by_us', 1)
            elif rc == 0:
                res.add_stat('cli_succeeded', 1)
            elif rc == 1:
                res.add_stat('cli_rejected', 1)
            res.hashes.add('cli%s%s' % (s, h))
            if san or rc not in (0, 1, 'long'):
                res.viols.append(('cli/' + kind, 'cli_' + s, k, 'status %s with %s (%s): %s' % (rc, ' '.join(a), src, out.replace('\n', ' ; '))))
            elif kind == 'resume' and rc == 0:
                res.viols.append(('cli_accepted/' + kind, 'cli_' + s, k, 'resuming from something that is not a snapshot succeeded: %s' % ' '.join(a)))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(do, j) for j in jobs]:
            f.result()
    shutil.rmtree(base, ignore_errors=True)
    return None
