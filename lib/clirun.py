"""C02: runs the command-line programs from outside and judges the files they leave behind."""
import os, random, re, shutil, signal, struct, subprocess, threading, concurrent.futures as cf
from fractions import Fraction
import hashlib
from math import ceil
from vbuild import JOBS

SIMS = ['ball2d', 'rb2d', 'rb3d']
TMO = 120


def rat(s):
    s = s.strip()
    return Fraction(s) if '/' in s else Fraction(s if not s.startswith('.') else '0' + s)


def run(exe, args, cwd, env=None, timeout=TMO):
    """(status or 'timeout', tail of the output)"""
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run([exe] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    return p.returncode, p.stdout[-400:].decode('utf8', 'replace')


def kill_at(exe, args, cwd, lines):
    """ends the run with SIGKILL once it announced that many snapshots; True if it was still running"""
    p = subprocess.Popen([exe] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    n = 0
    for l in p.stdout:
        if l.startswith(b'Serializing'):
            n += 1
            if n >= lines:
                break
    alive = p.poll() is None
    p.send_signal(signal.SIGKILL)
    p.stdout.close()
    p.wait()
    return alive


def bins(d):
    return sorted(f for f in os.listdir(d) if f.endswith('.bin'))


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def num(f):
    m = re.fullmatch(r'serial_(\d+)\.bin', f)
    return int(m.group(1)) if m else None


class Case:
    def __init__(self, sim, cli, ref, seed, k, base, out):
        self.sim, self.cli, self.ref, self.seed, self.k, self.base, self.out = sim, cli, ref, seed, k, base, out
        self.r = random.Random('%s/%d/%d' % (sim, seed, k))
        self.nd = 0

    def viol(self, key, msg):
        self.out['v'].append((key, 'cli_' + self.sim, self.k, '%s :: %s' % (msg, self.what)))

    def stat(self, k, n=1):
        self.out['s'][k] = self.out['s'].get(k, 0) + n

    def dir(self, n):
        self.nd += 1
        d = os.path.join(self.base, '%s_%d' % (n, self.nd))
        os.makedirs(d)
        return d

    def opts(self, scene, s, f, e):
        """the same request, spelled in different ways"""
        r = self.r
        o = []
        if s is not None:
            o.append(r.choice([['-s', s], ['-s' + s], ['--serialize_snapshots', s], ['--serialize_snapshots=' + s]]))
        if f is not None:
            o.append(r.choice([['-f', f], ['-f' + f], ['--frequency', f], ['--frequency=' + f]]))
        if e is not None:
            o.append(r.choice([['-e', e], ['--end', e], ['--end=' + e]]))
        if scene is not None:
            o.append([scene])
        r.shuffle(o)
        return [x for y in o for x in y]

    def same(self, key, d, names, want_d):
        """every named file in d is byte for byte the one in want_d"""
        for f in names:
            p = os.path.join(d, f)
            if not os.path.exists(p):
                self.viol(key + '/missing', '%s was not written' % f)
                return False
            a, b = read(p), read(os.path.join(want_d, f))
            self.stat('files_compared')
            if a != b:
                i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                self.viol(key + '/different', '%s differs at byte %d (lengths %d and %d)' % (f, i, len(a), len(b)))
                return False
        return True

    def go(self):
        r = self.r
        self.what = ''
        scene = os.path.join(self.base, 'scene.xml')
        p = subprocess.run([self.ref, 'gen', str(self.seed), str(self.k), scene], stdout=subprocess.PIPE, check=True)
        dts = p.stdout.decode().strip()
        dt = rat(dts)
        # steps per snapshot and end time
        spf = r.choice([1, 1, 2, 3, 4, 5, 7, 10])
        f = None
        if r.random() < 0.8:
            q = Fraction(1) / (dt * spf)
            cands = [k for k in range(1, 61) if (Fraction(1) / (dt * k)).denominator == 1 and Fraction(1) / (dt * k) <= 40]
            if q.denominator == 1 and r.random() < 0.6:
                f = int(q)
            elif cands:
                f = r.choice(cands)
        spf = int(Fraction(1) / (dt * f)) if f else 1
        N = r.choice([1, 2, 3, spf, spf + 1, 2 * spf, 3 * spf, 3 * spf - 1, 9 * spf, 10 * spf, 11 * spf, 10 * spf + 1, r.randint(1, 60), r.randint(1, 140)])
        N = max(1, min(N, 160))
        T = dt * N
        kind = r.randint(0, 4)
        if kind == 0:
            T -= dt * Fraction(r.randint(1, 99), 100)
        elif kind == 1:
            T -= dt / 1000
        elif kind == 2:
            T += dt / 1000
        Ts = repr(float(T)) if r.random() < 0.7 else '%.*f' % (r.randint(3, 9), float(T))
        Tf = float(Ts)
        if Tf <= 0.0:
            Ts, Tf = repr(float(dt)), float(dt)
        n_exact = ceil(Fraction(Ts) / dt)
        n_float = 0
        while n_float * float(dt) < Tf:
            n_float += 1
        self.what = 'dt=%s f=%s e=%s' % (dts, f, Ts)
        ok = {n_exact, n_float}
        ratio = Fraction(Ts) / dt
        k = round(ratio)
        if abs(ratio - k) < Fraction(1, 10**11) * max(1, k) and Fraction(float(dt)) != dt:
            ok |= {k, k + 1}  # an end time within rounding of a step
        ok.discard(0)
        nmax = max(ok)
        # the reference trajectory
        rf = os.path.join(self.base, 'ref')
        rc, _ = run(self.ref, ['run', scene, str(nmax), rf], self.base, timeout=90)
        if rc != 0:
            self.stat('scenes_without_reference')
            return
        raw, states, pos = read(rf), [], 0
        while pos < len(raw):
            n, = struct.unpack_from('<Q', raw, pos)
            states.append(raw[pos + 8:pos + 8 + n])
            pos += 8 + n
        fs = str(f) if f else None
        # the uninterrupted run
        a = self.dir('a')
        in_scene = r.random() < 0.3
        if in_scene:
            # the end time stated in the scene instead of on the command line
            t = read(scene).decode()
            t = t.replace('</%s>' % t[t.rindex('</') + 2:t.rindex('>')], '<end_time t="%s"/>\n</%s>' % (Ts, t[t.rindex('</') + 2:t.rindex('>')]))
            with open(scene, 'w') as fh:
                fh.write(t)
        rc, tail = run(self.cli, self.opts(scene, '1', fs, None if in_scene else Ts), a)
        self.stat('runs')
        if rc != 0:
            self.viol('run_failed', 'status %s: %s' % (rc, tail))
            return
        names = bins(a)
        nums = [num(x) for x in names]
        if os.listdir(a) != names and sorted(os.listdir(a)) != names:
            self.viol('stray_files', 'files left: %s' % sorted(os.listdir(a))[:8])
        if None in nums or len(set(len(x) for x in names)) > 1:
            self.viol('file_names', 'snapshots are named %s' % names[:12])
            return
        allowed = [list(range(0, n // spf + 1)) for n in ok]
        if sorted(nums) not in allowed:
            self.viol('snapshot_numbers', 'snapshots %s, expected 0..%s' % (nums if len(nums) < 15 else '%s..%s (%d)' % (min(nums), max(nums), len(nums)), sorted(set(x[-1] for x in allowed))))
            return
        self.stat('snapshot_schedules')
        for x, i in zip(names, nums):
            self.stat('snapshots')
            b = read(os.path.join(a, x))
            if states[i * spf] not in b:
                where = [j for j in range(len(states)) if states[j] in b]
                self.viol('snapshot_state', '%s does not hold the state after %d steps (it holds the state after %s)' % (x, i * spf, where[:5]))
                break
        if states[0] != states[-1]:
            self.stat('moving')
        K = max(nums)
        self.out['h'].append(hashlib.sha1(b''.join(states[-1:]) + self.what.encode()).hexdigest()[:16])
        if self.k % 25 == 0:
            self.out['x'].append({'driver': 'cli_' + self.sim, 'case': self.k, 'what': self.what + ' snapshots 0..%d' % K})
        # resume from snapshots, in an empty folder
        for j in sorted(set(r.sample(nums, min(len(nums), 2 if r.random() < 0.7 else 4)))):
            d = self.dir('resume')
            x = names[nums.index(j)]
            rc, tail = run(self.cli, [r.choice(['-r', '--resume']), os.path.join(a, x)], d)
            self.stat('resumes')
            if rc != 0:
                self.viol('resume_failed', 'resuming from %s: status %s: %s' % (x, rc, tail))
                break
            if bins(d) != names[nums.index(j):]:
                self.viol('resume_files', 'resuming from %s wrote %s, expected %s' % (x, bins(d)[:12], names[nums.index(j):][:12]))
                break
            if not self.same('resume', d, bins(d), a):
                break
            if r.random() < 0.3 and j < K:
                # and once more, from a snapshot of the resumed run
                d2 = self.dir('again')
                y = r.choice(bins(d))
                rc, tail = run(self.cli, ['-r', os.path.join(d, y)], d2)
                self.stat('resumes')
                if rc != 0:
                    self.viol('resume_failed', 'resuming from a resumed %s: status %s: %s' % (y, rc, tail))
                elif bins(d2) != names[names.index(y):]:
                    self.viol('resume_files', 'resuming from a resumed %s wrote %s' % (y, bins(d2)[:12]))
                else:
                    self.same('resume', d2, bins(d2), a)
            shutil.rmtree(d)
        k = r.randint(0, 5)
        if k == 0:
            # elsewhere, in another environment
            d = self.dir('else/where')
            rc, tail = run(self.cli, self.opts(scene, '1', fs, None if in_scene else Ts), d, env={'HOME': d, 'LC_ALL': r.choice(['C', 'C.UTF-8', 'de_DE.UTF-8']), 'MALLOC_PERTURB_': str(r.randint(1, 255)), 'VERIF_X': 'x' * r.randint(0, 3000)})
            self.stat('repeats')
            if rc != 0 or bins(d) != names:
                self.viol('repeat', 'the same request elsewhere: status %s, files %s: %s' % (rc, bins(d)[:12], tail))
            else:
                self.same('repeat', d, names, a)
        elif k == 1:
            # a single snapshot that is overwritten
            d = self.dir('single')
            rc, tail = run(self.cli, self.opts(scene, '0', fs, None if in_scene else Ts), d)
            self.stat('single_snapshots')
            if rc != 0 or os.listdir(d) != ['serial.bin']:
                self.viol('single', 'status %s, files %s: %s' % (rc, os.listdir(d)[:12], tail))
            else:
                b = read(os.path.join(d, 'serial.bin'))
                if states[K * spf] not in b:
                    self.viol('single_state', 'serial.bin does not hold the state of the last output')
                shutil.copy(os.path.join(d, 'serial.bin'), os.path.join(d, 'start.bin'))
                rc, tail = run(self.cli, ['-r', 'start.bin'], d)
                if rc != 0 or sorted(os.listdir(d)) != ['serial.bin', 'start.bin']:
                    self.viol('single_resume', 'status %s, files %s: %s' % (rc, os.listdir(d)[:12], tail))
                elif read(os.path.join(d, 'serial.bin')) != b:
                    self.viol('single_resume', 'the resumed run left another serial.bin')
        elif k == 2:
            # no snapshots requested
            d = self.dir('none')
            rc, tail = run(self.cli, self.opts(scene, None, fs, None if in_scene else Ts), d)
            self.stat('silent_runs')
            if rc != 0 or os.listdir(d):
                self.viol('silent', 'without -s: status %s, files %s: %s' % (rc, os.listdir(d)[:12], tail))
        elif k == 3 and K >= 1:
            # the run is killed and resumed from its last complete snapshot
            for _ in range(2):
                d = self.dir('killed')
                at = r.randint(2, K + 1)
                alive = kill_at(self.cli, self.opts(scene, '1', fs, None if in_scene else Ts), d, at)
                left = bins(d)
                self.stat('kills')
                if alive:
                    self.stat('kills_while_running')
                if len(left) < at - 1:
                    self.viol('kill_files', 'killed after announcing %d snapshots, %d files' % (at, len(left)))
                    break
                whole = left[:at - 1]  # the next one was only announced
                if not self.same('kill', d, whole, a):
                    break
                rc, tail = run(self.cli, ['-r', os.path.join(d, whole[-1])], d)
                if rc != 0 or bins(d) != names:
                    self.viol('kill_resume', 'resumed from %s after being killed: status %s, files %s: %s' % (whole[-1], rc, bins(d)[:12], tail))
                    break
                if not self.same('kill_resume', d, names, a):
                    break
        elif k == 4:
            # a snapshot that cannot be written must not go unnoticed
            d = self.dir('full')
            x = r.choice(names)
            if r.random() < 0.5:
                os.makedirs(os.path.join(d, x))
            else:
                os.symlink('/dev/full', os.path.join(d, x))
            rc, tail = run(self.cli, self.opts(scene, '1', fs, None if in_scene else Ts), d)
            self.stat('unwritable')
            if rc == 0:
                self.viol('unwritable', '%s could not be written, and the run ended with success' % x)
            elif rc == 'timeout' or rc < 0:
                self.viol('unwritable', '%s could not be written: status %s' % (x, rc))
            else:
                self.same('unwritable', d, names[:names.index(x)], a)
        # requests to be rejected
        if r.random() < 0.5:
            d = self.dir('bad')
            bad_f = next((q for q in r.sample(range(2, 400), 60) if (Fraction(1) / (dt * q)).denominator != 1), None)
            with open(os.path.join(d, 'text'), 'w') as fh:
                fh.write('no snapshot' * r.randint(0, 40))
            reqs = [['-s', '2', scene], ['-s', 'yes', scene], ['-s', '', scene], ['-s', '1', '-e', '0', scene], ['-s', '1', '-e', '-1', scene], ['-s', '1', '-e', 'abc', scene], ['-s', '1', '-e', '1.0x', scene], ['-s', '1', '-e', '', scene],
                    ['-s', '1', '-e', Ts, '-f', '-1', scene], ['-s', '1', '-e', Ts, '-f', 'abc', scene], ['-s', '1', '-e', Ts, '-f', '1.5', scene], ['-s', '1', '-e', Ts, '-f', '10Hz', scene], ['-s', '1', '-e', Ts, '-z', scene], ['-s', '1', '-e', Ts, '--nope', scene],
                    ['-s', '1', '-e', Ts], ['-s', '1', '-e', Ts, scene, scene], ['-s', '1', '-e', Ts, scene + 'x'], ['-s', '1', '-e', Ts, d], ['-r', os.path.join(d, 'none')], ['-r', os.path.join(d, 'text')], ['-s'], ['-s', '1', '-e', Ts, scene, '-f']]
            if bad_f:
                reqs += [['-s', '1', '-e', Ts, '-f', str(bad_f), scene]] * 5
            other = self.out['other'].get(self.sim)
            if other:
                reqs += [['-r', other]] * 2
            for q in r.sample(reqs, 4):
                rc, tail = run(self.cli, q, d, timeout=60)
                self.stat('requests_rejected')
                if rc == 'timeout' or rc <= 0:
                    self.viol('bad_request', 'request %s: status %s' % ([x.replace(scene, 'scene.xml') for x in q], rc))
                if bins(d):
                    self.viol('bad_request_files', 'request %s left %s' % ([x.replace(scene, 'scene.xml') for x in q], bins(d)[:5]))
                    break


def monitor(res, clis, seed, tier, scratch, only=None):
    n = 700 if tier == 'quick' else 4000
    lock = threading.Lock()
    # one snapshot of every simulator, to be refused by the others
    snaps = {}
    for i, s in enumerate(SIMS):
        d = os.path.join(scratch, 'snap_' + s)
        os.makedirs(d)
        for k in range(20):
            subprocess.run([clis[('ref', s)], 'gen', str(seed), str(10 ** 6 + k), os.path.join(d, 'scene.xml')], stdout=subprocess.DEVNULL, check=True)
            rc, _ = run(clis[(s, 'rel')], ['-s', '1', '-e', '0.001', 'scene.xml'], d)
            if rc == 0 and bins(d):
                snaps[s] = os.path.join(d, bins(d)[0])
                break
    others = {s: snaps.get(SIMS[(i + 1) % 3]) for i, s in enumerate(SIMS)}

    def one(sim, k):
        base = os.path.join(scratch, 'c_%s_%d' % (sim, k))
        os.makedirs(base)
        out = {'v': [], 's': {}, 'h': [], 'x': [], 'other': others}
        try:
            Case(sim, clis[(sim, 'rel')], clis[('ref', sim)], seed, k, base, out).go()
        finally:
            shutil.rmtree(base, ignore_errors=True)
        with lock:
            res.viols += out['v']
            for a, b in out['s'].items():
                res.add_stat(a, b)
            res.add_stat('cases_cli_' + sim, 1)
            res.evals += 1
            res.hashes.update(out['h'])
            res.samples += out['x']

    jobs = [(s, k) for k in range(n) for s in SIMS]
    if only:
        jobs = [(d.replace('cli_', ''), c) for d, c in only]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(one, *j) for j in jobs]:
            f.result()
    return None
