"""Runs drivers over sharded case ranges, collects events, decides verdicts, writes evidence."""
import json, os, re, subprocess, sys, time, threading, shutil, tempfile, concurrent.futures as cf
import vbuild
from vbuild import VERIF, REPO, BUILD, JOBS

SAN_ENV = {'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0', 'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1'}


class Result:
    def __init__(self):
        self.viols = []      # (key, driver, case, msg)
        self.stats = {}
        self.hashes = set()
        self.samples = []
        self.inconclusive = []
        self.evals = 0

    def add_stat(self, k, n):
        self.stats[k] = self.stats.get(k, 0) + n


def _tail(path, n=1500):
    try:
        with open(path, 'rb') as f:
            f.seek(0, 2)
            s = f.tell()
            f.seek(max(0, s - 200000))
            t = f.read().decode('utf8', 'replace')
    except OSError:
        return ''
    m = re.search(r'(runtime error:.*|ERROR: AddressSanitizer.*|Assertion .*|terminate called.*)', t)
    if m:
        return t[max(0, m.start() - 200):m.start() + n]
    return t[-n:]


STOP = threading.Event()   # a confirmed hang, or the time is up: no need to go on
T_END = [0.0]


def _run_once(exe, args, scratch, tag, stall, env):
    """returns (rc or None if stalled, log path, out path, crumb path)"""
    out = os.path.join(scratch, tag + '.out')
    log = os.path.join(scratch, tag + '.log')
    crumb = os.path.join(scratch, tag + '.crumb')
    e = dict(os.environ)
    e.update(SAN_ENV)
    e.update(env or {})
    cwd = os.path.join(scratch, tag + '.cwd')
    os.makedirs(cwd, exist_ok=True)
    with open(log, 'wb') as lf:
        p = subprocess.Popen([exe] + args + ['--out', out, '--crumb', crumb], stdout=lf, stderr=lf, stdin=subprocess.DEVNULL, env=e, cwd=cwd)
        last, last_t = None, time.time()
        t_start, delay = time.time(), 0.01
        while True:
            try:
                rc = p.wait(timeout=delay)
                break
            except subprocess.TimeoutExpired:
                delay = min(0.5, delay * 1.5)
            try:
                with open(crumb) as f:
                    cur = f.read()
            except OSError:
                cur = ''
            if time.time() > T_END[0]:
                STOP.set()
            if STOP.is_set():
                p.kill()
                p.wait()
                return 'stop', log, out, crumb
            if cur != last:
                last, last_t = cur, time.time()
            if time.time() - last_t > stall:
                p.kill()
                p.wait()
                return None, log, out, crumb
    return rc, log, out, crumb


def _shard(exe, name, seed, tier, a, b, scratch, res, lock, stall, env, idx, maxcrash, crash_only=False):
    cur = a
    crashes = 0
    part = 0
    while cur < b:
        tag = '%s_%d_%d' % (name, idx, part)
        part += 1
        args = ['--seed', str(seed), '--tier', tier, '--from', str(cur), '--to', str(b)]
        rc, log, out, crumb = _run_once(exe, args, scratch, tag, stall, env)
        done = False
        try:
            with open(out, errors='replace') as f:
                lines = f.read().split('\n')
        except OSError:
            lines = []
        with lock:
            for l in lines:
                p = l.split('|', 3)
                if p[0] == 'V' and len(p) == 4 and not crash_only:
                    res.viols.append((p[1], name, int(p[2]), p[3]))
                elif p[0] == 'S' and len(p) == 3:
                    if p[1] == 'cases':
                        res.evals += int(p[2])
                    res.add_stat(p[1] if p[1] != 'cases' else 'cases_' + name, int(p[2]))
                elif p[0] == 'H':
                    res.hashes.add(name + p[1])
                elif p[0] == 'X' and len(p) >= 3:
                    if len([1 for s in res.samples if s['driver'] == name]) < 3:
                        res.samples.append({'driver': name, 'case': int(p[1]), 'what': '|'.join(p[2:])})
                elif p[0] == 'D':
                    done = True
        if rc == 'stop':
            with lock:
                res.add_stat('shards_stopped', 1)
            return
        if rc == 0 and done:
            return
        try:
            with open(crumb) as f:
                c = f.read().split(None, 1)
            case, fam = int(c[0]), (c[1].strip() if len(c) > 1 else '')
        except (OSError, ValueError, IndexError):
            with lock:
                res.inconclusive.append('%s: driver did not start (rc=%s): %s' % (name, rc, _tail(log)))
            return
        if rc is None and crash_only:
            with lock:
                res.add_stat('cases_abandoned', 1)
            crashes += 1
        elif rc is None:
            # stalled: once more, alone, with twice the time
            a2 = ['--seed', str(seed), '--tier', tier, '--from', str(case), '--to', str(case + 1)]
            rc2, log2, _, _ = _run_once(exe, a2, scratch, tag + 'r', 2 * stall, env)
            if rc2 is None:
                STOP.set()
                with lock:
                    res.viols.append(('hang/' + fam.split(' n=')[0], name, case, 'no progress for %d s, twice' % stall))
            crashes += 1
        else:
            # confirm in a fresh process
            a2 = ['--seed', str(seed), '--tier', tier, '--from', str(case), '--to', str(case + 1)]
            rc2, log2, _, _ = _run_once(exe, a2, scratch, tag + 'r', 2 * stall, env)
            kind = 'exit' if rc >= 0 else 'crash'
            t = _tail(log)
            if 'runtime error:' in t:
                kind = 'ubsan'
            elif 'AddressSanitizer' in t:
                kind = 'asan'
            elif 'Assertion' in t:
                kind = 'assert'
            with lock:
                res.viols.append(('%s/%s' % (kind, fam.split(' n=')[0]), name, case, 'process ended with status %d (alone: %s): %s' % (rc, rc2, t.replace('\n', ' ; '))))
            crashes += 1
        if crashes >= maxcrash:
            with lock:
                res.add_stat('shards_abandoned_after_crashes', 1)
            return
        cur = case + 1


def run_drivers(drivers, seed, tier, res, scratch, stall=60):
    """drivers: list of dict(name, exe, n, env)"""
    T_END[0] = time.time() + float(os.environ.get('VERIF_BUDGET', '700' if tier == 'quick' else '14400'))
    lock = threading.Lock()
    jobs = []
    for d in drivers:
        n = d['n']
        k = max(1, min(d.get('shards', JOBS), n))
        for i in range(k):
            a, b = n * i // k, n * (i + 1) // k
            if b > a:
                jobs.append((d, a, b, i))
    jobs.sort(key=lambda j: j[3])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(_shard, d['exe'], d['name'], seed, tier, a, b, scratch, res, lock, d.get('stall', stall), d.get('env'), i, d.get('maxcrash', 4), d.get('crash_only', False)) for d, a, b, i in jobs]
        for f in fs:
            f.result()


def load_known():
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            return json.load(f)['findings']
    except OSError:
        return []


def finish(prop, spec, res, tier, seed, t0, extra_cov=None):
    known = [k for k in load_known() if k.get('property') == prop and k.get('status') == 'known']
    new, hit = [], {}
    for v in res.viols:
        m = None
        for k in known:
            if re.fullmatch(k['key'], v[0]) and re.fullmatch(k.get('driver', '.*'), v[1]):
                m = k
                break
        if m:
            hit.setdefault(m['id'], (m, []))[1].append(v)
        else:
            new.append(v)
    cov = {
        'evaluations': res.evals,
        'distinct_nontrivial': len(res.hashes),
        'rule': spec['rule'],
        'samples': res.samples[:8] or [{'note': 'none'}],
        'observed': dict(sorted(res.stats.items())),
    }
    if extra_cov:
        cov.update(extra_cov)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, (m, vs) in sorted(hit.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, m['what']))
    print('%s %s: %d cases, %d distinct non-trivial, %d violation events, %.1fs; %s' % (
        prop, tier, res.evals, len(res.hashes), len(new), time.time() - t0, ' '.join('%s=%d' % kv for kv in sorted(res.stats.items()))))
    if new:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        seen = {}
        for key, name, case, msg in new:
            seen.setdefault((key, name), []).append((case, msg))
        for n, ((key, name), l) in enumerate(sorted(seen.items())[:12]):
            rp = os.path.join(rd, '%s_%d.json' % (prop, n))
            with open(rp, 'w') as f:
                json.dump({'property': prop, 'driver': name, 'key': key, 'seed': seed, 'tier': tier, 'cases': [c for c, _ in l][:20], 'message': l[0][1],
                           'replay': 'bin/check %s --replay %s' % (prop, rp)}, f, indent=1)
            print('  [%s] %s case %d: %s' % (name, key, l[0][0], l[0][1][:600]))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if res.inconclusive:
        for m in res.inconclusive[:5]:
            print('INCONCLUSIVE ' + m)
        return 2
    low = [k for k, v in spec.get('min', {}).items() if res.stats.get(k, 0) < v]
    if low:
        print('INCONCLUSIVE the workload did not reach: ' + ', '.join(low))
        return 2
    return 0
