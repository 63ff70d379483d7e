#!/usr/bin/env python3
"""Runs the check of one property: builds harnesses from the repository's working
tree, runs them in parallel shards, and turns what their monitors saw into a verdict.

usage: check.py ID [--tier quick|thorough] [--seed N] [--jobs N] [--scale F]
exit: 0 held, 1 violated (VIOLATION line), 2 the check itself could not run."""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.dont_write_bytecode = True
import build as B
from config import CHECKS

HANG_S = float(os.environ.get('VERIF_HANG_S', '90'))
MAX_CRASHES = 4


def san_env(variant, tmp):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(('VERIF_', 'ASAN_', 'UBSAN_', 'TSAN_', 'LSAN_')):
            del e[k]
    e['LC_ALL'] = 'C'
    e['TMPDIR'] = tmp
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:exitcode=66:symbolize=1:strict_string_checks=1:malloc_context_size=12:quarantine_size_mb=64:check_initialization_order=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=66'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4'
    e['LSAN_OPTIONS'] = 'report_objects=1:print_suppressions=0'
    return e


def big_stack():
    import ctypes
    import resource
    try:  # ThreadSanitizer needs the memory layout without randomisation
        ctypes.CDLL(None).personality(0x0040000)
    except (OSError, AttributeError):
        pass
    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    want = 512 << 20
    if hard != resource.RLIM_INFINITY:
        want = min(want, hard)
    resource.setrlimit(resource.RLIMIT_STACK, (want, hard))


def crash_key(rc, err):
    m = re.search(r'SUMMARY: (\w+): (.+)', err)
    frames = re.findall(r'#\d+ 0x[0-9a-f]+ in (.+?) (/\S+)', err)
    fn = ''
    for name, where in frames:
        if '/repo' in where or 'dreal' in where or 'ThreadPool' in where:
            fn = re.sub(r'\(.*', '', name)
            break
    if m and m.group(1) == 'ThreadSanitizer':
        return 'tsan:' + re.sub(r'\s+\S*/', ' ', m.group(2)).split(' in ')[0].split(' ')[0] + ' ' + (m.group(2).split(' in ')[-1] if ' in ' in m.group(2) else '')
    if m and m.group(1) in ('AddressSanitizer', 'LeakSanitizer'):
        return 'asan:' + m.group(2).split(' ')[0] + (':' + fn if fn else '')
    m2 = re.search(r'runtime error: (.+)', err)
    if m2:
        return 'ubsan:' + re.sub(r'0x[0-9a-f]+', 'ADDR', re.sub(r'-?\d[\d.e+-]*', 'N', m2.group(1)))[:100] + (':' + fn if fn else '')
    m3 = re.search(r"(?:DREAL_ASSERT|DREAL_DEMAND|[Aa]ssertion|ERROR|abort)[^\n]*", err)
    # assertion text without addresses or line numbers
    for line in err.splitlines():
        if 'failed' in line or 'condition' in line or 'Should not be reachable' in line or 'unreachable' in line.lower():
            return 'abort:' + re.sub(r'/\S*/', '', re.sub(r':\d+', '', line)).strip()[:160]
    if 'terminate called' in err:
        w = re.search(r'what\(\):\s*(.*)', err)
        return 'terminate:' + (w.group(1)[:100] if w else '')
    if rc < 0:
        return 'signal:' + signal.Signals(-rc).name
    return 'exit:%d' % rc


class Shard:
    def __init__(self, run, idx, n, start, tmp, seed, tier, cases):
        self.run, self.idx, self.n, self.start = run, idx, n, start
        self.tmp, self.seed, self.tier, self.cases = tmp, seed, tier, cases
        self.crashes = 0
        self.k = 0
        self.outs = []

    def cmd(self, start, out, journal):
        r = self.run
        return [r['path'], '--prop', r['part'], '--tier', self.tier, '--seed', str(self.seed), '--cases', str(self.cases),
                '--start', str(start), '--shard', str(self.idx), '--shards', str(self.n), '--out', out, '--journal', journal]

    def launch(self, start):
        self.k += 1
        tag = '%s.%s.%d.%d' % (os.path.basename(self.run['path']), self.run['part'], self.idx, self.k)
        self.out = os.path.join(self.tmp, tag + '.json')
        self.journal = os.path.join(self.tmp, tag + '.journal')
        self.errf = os.path.join(self.tmp, tag + '.err')
        self.outs.append(self.out)
        wd = os.path.join(self.tmp, tag + '.wd')
        os.makedirs(wd, exist_ok=True)
        open(self.journal, 'w').close()
        self.p = subprocess.Popen(self.cmd(start, self.out, self.journal), stdout=subprocess.DEVNULL, stderr=open(self.errf, 'wb'), stdin=subprocess.DEVNULL,
                                  env=san_env(self.run['variant'], wd), cwd=wd, start_new_session=True, preexec_fn=big_stack)
        self.t0 = time.time()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def journal_case(self):
        try:
            d = open(self.journal, 'rb').read().rstrip(b'\0').decode('utf8', 'replace')
            a, _, b = d.partition('\n')
            return int(a), b
        except (OSError, ValueError):
            return None, ''

    def last_progress(self):
        try:
            return max(self.t0, os.stat(self.journal).st_mtime)
        except OSError:
            return self.t0


def read_err(path, n=200000):
    try:
        with open(path, 'rb') as f:
            return f.read(n).decode('utf8', 'replace')
    except OSError:
        return ''


def run_all(runs, seed, tier, jobs, tmp, scale, budget):
    """Runs every shard of every part; returns (merged outputs, violations)."""
    pend = []
    for r in runs:
        cases = max(1, int(r['cases'] * scale))
        par = r.get('shards', jobs)
        n = max(1, min(par, cases))
        for i in range(n):
            pend.append(Shard(r, i, n, 0, tmp, seed, tier, cases))
    active, done, viol = [], [], []
    fatal = []
    width = lambda s: s.run.get('weight', 1)
    t_end = time.time() + budget
    truncated = False
    while pend or active:
        while pend and (not active or sum(width(s) for s in active) + width(pend[0]) <= jobs):
            s = pend.pop(0)
            s.launch(s.start)
            active.append(s)
        time.sleep(0.05)
        now = time.time()
        for s in list(active):
            rc = s.p.poll()
            hang = s.run.get('hang', HANG_S)
            if rc is None and now > t_end:
                s.kill(); active.remove(s); done.append(s); truncated = True
                continue
            if rc is None and now - s.last_progress() > hang:
                s.kill()
                case, desc = s.journal_case()
                key = None
                if case is not None:
                    # confirm alone, with a fresh and longer limit
                    c2 = [s.run['path'], '--prop', s.run['part'], '--tier', tier, '--seed', str(seed), '--case', str(case)]
                    try:
                        q = subprocess.run(c2, env=san_env(s.run['variant'], tmp), cwd=tmp, timeout=hang * 1.5, stdin=subprocess.DEVNULL,
                                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    except subprocess.TimeoutExpired:
                        key = 'hang'
                if key:
                    viol.append(dict(key='hang', what='no progress for %ds (twice): %s' % (hang, desc), case=case, run=s.run))
                active.remove(s)
                if case is None or s.crashes >= 1:
                    done.append(s)
                else:
                    s.crashes += 1
                    s.start = case + 1
                    pend.insert(0, s)
                t_end += hang * 2
                continue
            if rc is None:
                continue
            active.remove(s)
            if rc == 0:
                done.append(s)
                continue
            err = read_err(s.errf)
            if rc == 3:
                fatal.append(err[-2000:])
                done.append(s)
                continue
            case, desc = s.journal_case()
            if rc == -9:
                fatal.append('killed (out of memory?) at case %s: %s' % (case, desc))
                done.append(s)
                continue
            viol.append(dict(key='crash:' + crash_key(rc, err), what='%s\n%s' % (desc, err[:6000]), case=case if case is not None else -1, run=s.run))
            s.crashes += 1
            if case is None or s.crashes > MAX_CRASHES:
                done.append(s)
            else:
                s.start = case + 1
                pend.insert(0, s)
    merged = dict(evaluations=0, counters={}, samples=[], distinct=set(), cases=0)
    for s in done:
        for o in s.outs:
            if not os.path.exists(o):
                continue
            d = json.load(open(o, encoding='utf8', errors='replace'))
            merged['evaluations'] += d['evaluations']
            for k, v in d['counters'].items():
                merged['counters'][k] = merged['counters'].get(k, 0) + v
            merged['samples'] += d['samples'][:3]
            merged['distinct'].update(d['distinct'])
            for v in d['violations']:
                viol.append(dict(key=v['key'], what=v['what'], case=v['case'], run=s.run))
    return merged, viol, fatal, truncated


def known_findings():
    out = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if not os.path.exists(p):
        return out
    for line in open(p):
        m = re.match(r'known: property=(\S+) key=(.*?) \| (.*)$', line.strip())
        if m:
            out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS') or min(8, os.cpu_count() or 4)))
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    cfg = CHECKS[a.id]
    try:
        paths = B.build(sorted(set((r['bin'], r['variant'], r.get('kind', 'core')) for r in cfg['runs'])), verbose=a.verbose)
    except B.BuildError as e:
        print('ERROR: %s: the harness or the sources do not build' % e)
        return 2
    tb = time.time() - t0
    runs = []
    for r in cfg['runs']:
        r = dict(r)
        r['path'] = paths[(r['bin'], r['variant'])]
        r.setdefault('part', a.id)
        r['cases'] = r['cases'][1 if a.tier == 'thorough' else 0]
        if r['cases']:
            runs.append(r)
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % a.id)
    budget = cfg.get('budget', (600, 5400))[1 if a.tier == 'thorough' else 0]
    try:
        merged, viol, fatal, truncated = run_all(runs, a.seed, a.tier, a.jobs, tmp, a.scale, budget)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    kf = known_findings()
    fresh, seen_known, seen = [], {}, set()
    for v in viol:
        if (a.id, v['key']) in kf:
            seen_known.setdefault(v['key'], v)
            continue
        if v['key'] in seen:
            continue
        seen.add(v['key'])
        fresh.append(v)
    wall = time.time() - t0
    cov = dict(evaluations=merged['evaluations'], distinct_nontrivial=len(merged['distinct']), rule=cfg['rule'], samples=merged['samples'][:8],
               monitors=merged['counters'], variants=sorted(set(r['variant'] for r in runs)), build_s=round(tb, 1))
    if truncated:
        cov['truncated'] = 'time budget reached; counts are what was run'
    ev = dict(property=a.id, tier='thorough' if a.tier == 'thorough' else 'quick', seed=a.seed, level=cfg.get('level', 'exploration'), coverage=cov,
              assumptions=cfg.get('assumptions', []), wall_s=round(wall, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for key, what in kf.items():
        if key[0] == a.id:
            print('KNOWN-FINDING: property=%s %s%s' % (a.id, what, '' if key[1] in seen_known else ' (not reached by this run)'))
    if fresh:
        d = os.path.join(VERIF, '.replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, a.id + '.txt')
        with open(path, 'w') as f:
            for v in fresh:
                f.write('key: %s\nseed: %d tier: %s case: %s\nreplay: %s --prop %s --tier %s --seed %d --case %s\n%s\n\n' % (
                    v['key'], a.seed, a.tier, v['case'], v['run']['path'], v['run']['part'], a.tier, a.seed, v['case'], v['what']))
        for v in fresh[:6]:
            print('  [%s] case %s: %s' % (v['key'], v['case'], v['what'].replace('\n', '\n    ')[:1500]))
        print('VIOLATION property=%s replay=%s' % (a.id, path))
        return 1
    if fatal:
        print('ERROR: ' + '\n'.join(fatal)[:3000])
        return 2
    if merged['evaluations'] == 0 or len(merged['distinct']) < cfg.get('min_distinct', 2):
        print('ERROR: the monitors observed nothing (%d evaluations, %d distinct)' % (merged['evaluations'], len(merged['distinct'])))
        return 2
    print('ok property=%s evaluations=%d distinct=%d build=%.1fs wall=%.1fs' % (a.id, merged['evaluations'], len(merged['distinct']), tb, wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
