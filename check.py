#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the generated-input checks of one property against /repo's current working tree and runs them.
Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it is broken. Exit 2: no answer."""
import argparse, base64, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, 'harness')
RACE = {'P19', 'P20', 'P21', 'P29'}          # properties whose tests are (also) built with the race detector
LIMIT = {'quick': 600, 'thorough': 860}


def env():
    e = dict(os.environ)
    e['PATH'] = '/opt/veriftools/go1.27.3/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOSUMDB='off', GOWORK='off')
    e.setdefault('HOME', '/root')
    return e


def build(out, race):
    # The module files are copied so that the go command can never rewrite the committed ones
    mod = os.path.join(os.path.dirname(out), 'go.mod')
    for f in ('go.mod', 'go.sum'):
        shutil.copy(os.path.join(HARNESS, f), os.path.join(os.path.dirname(out), f))
    cmd = ['go', 'test', '-modfile', mod, '-vet=off', '-c', '-o', out] + (['-race'] if race else []) + ['./props']
    p = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        print(p.stdout)
        print('ERROR: the checks do not build against /repo')
        sys.exit(2)


def known_findings(prop):
    keys, lines = [], {}
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for ln in open(path):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', ln)
            if m and m.group(1) == prop:
                keys.append(m.group(2))
                lines[m.group(2)] = m.group(3).strip()
    return keys, lines


def limit_memory():
    # Code that runs away is stopped before it exhausts the machine. The checks need less than a tenth of this.
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def run(binary, prop, seed, tier, keys, work, extra, limit, race=False):
    e = env()
    stats = os.path.join(work, 'stats.json')
    if os.path.exists(stats):
        os.remove(stats)
    e.update(VERIF_STATS=stats, VERIF_KNOWN=','.join(keys), VERIF_TIER=tier, VERIF_SEED=str(seed), GORACE='halt_on_error=0 exitcode=66',
             TMPDIR=work, VERIF_JOURNAL=os.path.join(work, 'journal.txt'))
    cwd = os.path.join(work, 'cwd')
    shutil.rmtree(cwd, ignore_errors=True)
    os.makedirs(cwd)
    cmd = [binary, '-test.run', '^Test%s_' % prop, '-test.timeout', '0', '-rapid.seed', str(seed),
           '-rapid.shrinktime', '20s'] + extra
    log = os.path.join(work, 'log.txt')
    with open(log, 'w') as lf:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True,
                             preexec_fn=None if race else limit_memory)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 'timeout'
    out = open(log, errors='replace').read()
    journal = os.path.join(work, 'journal.txt')
    if os.path.exists(journal):
        if rc != 0:
            out = 'LAST CASE: ' + open(journal, errors='replace').read() + out
        os.remove(journal)
    st = None
    if os.path.exists(stats):
        st = json.load(open(stats))
    fails = []
    for f in glob.glob(os.path.join(cwd, 'testdata', 'rapid', '**', '*.fail'), recursive=True):
        fails.append({'test': os.path.basename(os.path.dirname(f)), 'data': base64.b64encode(open(f, 'rb').read()).decode()})
    return rc, out, st, fails


FATAL = [r'fatal error: stack overflow', r'fatal error: (runtime: )?(out of memory|cannot allocate memory)', r'goroutine stack exceeds', r'fatal error: concurrent map', r'WARNING: DATA RACE',
         r'fatal error: all goroutines are asleep - deadlock', r'fatal error: sync: ', r'fatal error: sync:']


def verdict(rc, out):
    """ok, violation or error"""
    if rc == 'timeout':
        return 'error'
    if rc == 0:
        return 'ok'
    if rc in (-9, -15, 3):
        return 'error'
    if re.search(r'(?m)^\s*--- FAIL: Test', out):
        # A complaint by the library about the generators is not a verdict about the code
        bad = re.findall(r'only generated \d+ valid tests', out)
        if bad and not re.search(r'failed after \d+ tests|panic after \d+ tests|\[verif\]|DATA RACE|flaky test', out):
            return 'error'
        return 'violation'
    for f in FATAL:
        if re.search(f, out):
            return 'violation'
    return 'error'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.seed is None:
        try:
            a.seed = int(os.environ.get('VERIF_SEED') or '1')
        except ValueError:
            a.seed = int(hashlib.sha256(os.environ['VERIF_SEED'].encode()).hexdigest()[:12], 16)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = a.seed
    rseed = seed & 0x7fffffffffffffff
    if rseed == 0:
        rseed = 0x5eed0000
    started = time.time()
    keys, lines = known_findings(a.prop)
    work = tempfile.mkdtemp(prefix='verif-%s-' % a.prop)
    try:
        modes = [False, True] if a.prop in RACE else [False]
        total = None
        for race in modes:
            binary = os.path.join(work, 'props.race' if race else 'props.test')
            build(binary, race)
            extra = []
            todo = [extra]
            if a.replay:
                rp = json.load(open(a.replay))
                if rp.get('race', False) != race:
                    continue
                tier, rseed = rp['tier'], rp['rapid_seed']
                todo = []
                for i, f in enumerate(rp['fails']):
                    ff = os.path.join(work, 'replay-%d.fail' % i)
                    open(ff, 'wb').write(base64.b64decode(f['data']))
                    todo.append(['-test.run', '^%s$' % f['test'], '-rapid.failfile', ff])
                todo = todo or [[]]
            for extra in todo:
                left = LIMIT[tier] - (time.time() - started)
                rc, out, st, fails = run(binary, a.prop, rseed, tier, keys, work, extra, max(left, 30), race)
                v = verdict(rc, out)
                tail = out if len(out) < 12000 else out[:8000] + '\n...\n' + out[-4000:]
                if v != 'ok' or a.replay:
                    print(tail)
                if v == 'error' or (v == 'ok' and st is None):
                    print('ERROR: no answer for %s (exit %s)' % (a.prop, rc))
                    sys.exit(2)
                if st is not None:
                    if total is None:
                        total = st
                    else:
                        for k in ('evaluations', 'discarded', 'nontrivial', 'distinct_nontrivial'):
                            total[k] += st[k]
                        for k, n in st['classes'].items():
                            total['classes']['race:' + k] = n
                        total['rules'] += [r for r in (st['rules'] or []) if r not in total['rules']]
                        total['known'] = sorted(set(total['known'] or []) | set(st['known'] or []))
                if v == 'violation':
                    replay = a.replay
                    if not replay:
                        rd = os.path.join(HERE, 'replay')
                        os.makedirs(rd, exist_ok=True)
                        replay = os.path.join(rd, '%s-%s-%d.json' % (a.prop, tier, seed))
                        json.dump({'property': a.prop, 'tier': tier, 'seed': seed, 'rapid_seed': rseed, 'race': race, 'fails': fails,
                                   'how': 'python3 check.py %s --replay FILE' % a.prop, 'log': tail}, open(replay, 'w'), indent=1)
                    evidence(a.prop, tier, seed, total, started, 1)
                    print('VIOLATION property=%s replay=%s' % (a.prop, replay))
                    sys.exit(1)
        if a.replay:
            print('replay: no violation')
            sys.exit(0)
        for k in total.get('known') or []:
            key = k.split(':', 1)[0]
            print('KNOWN-FINDING: property=%s %s' % (a.prop, lines.get(key, k)))
        evidence(a.prop, tier, seed, total, started, 0)
        print('OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs' % (
            a.prop, tier, seed, total['evaluations'], total['distinct_nontrivial'], time.time() - started))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def evidence(prop, tier, seed, st, started, violations):
    st = st or {'evaluations': 0, 'discarded': 0, 'distinct_nontrivial': 0, 'rules': [], 'samples': [], 'classes': {}, 'known': []}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': st['evaluations'], 'distinct_nontrivial': st['distinct_nontrivial'],
                       'rule': ' | '.join(st['rules'] or ['']), 'samples': st['samples'] or [],
                       'discarded': st['discarded'], 'classes': st['classes'], 'known_findings_seen': st['known'] or []},
          'assumptions': ['rapid v1.3.0 generators and shrinking; every random choice derives from VERIF_SEED',
                          'absence of failure is evidence for the explored cases only'],
          'wall_s': round(time.time() - started, 2), 'violations': violations}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % prop)
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(d, prop + '.json'))


if __name__ == '__main__':
    main()
