#!/usr/bin/env python3
"""plant.py [ID...]: (re)creates /verif/seeded/<ID> from the definitions in tools/bugs/*.py and validates each one:
the change applies to /repo's HEAD, touches lines of the original repository, builds, passes the existing tests, and its
demonstration passes without it and fails with it. With --check the registered quick check is run against it as well."""
import glob, json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')

DEMO = '''#!/bin/bash
# Runs the demonstration as a package that exists in an overlay only. Run with /repo as the working directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
printf '{"Replace":{"%s/zzseed/demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -c -vet=off RACE-o "$tmp/demo.test" -overlay "$tmp/overlay.json" ./zzseed || exit 3
cd "$tmp" && timeout 200 ./demo.test -test.count=1 -test.timeout 180s
'''

BUGS = []


def bug(id, prop, edits, demo, needs, breaks, imports=(), race=False):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, imports=imports, race=race))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def demo_source(b):
    known = {'vf': 'github.com/lyraproj/dgo/vf', 'tf': 'github.com/lyraproj/dgo/tf', 'typ': 'github.com/lyraproj/dgo/typ', 'dgo': 'github.com/lyraproj/dgo/dgo',
             'streamer': 'github.com/lyraproj/dgo/streamer', 'pcore': 'github.com/lyraproj/dgo/streamer/pcore', 'loader': 'github.com/lyraproj/dgo/loader',
             'util': 'github.com/lyraproj/dgo/util', 'math': 'math', 'reflect': 'reflect', 'regexp': 'regexp', 'strings': 'strings', 'fmt': 'fmt', 'sync': 'sync',
             'bytes': 'bytes', 'errors': 'errors', 'time': 'time', 'big': 'math/big', 'sort': 'sort', 'parser': 'github.com/lyraproj/dgo/parser',
             'stringer': 'github.com/lyraproj/dgo/stringer', 'runtime': 'runtime', 'strconv': 'strconv'}
    used = [p for n, p in known.items() if re.search(r'\b%s\.' % n, b['demo'])]
    body = b['demo']
    if not body.lstrip().startswith('func Test'):
        body = 'func TestDemo(t *testing.T) {\n' + body + '\n}\n'
    return 'package zzseed\n\nimport (\n\t"testing"\n' + ''.join('\t"%s"\n' % p for p in sorted(used)) + ')\n\n' + body


def make(b, check):
    w = tempfile.mkdtemp(prefix='plant-')
    try:
        c = os.path.join(w, 'repo')
        shutil.copytree('/repo', c, symlinks=True)
        sh(['git', 'checkout', '-q', '--', '.'], c)
        base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], c).stdout.strip()
        for path, old, new in b['edits']:
            f = os.path.join(c, path)
            s = open(f).read()
            if s.count(old) != 1:
                return 'edit of %s: the text occurs %d times: %s' % (path, s.count(old), old)
            open(f, 'w').write(s.replace(old, new))
        r = sh(['gofmt', '-l'] + [e[0] for e in b['edits']], c)
        if r.stdout.strip():
            return 'gofmt: ' + r.stdout
        patch = sh(['git', 'diff'], c).stdout
        # which lines does it remove, and are some of them original?
        orig = 0
        for path in sorted(set(e[0] for e in b['edits'])):
            bl = sh(['git', 'blame', '-s', '-l', 'HEAD', '--', path], c).stdout.splitlines()
            for m in re.finditer(r'(?m)^@@ -(\d+)(?:,(\d+))? ', sh(['git', 'diff', '-U0', '--', path], c).stdout):
                a, n = int(m.group(1)), int(m.group(2) or '1')
                lines = [bl[i - 1].split()[0].lstrip('^') for i in range(a, a + n)]
                orig += sum(1 for l in lines if base.startswith(l[:30]))
                if any(not base.startswith(l[:30]) for l in lines):
                    return 'changes a line of %s that is not original, near %d' % (path, a)
        if orig == 0:
            return 'changes no original line'
        d = os.path.join(w, 'demo')
        os.makedirs(d)
        open(os.path.join(d, 'demo_test.go'), 'w').write(demo_source(b))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO.replace('RACE', '-race ' if b['race'] else ''))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        r = sh(['gofmt', '-l', '.'], d)
        if 'demo' in r.stdout and sh(['gofmt', '-w', 'demo_test.go'], d).returncode:
            return 'demo gofmt'
        r = sh(['go', 'build', './...'], c)
        if r.returncode:
            return 'does not build: ' + r.stdout
        r = sh(['go', 'test', '-vet=off', '-count=1', '-timeout', '60s', './...'], c)
        if r.returncode:
            return 'existing tests fail: ' + '\n'.join(l for l in r.stdout.splitlines() if not re.match(r'ok|\?|.*no test files', l))[:1500]
        r = sh(['bash', os.path.join(d, 'demo.sh')], c)
        if r.returncode == 0:
            return 'the demonstration passes with the change'
        if r.returncode == 3:
            return 'demo: ' + r.stdout[:1500]
        failed = r.stdout
        sh(['git', 'checkout', '-q', '--', '.'], c)
        r = sh(['bash', os.path.join(d, 'demo.sh')], c)
        if r.returncode:
            return 'the demonstration fails without the change: ' + r.stdout[:1500]
        t = os.path.join(VERIF, 'seeded', b['id'])
        os.makedirs(t, exist_ok=True)
        open(os.path.join(t, 'patch.diff'), 'w').write(patch)
        for f in os.listdir(d):
            shutil.copy(os.path.join(d, f), os.path.join(t, f))
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(t, 'meta.json'), 'w'), indent=1)
        if check:
            try:
                r = sh(['git', 'apply', os.path.join(t, 'patch.diff')], '/repo')
                if r.returncode:
                    return 'does not apply: ' + r.stdout
                r = sh(['python3', 'check.py', b['prop'], '--tier', 'quick'], VERIF)
            finally:
                sh(['git', 'checkout', '-q', '--', '.'], '/repo')
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + b['prop'])]
            return ('caught' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode) + '   [demo: %s]' % ' '.join(re.findall(r'demo_test.go:\d+: (.*)', failed)[:1])[:120]
        return 'valid'
    finally:
        shutil.rmtree(w)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    for f in sorted(glob.glob(os.path.join(HERE, 'bugs', '*.py'))):
        exec(compile(open(f).read(), f, 'exec'), {'bug': bug})
    ids = [b['id'] for b in BUGS]
    assert len(ids) == len(set(ids)), 'duplicate ids'
    for b in BUGS:
        if not args or any(re.fullmatch(a, b['id']) for a in args):
            print('%-28s %s %s' % (b['id'], b['prop'], make(b, '--check' in sys.argv)), flush=True)


main()
