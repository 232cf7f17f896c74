#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--check NAME]

Builds the harness against /repo's working tree, runs the generated checks of one
property on all cores, writes evidence/<property>.json.
Exit 0: held. Exit 1: violation (line VIOLATION property=... replay=...). Exit 2: the machinery failed."""
import argparse, atexit, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO') or '/repo'  # another tree only while developing the checks
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import overlay

# properties whose harness runs with third-party pauses shortened (see tools/overlay.py)
FAST_RETRY = {'C17', 'C18', 'C19', 'C26', 'C29', 'C33'}
FAST_POLL = {'C18', 'C19', 'C33'}
# divisors of seconds and minutes for the packages whose own pauses are shortened as well
CLOCK = {'C18': {'oracle': (1, 1200)}, 'C19': {'oracle': (1, 1200), '.': (4000, 4000)}, 'C33': {'oracle': (1, 1200), '.': (4000, 4000)}}
RACE = {'C28'}
NEEDS_MAIN = {'C19', 'C33'}
ASSUME = {
    '*': ['Generated search, not proof: inputs outside the generated domain (stated in DESIGN.md) are not covered.'],
}

def env_go():
    e = dict(os.environ)
    e.update(PATH='/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOTOOLCHAIN='local', GOFLAGS='-mod=mod',
             GOPROXY='off', GOSUMDB='off', CGO_ENABLED='1')
    e.setdefault('HOME', '/root')
    e.setdefault('GOCACHE', '/root/.cache/go-build')
    e.pop('GOROOT', None)
    e.pop('GOWORK', None)
    return e

def infra(msg):
    print('ERROR', msg, file=sys.stderr)
    sys.exit(2)

def build(prop, scratch, e):
    mod = os.path.join(scratch, 'go.mod')
    with open(mod, 'w') as f:
        f.write(open(os.path.join(VERIF, 'harness/go.mod')).read().replace('=> /repo', '=> ' + REPO))
    shutil.copy(os.path.join(VERIF, 'harness/go.sum'), os.path.join(scratch, 'go.sum'))
    out = os.path.join(scratch, 'props.test')
    args = ['go', 'test', '-c', '-vet=off', '-modfile', mod, '-o', out]
    ov = []
    if prop in FAST_RETRY | FAST_POLL:
        try:
            ov = ['-overlay', overlay.make(REPO, scratch, e, prop in FAST_POLL, CLOCK.get(prop))]
        except (OSError, RuntimeError) as x:
            infra(str(x))
    if prop in RACE:
        args += ['-race']
    r = subprocess.run(args + ov + ['./props'], cwd=os.path.join(VERIF, 'harness'), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        infra('the harness does not build:\n' + r.stdout[-6000:])
    if prop in NEEDS_MAIN:
        binp = os.path.join(scratch, 'oracle-bin')
        r = subprocess.run(['go', 'build', '-buildvcs=false', '-o', binp] + ov + ['.'], cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            infra('the oracle does not build:\n' + r.stdout[-6000:])
        e['VERIF_BIN'] = binp
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--check', default='')
    ap.add_argument('--scale', default=os.environ.get('VERIF_SCALE') or '100')
    ap.add_argument('--shards', type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % a.prop, dir='/tmp')
    procs = []

    def clean():
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
    atexit.register(clean)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    e = env_go()
    e['VERIF_TMP'] = scratch
    e['VERIF_KNOWN'] = os.path.join(VERIF, 'known_findings.txt')
    binp = build(a.prop, scratch, e)
    t_build = time.time() - t0
    e.update(VERIF_PROP=a.prop, VERIF_CHECK=a.check, VERIF_SEED=str(seed), VERIF_TIER=a.tier, VERIF_SCALE=a.scale)

    if a.replay:
        if a.prop in RACE:
            e['GORACE'] = 'halt_on_error=1 exitcode=66'
        e['VERIF_REPLAY'] = os.path.abspath(a.replay)
        r = subprocess.run([binp, '-test.run', 'TestReplay', '-test.v'], cwd=scratch, env=e)
        if r.returncode == 0:
            print('property %s holds on the replayed case' % a.prop)
            sys.exit(0)
        if r.returncode in ((1, 2, 66) if a.prop in RACE else (1,)):
            print('VIOLATION property=%s replay=%s' % (a.prop, e['VERIF_REPLAY']))
            sys.exit(1)
        infra('replay ended with %d' % r.returncode)

    def start(i):
        d = os.path.join(scratch, 's%d' % i)
        os.makedirs(d)
        ee = dict(e, VERIF_SHARD=str(i), VERIF_SHARDS=str(a.shards), VERIF_STATS=os.path.join(d, 'stats.json'),
                  VERIF_REPLAY_OUT=os.path.join(d, 'replay.json'), VERIF_TMP=d, TMPDIR=d, GOMAXPROCS=e.get('GOMAXPROCS', '2'))
        if a.prop in RACE:
            ee['GORACE'] = 'halt_on_error=1 exitcode=66 log_path=' + os.path.join(d, 'race')
            ee['GOMAXPROCS'] = '4'
            ee['VERIF_PENDING'] = os.path.join(d, 'pending.json')
        out = open(os.path.join(d, 'out'), 'w')
        p = subprocess.Popen([binp, '-test.run', 'TestProp', '-test.timeout', '0'], cwd=d, env=ee, stdout=out, stderr=subprocess.STDOUT, start_new_session=True)
        procs.append(p)
        return d, p
    runs = [start(i) for i in range(a.shards)]
    # a check has 900 s: a quick run that is not done by then gives no answer
    limit = t0 + (840 if a.tier == 'quick' else 6 * 3600)
    timed_out = False
    for d, p in runs:
        try:
            p.wait(timeout=max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            timed_out = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    evals, nth, samples, rules, classes, known, failed, broken = 0, set(), [], [], {}, [], [], []
    cases = {}
    for d, p in runs:
        txt = open(os.path.join(d, 'out'), errors='replace').read()
        for l in txt.splitlines():
            l = l.strip()
            if l.startswith('KNOWN-FINDING:') and l not in known:
                known.append(l)
        st = os.path.join(d, 'stats.json')
        if os.path.exists(st):
            for r in json.load(open(st)) or []:
                evals += r['evals']
                cases[r['check']] = cases.get(r['check'], 0) + r['cases']
                nth.update(r['check'] + h for h in r['nt_hashes'] or [])
                rule = '%s: %s' % (r['check'], r['rule'])
                if rule not in rules:
                    rules.append(rule)
                for k, v in r['classes'].items():
                    classes[r['check'] + '/' + k] = classes.get(r['check'] + '/' + k, 0) + v
                for s in r['samples'] or []:
                    if sum(1 for x in samples if x['check'] == r['check']) < 2:
                        samples.append({'check': r['check'], 'case': s})
        rp = os.path.join(d, 'replay.json')
        if p.returncode == 0:
            continue
        pend = os.path.join(d, 'pending.json')
        if p.returncode in (2, 66) and os.path.exists(pend) and not os.path.exists(rp):
            why = ''.join(open(os.path.join(d, f), errors='replace').read() for f in sorted(os.listdir(d)) if f.startswith('race.')) or txt
            rep = json.load(open(pend))
            rep['error'] = 'the process did not survive the case:\n' + why[:6000]
            json.dump(rep, open(rp, 'w'), indent=1)
        if p.returncode in (1, 2, 66) and os.path.exists(rp):
            failed.append((d, rp, txt))
        else:
            broken.append((d, p.returncode, txt))
    wall = time.time() - t0
    ev = {
        'property': a.prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(nth),
            'rule': 'Cases are drawn by the named generators; a case counts as non-trivial by the rule of its check. ' + ' | '.join(rules),
            'samples': samples, 'generated_cases': cases, 'classes': dict(sorted(classes.items())),
            'shards': a.shards, 'build_s': round(t_build, 1),
        },
        'assumptions': ASSUME.get(a.prop, []) + ASSUME['*'],
        'wall_s': round(wall, 1), 'violations': len(failed),
    }
    evdir = os.path.join(VERIF, 'evidence') if REPO == '/repo' else '/tmp/verif-dev-evidence'
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in known:
        print(l)
    if failed:
        d, rp, txt = min(failed, key=lambda x: os.path.getsize(x[1]))
        rep = json.load(open(rp))
        rdir = os.path.join(evdir, 'replays')
        os.makedirs(rdir, exist_ok=True)
        dst = os.path.join(rdir, '%s-%s-%d.json' % (a.prop, rep['check'], seed))
        shutil.copy(rp, dst)
        print('check %s/%s failed: %s' % (a.prop, rep['check'], rep['error'][:4000]))
        print('VIOLATION property=%s replay=%s' % (a.prop, dst))
        sys.exit(1)
    if broken or timed_out:
        for d, rc, txt in broken:
            print('shard %s ended with %s:\n%s' % (d, rc, txt[-3000:]), file=sys.stderr)
        infra('timed out' if timed_out else 'shards failed without a verdict')
    print('property %s held: %d cases, %d evaluations, %d distinct non-trivial, %.1f s' % (a.prop, sum(cases.values()), evals, len(nth), wall))

main()
