#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property on /repo's current source:
 1. gvc verifies every contract tagged with the property (deciding step),
 2. the bounded harness of the property runs the real code against an
    independent oracle: it stands in for functions outside the verifier's
    reach and searches a concrete failing input for a failed obligation.
Exit 0: held. Exit 1: VIOLATION line printed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')

def env():
    e = dict(os.environ)
    e.update(HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GONOSUMDB='*', GONOSUMCHECK='1', GOSUMDB='off')
    e.setdefault('GOCACHE', '/root/.cache/go-build')
    return e

def run(cmd, timeout, cwd=None, extra=None):
    e = env()
    e.update(extra or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as ex:
        return 124, (ex.stdout or b'').decode('utf-8', 'replace') + '\n[timed out after %ds]' % timeout

def build_gvc():
    out = os.path.join(V, 'bin', 'gvc')
    os.makedirs(os.path.dirname(out), exist_ok=True)
    rc, o = run(['go', 'build', '-o', out + '.%d' % os.getpid(), '.'], 600, cwd=os.path.join(V, 'gvc'))
    if rc == 0:
        os.replace(out + '.%d' % os.getpid(), out)
    return rc == 0, out, o

def overlay(prop, scratch):
    """Overlay placing the harness of a property inside the module."""
    rep = {}
    base = os.path.join(V, 'harness')
    for d in ['hz', 'pz', 'rz', prop.lower()]:
        p = os.path.join(base, d)
        if not os.path.isdir(p):
            continue
        for f in sorted(os.listdir(p)):
            if f.endswith('.go'):
                rep['%s/internal/zverif/%s/%s' % (REPO, d, f)] = os.path.join(p, f)
            elif f.endswith('.shim'):
                # NAME: internal__pkg__file.go.shim
                rep['%s/%s' % (REPO, f[:-5].replace('__', '/'))] = os.path.join(p, f)
    path = os.path.join(scratch, 'overlay.json')
    json.dump({'Replace': rep}, open(path, 'w'))
    return path

def known_findings(prop):
    out = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'^known: property=(\S+) key=(.*?) :: (.*)$', line.rstrip('\n'))
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        return check(prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def check(prop, tier, seed, t0, scratch):
    meta = json.load(open(os.path.join(V, 'checks.json')))[prop]
    os.makedirs(os.path.join(V, 'evidence', 'replay'), exist_ok=True)
    violations = []   # (replay name, has input)
    notes = []

    # ---- harness build in parallel with the proof ----
    hdir = os.path.join(V, 'harness', prop.lower())
    hbin = None
    hproc = None
    if os.path.isdir(hdir):
        ov = overlay(prop, scratch)
        hbin = os.path.join(scratch, 'harness')
        hproc = subprocess.Popen(['go', 'build', '-overlay', ov, '-o', hbin, './internal/zverif/' + prop.lower()],
                                 cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

    # ---- bounded part, while the proof runs ----
    box = {'hz': None}
    stop = os.path.join(scratch, 'stop')
    known = known_findings(prop)

    def bounded():
        hz = None
        if hproc is not None:
            bo = hproc.communicate()[0].decode('utf-8', 'replace')
            if hproc.returncode != 0:
                notes.append('harness does not build against the current source: ' + bo[-1500:])
                print('note: bounded harness not built:\n' + bo[-1500:])
            else:
                hrep = os.path.join(scratch, 'hz.json')
                hw = os.path.join(scratch, 'w')
                os.makedirs(hw)
                os.chmod(scratch, 0o755)
                limit = 200 if tier == 'quick' else 1200
                rc, o = run([hbin, '-tier', tier, '-seed', str(seed), '-out', hrep, '-limit', str(limit)], limit + 120, cwd=hw,
                            extra={'TMPDIR': hw, 'ZVERIF_REPO': REPO, 'ZVERIF_DIR': hdir})
                if os.path.exists(hrep):
                    hz = json.load(open(hrep))
                else:
                    # the code under test ended the process
                    hz = {'evaluations': 0, 'distinct_nontrivial': 0, 'bounds': [], 'samples': [], 'num_failures': 1,
                          'failures': [{'key': 'harness run ends abnormally', 'what': 'the code under test panics or does not finish', 'input': None, 'want': 'normal end', 'got': o[-3000:]}]}
                if o.strip():
                    print(o.strip()[-3000:])
        box['hz'] = hz
        if hz and [f for f in hz.get('failures') or [] if not [k for k in known if k[0] == f['key']]]:
            open(stop, 'w').close()   # the verdict is settled: no retries of undecided obligations

    th = threading.Thread(target=bounded)
    th.start()

    # ---- proof ----
    gv = None
    if meta.get('proof', True):
        ok, gvc, o = build_gvc()
        if not ok:
            print('internal: gvc does not build\n' + o)
            th.join()
            return 2
        rep = os.path.join(scratch, 'gvc.json')
        tmo = 30 if tier == 'quick' else 120
        rc, o = run([gvc, '-specs', os.path.join(V, 'contracts'), '-props', prop, '-out', rep, '-timeout', str(tmo), '-repo', REPO], 780 if tier == 'quick' else 3000, extra={'GVC_STOPFILE': stop})
        print(o.strip())
        if os.path.exists(rep):
            gv = json.load(open(rep))
            if not gv.get('functions'):
                print('internal: no contract belongs to ' + prop)
                th.join()
                return 2
        else:
            gv = {'functions': [], 'lemmas': [], 'obligations': 1, 'discharged': 0, 'error': o[-4000:]}
    failed = []
    if gv is not None:
        if 'error' in gv:
            failed.append({'func': prop, 'name': 'the current source can be loaded and verified', 'result': 'error', 'detail': gv['error']})
        for f in (gv.get('functions') or []) + (gv.get('lemmas') or []):
            for d in f.get('failed') or []:
                failed.append(dict(d, func=f['func']))

    th.join()
    hz = box['hz']

    hit = set()
    newf = []
    if hz:
        for f in hz.get('failures') or []:
            m = [k for k in known if k[0] == f['key']]
            if m:
                hit.add(m[0])
            else:
                newf.append(f)
    kob = []
    for d in list(failed):
        name = d['func'] + ' / ' + d['name']
        m = [k for k in known if k[0] == 'obligation ' + name]
        if m:
            hit.add(m[0])
            kob.append(name)
            failed.remove(d)
    for k in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, k[1]))

    if newf or failed:
        n = 0
        replay = os.path.join(V, 'evidence', 'replay', '%s.json' % prop)
        json.dump({'property': prop, 'tier': tier, 'seed': seed,
                   'failed_obligations': [{k: v for k, v in d.items() if k != 'script'} for d in failed],
                   'failing_inputs': newf,
                   'how_to_replay': 'check.py %s reruns the deterministic bounded harness (harness/%s) on the real code; each failing input lists what was called, what the property requires and what the code did' % (prop, prop.lower()),
                   'smt': {('%s / %s' % (d['func'], d['name']))[:200]: d.get('script', '')[:100000] for d in failed[:3]}},
                  open(replay, 'w'), indent=1)
        for d in failed[:10]:
            print('failed obligation: %s: %s [%s] %s' % (d['func'], d['name'], d.get('result'), str(d.get('detail', ''))[:200]))
        for f in newf[:10]:
            print('failing input: %s | want %s | got %s' % (f['key'], str(f['want'])[:300], str(f['got'])[:300]))
        violations.append(replay)
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if newf else ' no-failing-input-found'))

    write_evidence(prop, tier, seed, t0, meta, gv, hz, len(failed) + len(newf), notes, known, hit)
    return 1 if violations else 0

def write_evidence(prop, tier, seed, t0, meta, gv, hz, nviol, notes, known, hit):
    assumptions = list(meta.get('assumptions', []))
    cov = {}
    if gv:
        fns = [f for f in gv.get('functions') or []]
        trusted = []
        trusted += ['assumed contract of a dependency: ' + e for e in gv.get('externs_used') or []]
        trusted += ['axiom: ' + e for e in gv.get('axioms_used') or []]
        trusted += ['trusted contract: ' + e for e in gv.get('trusted') or []]
        trusted += ['assumption in a contract: ' + e for e in gv.get('assumed') or []]
        trusted += ['gvc (VC generator in /verif/gvc), golang.org/x/tools/go/ssa, z3 5.3.2, z3 4.8.12, cvc5 1.1.2']
        trusted += ['machine integers treated as mathematical integers (range facts for sized types assumed, overflow not modelled)',
                    'input slices start at index 0 of their backing array and do not partially overlap',
                    'no concurrent mutation of the data a function under contract reads']
        cov = {'obligations': gv.get('obligations', 0), 'discharged': gv.get('discharged', 0),
               'checker_cmd': 'gvc -specs /verif/contracts -props %s -repo /repo' % prop,
               'trusted_base': trusted,
               'functions_under_contract': [f['func'] for f in fns],
               'functions_inlined_into_callers': gv.get('inlined') or [],
               'lemmas': [f['func'] for f in gv.get('lemmas') or []],
               'discharged_by': gv.get('by_solver') or {},
               'solver_queries': gv.get('queries', 0), 'solver_s': round((gv.get('solver_ms') or 0) / 1000.0, 1),
               'vacuity_checks': gv.get('covers', 0)}
    if hz:
        cov['bounded'] = {'label': 'BOUNDED, not counted as proved', 'evaluations': hz.get('evaluations'), 'distinct_nontrivial': hz.get('distinct_nontrivial'),
                          'bounds': hz.get('bounds'), 'rules': hz.get('rules'), 'samples': hz.get('samples')}
        cov['evaluations'] = max(1, hz.get('evaluations') or 0)
        cov['distinct_nontrivial'] = hz.get('distinct_nontrivial') or 0
        cov['rule'] = meta.get('rule', 'inputs are enumerated or drawn by the harness; distinct counts pairs of (sub-rule, input) that are not trivial (empty)')
        cov['samples'] = hz.get('samples') or []
    cov['explanation'] = meta.get('explanation', '')
    if notes:
        cov['notes'] = notes
    if hit:
        cov['known_findings'] = [k[1] for k in sorted(hit)]
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': meta.get('level', 'proof'),
          'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    p = os.path.join(V, 'evidence', '%s.json' % prop)
    json.dump(ev, open(p + '.tmp', 'w'), indent=1)
    os.replace(p + '.tmp', p)

if __name__ == '__main__':
    sys.exit(main())
