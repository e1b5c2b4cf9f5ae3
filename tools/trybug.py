"""Runs the check of the property of each planted bug named with the bug applied to a scratch clone of /repo."""
import json, os, subprocess, sys, shutil, re, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/trybug-%d' % os.getpid()
rp = V + '/tools/bugresults.json'
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
subprocess.check_call(['git', 'clone', '-q', '/repo', W])
try:
    for i in ids:
        d = V + '/seeded/' + i
        prop = json.load(open(d + '/meta.json'))['property']
        subprocess.check_call(['git', '-C', W, 'apply', d + '/patch.diff'])
        t = time.time()
        try:
            p = subprocess.run(['python3', V + '/check.py', prop, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=W))
        finally:
            subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
        vio = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        obs = re.findall(r'^failed obligation: (.*?): ', p.stdout, re.M)
        inp = len(re.findall(r'^failing input: ', p.stdout, re.M))
        res = json.load(open(rp)) if os.path.exists(rp) else {}
        parts = []
        if obs:
            parts.append('obligation of `%s`' % '`, `'.join(sorted(set(obs))[:3]))
        if inp:
            parts.append('failing input (bounded)')
        res[i] = prop + ': ' + (' + '.join(parts) if parts and p.returncode == 1 else 'MISSED')
        json.dump(res, open(rp, 'w'), indent=1, sort_keys=True)
        print(i, 'rc', p.returncode, '%ds' % (time.time() - t), res[i], flush=True)
finally:
    shutil.rmtree(W)
