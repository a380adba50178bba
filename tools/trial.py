#!/usr/bin/env python3
"""Runs the check of each planted bug's property against a scratch copy of /repo
with the bug applied: trial.py [-a] [ids]. With -a every check is run."""
import json, os, subprocess, sys, tempfile, shutil, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allchecks = '-a' in args
args = [a for a in args if a != '-a']
ids = args or sorted(os.listdir(VERIF + '/seeded'))
man = json.load(open(VERIF + '/MANIFEST.json'))
claims = [c['property'] for c in man['checks']] if 'checks' in man else []
gosym = subprocess.run(['bash', '-c', '. ./env.sh && build_engine && echo $GOSYM'], cwd=VERIF, stdout=subprocess.PIPE, text=True).stdout.split()[-1]
for i in ids:
    meta = json.load(open(f'{VERIF}/seeded/{i}/meta.json'))
    wt = tempfile.mkdtemp(prefix='trial')
    try:
        shutil.copytree('/repo', wt + '/repo', symlinks=True)
        os.mkdir(wt + '/verif')
        shutil.copytree(VERIF + '/harness', wt + '/verif/harness')
        shutil.copy(VERIF + '/known-findings.txt', wt + '/verif')
        subprocess.run(['git', 'apply', f'{VERIF}/seeded/{i}/patch.diff'], cwd=wt + '/repo', check=True)
        for p in (claims if allchecks else [meta['property']]):
            t = time.time()
            r = subprocess.run(['bash', '-c', f'. {VERIF}/env.sh; GOSYM_REPO={wt}/repo GOSYM_VERIF={wt}/verif timeout 900 {gosym} check -prop {p} -tier quick'], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            d = [l for l in r.stdout.splitlines() if 'natively' in l]
            print(f'{i} {p}: {"CAUGHT" if r.returncode == 1 and v else "missed"} rc={r.returncode} {time.time()-t:.0f}s {d[0].strip()[-150:] if d else r.stdout.strip()[-200:]}', flush=True)
    finally:
        shutil.rmtree(wt)
