"""seedcheck.py [tier [id...]]: runs the check of each planted bug's property against a copy of /repo with the bug in
it, and notes the verdict and the first harness to report in tools/caught.tsv (the table in DESIGN.md). A development
aid: no registered check reads seeded/ or this file's output."""
import sys, os, json, subprocess, time, shutil
D = '/verif/seeded'
tier = sys.argv[1] if len(sys.argv) > 1 else 'quick'
ids = sys.argv[2:] or sorted(os.listdir(D))
R, V = '/tmp/sc_repo', '/tmp/sc_verif'
T = '/verif/tools/caught.tsv'
def sh(c, cwd='/'): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
rows = dict(l.rstrip('\n').split('\t', 1) for l in open(T)) if os.path.exists(T) else {}
for x in (R, V): shutil.rmtree(x, ignore_errors=True)
sh(f'cp -a /repo {R}; mkdir {V}; cp -a /verif/run.sh /verif/mc /verif/known_findings.txt /verif/properties.jsonl /verif/MANIFEST.json {V}/; mkdir {V}/evidence')
sh(f"grep -rl '/repo' {V} | xargs sed -i 's#/repo\\b#{R}#g'")
for i in ids:
    m = json.load(open(f'{D}/{i}/meta.json'))
    a = sh(f'git apply {D}/{i}/patch.diff', R)
    if a.returncode: print(i, 'does not apply', a.stderr[:200]); continue
    t = time.time()
    r = sh(f'timeout 900 bash {V}/run.sh {m["property"]} {tier}', V)
    sh('git checkout -- .', R)
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION property=' + m['property'])]
    h = 'missed'
    if r.returncode == 1 and v: h = v[0].split('replay-' + m['property'] + '-')[1].rsplit('.json', 1)[0]
    rows[i] = m['property'] + '\t' + h
    print(i, rows[i], '%.0fs' % (time.time() - t), flush=True)
    open(T, 'w').write(''.join(f'{k}\t{rows[k]}\n' for k in sorted(rows)))
for x in (R, V): shutil.rmtree(x, ignore_errors=True)
