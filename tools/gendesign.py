"""gendesign.py: DESIGN.md = tools/design.md with its tables filled in from the evidence of the last quick runs, the list of
harnesses and tools/caught.tsv (written by tools/seedcheck.py)."""
import json, os, subprocess, glob
V = '/verif'
s = open(V + '/tools/design.md').read()
rows = [l.rstrip('\n').split('\t') for l in open(V + '/tools/caught.tsv')]
rows = [r for r in rows if os.path.isdir(f'{V}/seeded/{r[0]}')]
byp = {}
for i, p, h in rows: byp.setdefault(p, []).append(f'{i[4:] if i.startswith(p.lower() + "-") else i} ({"**missed**" if h == "missed" else h})')
seeds = '| property | change (harness that reports it first) |\n|---|---|\n' + ''.join(f'| {p} | {", ".join(byp[p])} |\n' for p in sorted(byp))
cost = '| property | seconds | executions | operations checked | all bounds completed |\n|---|---|---|---|---|\n'
for f in sorted(glob.glob(V + '/evidence/C??.json')):
    e = json.load(open(f)); c = e['coverage']
    hs = c['harnesses']
    cost += f"| {e['property']} | {e['wall_s']:.0f} | {c['executions']:,} | {c['operations']:,} | {'yes' if all(h['complete'] for h in hs) else 'no'} |\n"
l = subprocess.run(['bash', V + '/run.sh', 'list'], capture_output=True, text=True).stdout
out, cur = '', ''
for line in l.split('\n'):
    p = line.split(None, 2)
    if len(p) < 2 or not (len(p[0]) == 3 and p[0][0] == 'C' and p[0][1:].isdigit()):
        if line.strip(): out = out.rstrip('\n') + ' ' + line.strip() + '\n'
        continue
    if p[0] != cur: cur = p[0]; out += f'\n**{cur}**\n\n'
    rest = line[line.index('thorough='):].split(' ', 1)
    out += f"* `{p[1]}`{' (thorough only)' if rest[0] == 'thorough=true' else ''}: {rest[1]}\n"
s = s.replace('@N@', str(len(os.listdir(V + '/seeded')))).replace('@SEEDS@', seeds).replace('@COST@', cost).replace('@LIST@', out)
open(V + '/DESIGN.md', 'w').write(s)
print(len(s), [w for w in ('@REF@', '@MUT@') if w in s])
