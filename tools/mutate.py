#!/usr/bin/env python3
"""mutate.py FILE CHECKS [N] [SEED] — single-line mutants of a source file of /repo against checks, in scratch
copies under /tmp/mut. CHECKS is a comma list; DB stands for C21..C30 in one program. Prints the survivors."""
import sys, os, re, random, subprocess, shutil, json
f, checks = sys.argv[1], sys.argv[2].split(',')
n = int(sys.argv[3]) if len(sys.argv) > 3 else 1000
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
only = os.environ.get('ONLY')
W = '/tmp/mut/%d' % os.getpid()
os.makedirs(W)
subprocess.check_call(['git', 'clone', '-q', '/repo', W + '/repo'])
shutil.copytree('/verif', W + '/verif', ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded'))
p = W + '/verif/harness/go.mod'
s = open(p).read().replace('=> /repo', '=> ' + W + '/repo'); open(p, 'w').write(s)
p = W + '/verif/harness/dbt/main.go'
s = open(p).read()
s = s[:s.index('func Main')] + '''func Main() {
	remember()
	for _, p := range []string{"C24", "C21", "C30", "C22", "C23", "C29", "C26", "C25", "C27", "C28"} {
		s := pbt.NewSession(p)
		Props[p](s)
		if c := s.Finish(); c != 0 {
			os.Exit(c)
		}
	}
}
'''
open(p, 'w').write(s)
src = open('/repo/' + f).read().split('\n')
OPS = [(r'==', '!='), (r'!=', '=='), (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r'&&', '||'), (r'\|\|', '&&'),
       (r'\+ ?1\b', '+ 0'), (r'- ?1\b', '- 0'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'return err$', 'return nil'), (r'> 0\b', '> 1'),
       (r'i := 0', 'i := 1'), (r'\[1:\]', '[0:]'), (r'\[0\]', '[1]'), ('" AND ', '" OR '), (r' DESC"', ' ASC"'), (r' ASC"', ' DESC"'), (r'" = "', '" <> "'), (r'!(?=[a-z(])', ''),
       (r'\bcontinue$', 'break'), (r'\bbreak$', 'continue'), (r', nil$', ', err'), (r'WHERE', 'HAVING'), (r'\b64\b', '32'), (r'if (.*) \{$', r'if true || \1 {'), (r'if (.*) \{$', r'if false && \1 {'), (r"'([^'\\])'", r"'~'")]
muts = []
for i, l in enumerate(src):
    st = l.strip()
    if not st or st.startswith('//') or st.startswith('{{') or st.startswith('import') or st.startswith('"') and 'github.com' in st: continue
    for a, b in OPS:
        for m in re.finditer(a, l):
            t = l[:m.start()] + m.expand(b) + l[m.end():]
            if t != l: muts.append((i, t))
    if not re.search(r'[{(,]$|^[})]|:=|^(case|default|func|type|var|package|else|return)\b|^\w+:', st) and (l.startswith('\t')):
        muts.append((i, ''))
random.Random(seed).shuffle(muts)
if only:
    a, b = map(int, only.split('-')); muts = [m for m in muts if a <= m[0] + 1 <= b]
muts = muts[:n]
stats = dict(killed=0, nobuild=0, survived=0)
by = {}
env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', TMPDIR=W)
for i, t in muts:
    x = src[:]; x[i] = t
    open(W + '/repo/' + f, 'w').write('\n'.join(x))
    res = 'survived'
    for c in checks:
        c0 = 'C21' if c == 'DB' else c
        r = subprocess.run('timeout 600 bash run.sh ' + c0, shell=True, cwd=W + '/verif', env=env, capture_output=True, text=True, errors='replace')
        if r.returncode == 0: continue
        out = r.stdout + r.stderr
        if 'does not build' in out or 'does not compile' in out and c == 'DB' or 'refuses the models' in out: res = 'nobuild' if 'refuses' not in out else 'killed'
        else: res = 'killed'
        m = re.search(r'property=(C\d+)', out)
        if res == 'killed': by[m.group(1) if m else '%s rc%d' % (c, r.returncode)] = by.get(m.group(1) if m else '%s rc%d' % (c, r.returncode), 0) + 1
        break
    stats[res] += 1
    if res == 'survived': print('SURVIVED %s:%d\n  - %s\n  + %s' % (f, i + 1, src[i].strip(), t.strip()), flush=True)
print(stats, by, flush=True)
shutil.rmtree(W)
