#!/usr/bin/env python3
"""mutate.py SEED N OUT CHECKS FILES...: plant N random one-line changes in FILES (relative to /repo), and log which check reports each.
Development tool: run it where /repo and /verif are private copies (mount namespaces). Survivors are what to look at."""
import sys, re, random, subprocess, os, json, time
seed, n, out, checks, files = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4].split(','), sys.argv[5:]
R = random.Random(seed)
COUNT = os.environ.get('MUT_COUNT', '1500')
def mutants(path):
    L = open(path).read().split('\n'); res = []
    comment = False
    for i, l in enumerate(L):
        s = l.strip()
        if s.startswith('/*'): comment = True
        if '*/' in s: comment = False
        if comment: continue
        if s.startswith('//') or s.startswith('#[') or s.startswith('use ') or 'assert' in s or not s: continue
        if s.startswith('mod tests') or s.startswith('#[cfg(test)]'): break
        def sub(pat, rep):
            for m in re.finditer(pat, l):
                if '//' in l[:m.start()]: continue
                t = l[:m.start()] + m.expand(rep) + l[m.end():]
                if t != l: res.append((i, t))
        sub(r'\btrue\b', 'false'); sub(r'\bfalse\b', 'true')
        sub(r' == ', ' != '); sub(r' != ', ' == ')
        sub(r' < ', ' <= '); sub(r' > ', ' >= '); sub(r' <= ', ' < '); sub(r' >= ', ' > ')
        sub(r' \+ 1\b', ''); sub(r' - 1\b', ''); sub(r' && ', ' || '); sub(r' \|\| ', ' && ')
        sub(r'if !', 'if '); sub(r'\bif (?!let|!)', 'if !')
        sub(r'\+= 1;', '+= 2;'); sub(r' \+= ', ' = ')
        sub(r'\b([2-9])\b', lambda m: str(int(m.group(1)) + 1)) if False else None
        sub(r', ([1-5])\)', r', 1\1)')
        sub(r'\.start\b', '.end'); sub(r'\.end\b', '.start')
        sub(r'Some\(([a-z_]+)\)(?=[,;)]|$)', 'None')
        if s.endswith(';') and not re.match(r'(let|return|use|type|const|static|pub|break|continue|\}|\)|\])', s) and s.count('(') == s.count(')') and '(' in s or re.match(r'[a-z_.]+ [+|&-]?= .*;$', s):
            res.append((i, l[:len(l)-len(l.lstrip())] + '{}'))
        if s == 'continue;' or s == 'break;': res.append((i, l.replace(s, '{}')))
    return L, res
allm = []
for f in files:
    L, ms = mutants('/repo/' + f)
    allm += [(f, i, t) for i, t in ms]
R.shuffle(allm)
log = open(out, 'a')
print(len(allm), 'candidates', file=log, flush=True)
done = 0
def sh(c, t=900, env={}): 
    try: return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, env={**os.environ, **env})
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, '', '')
for f, i, t in allm:
    if done >= n or os.path.exists('/verif/mut.stop'): break
    p = '/repo/' + f
    orig = open(p).read(); L = orig.split('\n'); old = L[i]; L[i] = t
    open(p, 'w').write('\n'.join(L))
    try:
        r = sh('/verif/check.sh build')
        if r.returncode != 0: continue
        if 'wolfram-parser' in f:
            if sh('bash /opt/vp/build.sh', 600).returncode != 0: continue
            sh('bash /opt/vp/test.sh /tmp/mut.%d.json' % seed, 300)
            b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/mut.%d.json' % seed))
            if set(b.get('passed') or b.get('stable') or b.get('tests')) - set(o['passed']): continue
        done += 1
        hit = ''
        for c in checks:
            r = sh('/verif/check.sh ' + c, 600, {'CPSIM_COUNT': COUNT, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
            if r.returncode == 1: hit = c; break
            if r.returncode != 0: hit += '(%s=%d)' % (c, r.returncode)
        print(f'{"KILLED " + hit if hit and "(" not in hit else "SURVIVED " + hit}\t{f}:{i+1}\t{old.strip()}\t=>\t{t.strip()}', file=log, flush=True)
    finally:
        open(p, 'w').write(orig)
