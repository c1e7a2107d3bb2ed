#!/usr/bin/env python3
"""Mutation campaign against the checks, in a scratch copy (never in /repo).

mutate.py SCRATCH SEED COUNT [file-regex]
For every sampled mutant that compiles and passes the repository's tests, runs
the checks at a reduced size until one fires (all of them with MUT_ALL=1).
"""
import os, re, sys, random, subprocess, json, shutil, glob, time
scratch, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
pat = sys.argv[4] if len(sys.argv) > 4 else '.'
DIV = int(os.environ.get('MUT_DIV', '6'))
repo, ver = scratch + '/repo', scratch + '/verif'
os.makedirs(scratch, exist_ok=True)
orig = scratch + '/orig'
subprocess.run(['rm', '-rf', orig])
subprocess.run(['cp', '-a', '/repo', orig], check=True)
if not os.path.exists(repo):
    subprocess.run(['cp', '-a', '/repo', repo], check=True)
subprocess.run(['rm', '-rf', repo + '/src'])
subprocess.run(['cp', '-a', orig + '/src', repo + '/src'], check=True)
if not os.path.exists(ver):
    os.makedirs(ver)
    subprocess.run(['cp', '-a', '/verif/target', ver + '/target'])
for f in ('env.sh', 'check.sh', 'known-findings.txt'):
    shutil.copy('/verif/' + f, ver + '/' + f)
subprocess.run(['rm', '-rf', ver + '/harness'])
subprocess.run(['cp', '-a', '/verif/harness', ver + '/harness'], check=True)
t = open(ver + '/harness/Cargo.toml').read().replace('"/repo"', f'"{repo}"').replace('"../../repo"', f'"{repo}"')
open(ver + '/harness/Cargo.toml', 'w').write(t)
assert repo in t
sub = lambda a, b: (lambda l: [l[:m.start()] + m.expand(b) + l[m.end():] for m in re.finditer(a, l)])
OPS = [
 ('add->sub', sub(r' \+ ', ' - ')), ('sub->add', sub(r' - ', ' + ')), ('mul->add', sub(r'(?<=[\w)\]]) \* ', ' + ')),
 ('addassign', sub(r' \+= ', ' -= ')), ('mulassign', sub(r' \*= ', ' += ')), ('lead+', sub(r'^(\s*)\+ ', r'\1- ')), ('lead-', sub(r'^(\s*)- ', r'\1+ ')), ('lead*', sub(r'^(\s*)\* (?=[a-z(])', r'\1+ ')),
 ('eq', sub(r' == ', ' != ')), ('ne', sub(r' != ', ' == ')), ('ge', sub(r' >= ', ' > ')), ('lt', sub(r' < ', ' <= ')), ('gt', sub(r' > ', ' >= ')), ('or', sub(r'\|\| ', '&& ')), ('and', sub(r'&& ', '|| ')),
 ('next->curr', sub(r'Rotation::next\(\)', 'Rotation::curr()')), ('curr->next', sub(r'Rotation::curr\(\)', 'Rotation::next()')),
 ('plus->minus', sub(r'Sign::Plus\b(?! =>)', 'Sign::Minus')), ('minus->plus', sub(r'Sign::Minus\b(?! =>)', 'Sign::Plus')),
 ('one->zero', sub(r'F::one\(\)', 'F::zero()')), ('zero->one', sub(r'F::zero\(\)', 'F::one()')),
 ('int+1', sub(r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1))),
 ('int-1', sub(r'(?<![\w.])([1-9]\d*)(?![\w.])', lambda m: str(int(m.group(1)) - 1))),
 ('zk none', sub(r'Some\(zk_rng\)', 'None')), ('hide none', sub(r'Some\(1\)', 'None')),
 ('beta->gamma', sub(r'\bbeta\b(?!:)', 'gamma')), ('gamma->beta', sub(r'\bgamma\b(?!:)', 'beta')),
 ('neg', sub(r'(?<=[(\s|])-(?=[x*a-z])', '')), ('true', sub(r'\btrue\b', 'false')), ('false', sub(r'\bfalse\b', 'true')),
 ('if false', sub(r'\bif ([^{]*[^{ ]) \{', r'if false && (\1) {')), ('if true', sub(r'\bif (?!let)([^{]*[^{ ]) \{', r'if true || (\1) {')),
 ('swap ap', sub(r'\ba_prime', 's_prime')), ('swap sp', sub(r'\bs_prime', 'a_prime')),
 ('iter skip', sub(r'\.iter\(\)(?!\.enumerate)', '.iter().skip(1)')), ('iter rev', sub(r'\.iter\(\)\s*$', '.iter().rev()')),
 ('Fixed->Witness', sub(r'OracleType::Fixed\b(?! =>)', 'OracleType::Witness')),
]
# the lambda-based ones
def lam(a, f):
    return lambda l: [l[:m.start()] + f(m) + l[m.end():] for m in re.finditer(a, l)]
OPS = [o for o in OPS if not o[0].startswith('int')] + [
 ('int+1', lam(r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1))),
 ('int-1', lam(r'(?<![\w.])([1-9]\d*)(?![\w.])', lambda m: str(int(m.group(1)) - 1)))]
if os.environ.get('MUT_OPS') == 'cut':
    # changes that only show beyond a certain size
    OPS = [('iter take 6', sub(r'\.(iter|iter_mut|into_iter)\(\)(?!\.(rev|take|next|last|product::|position))', r'.\1().take(6)')),
           ('index 6', sub(r'\[(i|index|\*index|k|j)\]', r'[(\1) % 6]')),
           ('take 6', sub(r'\.take\(([a-z][\w.()]*)\)', r'.take((\1).min(6))')),
           ('pow', sub(r'\.pow\(\[([^\]]*)\]\)', r'.pow([(\1) % 16])'))]
SKIP = ('verif.rs', 'concrete_oracle.rs', 'precompiled/arith.rs', '/tests/', 'tests.rs', 'error.rs')
muts = []
for f in sorted(glob.glob(orig + '/src/**/*.rs', recursive=True)):
    rel = f[len(orig) + 1:]
    if any(s in rel for s in SKIP) or not re.search(pat, rel):
        continue
    lines = open(f).read().split('\n')
    depth = 0
    for i, l in enumerate(lines):
        if l.startswith('#[cfg(test)]'):
            break
        s = l.strip()
        if s.startswith('/*'): depth = 1
        if depth:
            if '*/' in s: depth = 0
            continue
        if not s or s.startswith(('//', 'use ', '#', 'pub const', 'fn ', 'pub fn')) or 'assert' in s:
            continue
        code = l.split('//')[0]
        for name, op in OPS:
            for k, n in enumerate(op(code)):
                if n != code:
                    muts.append((rel, i, name, k, [n]))
        if os.environ.get('MUT_OPS') == 'cut': continue
        # statement deletion: a statement that is no binding
        if re.match(r'\s*[\w.&*\[\]()]+(\.|\()?.*$', l) and not re.match(r'\s*(let|return|pub|impl|struct|enum|match|if|for|else|\}|\)|fn|where|type|mod|Ok|Err|Some|None)', l):
            j = i
            while j < min(i + 12, len(lines)) and not lines[j].rstrip().endswith((';', '{', '}')): j += 1
            blk = '\n'.join(lines[i:j + 1])
            if lines[j].rstrip().endswith(';') and blk.count('(') == blk.count(')') and blk.count('{') == blk.count('}') and (i == 0 or lines[i-1].rstrip().endswith((';', '{', '}', '')) ):
                if i and lines[i-1].rstrip().endswith((';', '{', '}')) or not lines[i-1].strip():
                    muts.append((rel, i, 'delete', j, None))
random.Random(seed).shuffle(muts)
print(len(muts), 'mutants in total', flush=True)
env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true')
def sh(cmd, cwd, e=env, t=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, ''
baseline = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if False else None
ids = {}
for b in glob.glob('/verif/harness/src/bin/*.rs'):
    for m in re.finditer(r'id: "(P\d\d)".*?quick: (\d+)', open(b).read(), re.S):
        ids[m.group(1)] = (os.path.basename(b)[:-3], int(m.group(2)))
out = open(scratch + f'/log-{seed}.jsonl', 'a')
def rec(**k):
    out.write(json.dumps(k) + '\n'); out.flush(); print(json.dumps(k), flush=True)
ORDER = ['P22', 'P21', 'P19', 'P18', 'P20', 'P01', 'P03', 'P02', 'P12']  # cheap and telling ones first
done = 0
for rel, i, name, k, n in muts:
    if done >= count: break
    src = open(orig + '/' + rel).read().split('\n')
    new = list(src)
    if name == 'delete':
        old = '\n'.join(src[i:k + 1]); new[i:k + 1] = ['' for _ in range(k + 1 - i)]; shown = '(deleted)'
    else:
        old = src[i]; new[i] = n[0]; shown = n[0].strip()
    open(repo + '/' + rel, 'w').write('\n'.join(new))
    base = dict(file=rel, line=i + 1, op=name, old=old.strip(), new=shown)
    try:
        rc, o = sh('timeout -k 5 180 cargo test --lib --offline 2>&1', repo, t=300)
        if rc == 101 and 'could not compile' in o:
            continue
        done += 1
        if rc != 0:
            rec(**base, tests='fail'); continue
        e2 = dict(env, VERIF_DIR=ver)
        rc, o = sh('. ./env.sh; cd harness && cargo build --offline --bins', ver, e2)
        if rc != 0:
            rec(**base, checks='nobuild', out=o[-300:]); continue
        fired = {}
        for p, (b, q) in sorted(ids.items(), key=lambda x: (ORDER.index(x[0]) if x[0] in ORDER else 99, x[0])):
            e3 = dict(e2, VERIF_CASES=str(max(40, q // DIV)), VERIF_CAP_S='60')
            rc, o = sh(f'target/debug/{b} {p} quick', ver, e3, 300)
            if rc != 0:
                m = re.search(r'  case \d+: (.*)', o)
                fired[p] = (m.group(1)[:90] if m else f'rc={rc}')
                if not os.environ.get('MUT_ALL'):
                    break
        rec(**base, fired=fired)
    finally:
        shutil.copy(orig + '/' + rel, repo + '/' + rel)
