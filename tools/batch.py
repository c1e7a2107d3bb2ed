#!/usr/bin/env python3
"""batch.py BUGS.py [NAME..]: applies hand-written candidate bugs one after another in a scratch
copy, runs the repository's tests and, when they pass, the check of the property the bug is meant
for and (when that one is quiet) all others. BUGS = [(name, property, [(file, old, new)..])..]"""
import os, re, subprocess, sys, shutil, glob, importlib.util, json
S = os.environ.get('SCRATCH', '/tmp/bt'); repo, ver = S + '/repo', S + '/verif'
env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', VERIF_SEED='1')
def sh(cmd, cwd, e=env, t=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, ''
os.makedirs(S, exist_ok=True)
if not os.path.isdir(repo): sh(f'cp -a /repo {repo}', '/')
if not os.path.isdir(ver): sh(f'mkdir {ver} && cp -a /verif/target {ver}/target', '/')
sh(f'rm -rf {ver}/harness && cp -a /verif/harness {ver}/ && cp /verif/env.sh /verif/check.sh /verif/known-findings.txt {ver}/', '/')
sh(f"""sed -i 's#"/repo"#"{repo}"#; s#"../../repo"#"{repo}"#' {ver}/harness/Cargo.toml""", '/')
spec = importlib.util.spec_from_file_location('b', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
ids = sorted({x for b in glob.glob('/verif/harness/src/bin/*.rs') for x in re.findall(r'id: "(P\d\d)"', open(b).read())})
for name, prop, edits in m.BUGS:
    if sys.argv[2:] and name not in sys.argv[2:]: continue
    sh(f'rm -rf {repo}/src && cp -a /repo/src {repo}/src', '/')
    bad = None
    for f, old, new, *k in edits:
        p = f'{repo}/src/{f}'; s = open(p).read()
        if s.count(old) < 1: bad = f'{f}: text not found: {old[:60]!r}'; break
        if s.count(old) > 1 and not k: bad = f'{f}: {s.count(old)} matches: {old[:60]!r}'; break
        if k and k[0] != 'all':
            i = -1
            for _ in range(k[0]): i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        else: s = s.replace(old, new)
        open(p, 'w').write(s)
    if bad: print(name, prop, 'EDIT', bad, flush=True); continue
    rc, o = sh('timeout -k 5 200 cargo test --lib --offline 2>&1', repo, t=300)
    if rc:
        e = re.search(r'^error.*', o, re.M); t = re.findall(r'^test (\S+) \.\.\. FAILED', o, re.M)
        print(name, prop, 'TESTS', (e and e.group(0)[:150]) if 'could not compile' in o else t[:4], flush=True); continue
    e2 = dict(env, VERIF_DIR=ver)
    rc, o = sh('./check.sh build', ver, e2)
    if rc: print(name, prop, 'NOBUILD', o[-300:], flush=True); continue
    fired = []
    for p in [prop] + [x for x in ids if x != prop and not os.environ.get('NOOTHERS')]:
        rc, o = sh(f'./check.sh {p} quick', ver, e2, 400)
        if rc:
            mm = re.search(r'  case \d+: (.*)', o); fired.append((p, rc, mm.group(1)[:110] if mm else o[-150:]))
            if p == prop or len(fired) > 1: break
    print(name, prop, 'CAUGHT' if fired and fired[0][0] == prop else 'OTHER' if fired else 'MISSED', fired, flush=True)
