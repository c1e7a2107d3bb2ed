#!/usr/bin/env python3
"""mkseed.py FILE.py: builds /verif/seeded/<id> from a description (ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO)."""
import sys, os, subprocess, json, shutil
S = os.environ.get('SCRATCH', '/tmp/sw')
for f in sys.argv[1:]:
    d = {}
    exec(open(f).read(), d)
    out = '/verif/seeded/' + d['ID']
    os.makedirs(out, exist_ok=True)
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=S + '/repo', check=True)
    subprocess.run('rm -rf src && cp -a /repo/src src', shell=True, cwd=S + '/repo', check=True)
    for e in d['EDITS']:
        file, old, new = e[:3]
        n = e[3] if len(e) > 3 else 1
        p = S + '/repo/src/' + file
        t = open(p).read()
        assert t.count(old) == n, (d['ID'], file, old, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=S + '/repo', capture_output=True, text=True, check=True).stdout
    open(out + '/patch.diff', 'w').write(diff)
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=S + '/repo', check=True)
    open(out + '/demo.rs', 'w').write('use crate::kit::*;\n' + d['DEMO'])
    shutil.copy('/tmp/kit/kit.rs', out); shutil.copy('/tmp/kit/demo.sh', out)
    if d.get('RUSTFLAGS'):
        p = out + '/demo.sh'; t = open(p).read()
        assert 'unset RUSTFLAGS' in t
        open(p, 'w').write(t.replace('unset RUSTFLAGS', "export RUSTFLAGS='%s'" % d['RUSTFLAGS']))
    json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    print(out)
