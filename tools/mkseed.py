"""mkseed.py FILE: FILE defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, what, demo)] -> seeded/<id>/"""
import json, os, shutil, subprocess, sys
ns = {}; exec(open(sys.argv[1]).read(), ns); R = os.environ.get('W','/repo')
only = sys.argv[2:]
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    d = '/verif/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
    assert not subprocess.run(['git', '-C', R, 'status', '--porcelain'], stdout=subprocess.PIPE).stdout
    for f, old, new, *n in s['edits']:
        p = R + '/' + f; t = open(p).read(); k = n[0] if n else None
        c = t.count(old)
        if k is None: assert c == 1, (s['id'], f, 'count', c, old); t = t.replace(old, new)
        elif k == 'all': assert c; t = t.replace(old, new)
        else:
            parts = t.split(old); assert len(parts) > k + 1; t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        open(p, 'w').write(t)
    diff = subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE).stdout
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
    open(d + '/demo.py', 'w').write('from kit import *\n' + s['demo'].strip() + '\n')
    shutil.copy('/verif/tools/kit.py', d + '/kit.py')
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
    print('made', s['id'])
