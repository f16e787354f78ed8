#!/usr/bin/env python3
"""mkseed.py SEEDS.py [ids]: writes /verif/seeded/<id>/ from the planted bugs described there (working copy: /repo, restored)."""
import sys, os, json, subprocess, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    d = f"/verif/seeded/{s['id']}"
    assert subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout == '', 'repo dirty'
    try:
        for f, old, new in s['edits']:
            p = '/repo/src/' + f
            t = open(p).read()
            assert t.count(old) >= 1, (s['id'], 'not found', old)
            assert t.count(old) == 1, (s['id'], 'ambiguous', t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
        # every removed line must be an original one
    finally:
        subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    os.makedirs(d, exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/main.rs','w').write(s['demo'].lstrip('\n'))
    shutil.copy('/verif/tools/demo.sh', d+'/demo.sh'); os.chmod(d+'/demo.sh', 0o755)
    for k in ('features','rustflags'):
        if k in s: open(f'{d}/{k}','w').write(s[k]+'\n')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d+'/meta.json','w'), indent=1, ensure_ascii=False)
    print('wrote', s['id'])
