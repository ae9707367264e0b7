"""mkseed.py ID: reads a JSON spec on stdin {property, needs, what_it_breaks, edits:[[file,old,new],...], demo: text}; writes seeded/ID."""
import sys, json, os, subprocess
sid = sys.argv[1]
s = json.loads(sys.stdin.read(), strict=False) if len(sys.argv) < 3 else eval(open(sys.argv[2]).read())
d = f'/verif/seeded/{sid}'
os.makedirs(d, exist_ok=True)
assert not subprocess.check_output(['git', '-C', '/tmp/w', 'status', '--porcelain'])
try:
    for f, old, new, *occ in s['edits']:
        p = '/tmp/w/' + f
        t = open(p, encoding='latin1', newline='').read()
        if '\r\n' in t:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        assert t.count(old) == 1 or occ, (f, old, t.count(old))
        at = -1
        for _ in range(occ[0] if occ else 1):
            at = t.index(old, at + 1)
        open(p, 'w', encoding='latin1', newline='').write(t[:at] + new + t[at + len(old):])
    open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', '/tmp/w', 'diff']))
finally:
    subprocess.check_call(['git', '-C', '/tmp/w', 'checkout', '-q', '--', '.'])
open(d + '/demo.sh', 'w').write('#!/bin/bash\n' + s['demo'].lstrip('\n'))
for n, c in s.get('files', {}).items():
    open(os.path.join(d, n), 'w').write(c)
json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
