"""Driving the database layer harness."""
import json
import vf


def run_script(lines, size=4000000, timeout=60):
    h = vf.build_harness('dbh')
    r = vf.run_cmd([h, str(size)], inp=('\n'.join(lines) + '\n').encode(), timeout=timeout)
    ev = []
    for l in r.out.splitlines():
        if l.startswith('{'):
            try:
                ev.append(json.loads(l))
            except ValueError:
                ev.append({'op': 'garbled'})
    return r, ev
