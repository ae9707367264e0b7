"""C18: values, their encodings and their order in the real database layer against Values.tla."""
import vf, dbl
from vf import scale

TEXT = ['a', 'b', 'A', 'é', '\x01', ' ', '_', 'ÿ', '0']


def text(rng, pool):
    r = rng.random()
    if r < .35 and pool:
        return rng.choice(pool)
    if r < .6 and pool:   # a close relative
        s = rng.choice(pool)
        k = rng.random()
        if k < .3:
            s = s + rng.choice(TEXT).encode()
        elif k < .5:
            s = s[:-1]
        elif k < .8 and s:
            j = rng.randrange(len(s))
            s = s[:j] + bytes([rng.choice([97, 98, 99, 65, 200])]) + s[j + 1:]
        else:
            s = s[::-1]
    else:
        n = rng.choice([0, 1, 2, 3, 6, 7, 8, 9, 15, 16, 23, 24, 29, 30, 31, 32, 33, 34, 39, 40, 41, 63, 64, 65, 100, 256, 1000])
        s = ''.join(rng.choice(TEXT) for _ in range(n)).encode()[:n]
    s = s.replace(b'\0', b'x')
    pool.append(s)
    return s


def value(rng, pool, ep):
    t = rng.choice(['int', 'int', 'dbl', 'str', 'str', 'str', 'uri', 'uri', 'uri', 'xml', 'blob', 'char', 'fix', 'date', 'time', 'var', 'null'])
    ext = '_'
    v = {'t': t, 'ext': ext, 'small': False, 'long': False, 'len': 0}
    if t == 'int':
        e = rng.choice([0, 1, -1, 2, 5, 255, 1000, 2**29, 2**30, 2**31 - 1, 2**31, 2**32, 2**35, 2**58, 2**59, 2**60, 2**61, 2**62, 2**63 - 1])
        n = max(-2**63, min(2**63 - 1, rng.choice([e, -e, e + rng.choice([-1, 1, 0, 2, -2])])))
        v.update(val=str(n), key=n, cmd=f'E i {n}', small=-2**28 <= n < 2**28)
    elif t == 'dbl':
        x = rng.choice([0.0, 1.5, -2.25, 1e300, -1e-300, 3.14159265358979, rng.uniform(-1e6, 1e6), 1e15, 2.0, 123456789.125])
        v.update(val='%.17g' % x, key=x, cmd='E d %.17g' % x)
    elif t == 'char':
        n = rng.randint(1, 126)
        v.update(val=str(n), key=n, cmd=f'E c {n}')
    elif t == 'fix':
        n = rng.randint(-7999999, 7999999)
        n = rng.choice([n, 0, 10000, 15000, -1, 1, n // 10000 * 10000])
        x = n / 10000
        v.update(val='%.4f' % x, key=n, cmd='E f %.4f' % x)
    elif t in ('date', 'time'):
        n = rng.choice([1, 2, 100, rng.randint(1, 700000), rng.randint(1, 8639999 if t == 'time' else 3000000)])
        v.update(val=str(n), key=n, cmd=f'E {"D" if t == "date" else "T"} {n}')
    elif t == 'var':
        n = rng.choice([0, 1, 2, 3, rng.randint(0, 5000), rng.randint(0, 2**24)])
        v.update(val=str(n), key=n, cmd=f'E v {n}')
    elif t == 'null':
        v.update(val='null', key=0, cmd='E n')
    else:
        s = text(rng, pool)
        e = None
        if t in ('xml', 'blob') or rng.random() < (.4 if t == 'uri' else .3):
            e = rng.choice(ep) if rng.random() < .7 else text(rng, ep)
            if not e:
                e = b'x'
        if t == 'blob':
            if rng.random() < .5:
                j = rng.randint(0, len(s))
                s = s[:j] + b'\0' + s[j:]
            if not s:
                s = b'\0'
        v.update(val=s.hex(), key=(e or b'', s) if t in ('uri', 'xml') else s, long=len(s) >= 32, ext=e.hex() if e is not None else '_')
        if t == 'str':
            v['key'] = s
        v['len'] = len(s)
        v['cmd'] = f'E {dict(str="s", uri="u", xml="x", blob="b")[t]} {s.hex() or "-"} {v["ext"]}'
    return v


def go(ck):
    rng = ck.rng
    vf.build_harness('dbh')
    jobs = []
    for j in range(scale(400, 900)):
        pool, ep = [], [b'en', b'et', b'http://www.example.org/a#', b'x' * 40]
        vals, ops = [], []
        n = rng.randint(60, 140)
        nkb = rng.randint(10, 60) if rng.random() < .4 else 0
        for k in range(n):
            if k == nkb and nkb:
                ops.append('Z 4000000')
            if vals and rng.random() < .25:
                w = rng.choice(vals)
                v = dict(w)
            else:
                v = value(rng, pool, ep)
            vals.append(v)
            ops.append(v['cmd'])
            if rng.random() < .3:
                ops.append(f'G {rng.randrange(len(vals))}')
            for _ in range(2):
                ops.append(f'M {rng.randrange(len(vals))} {rng.randrange(len(vals))}')
        ops += [f'G {k}' for k in range(n)]
        byt = {}
        for v in vals:
            byt.setdefault(v['t'], set()).add(v['key'])
        rank = {t: {x: r for r, x in enumerate(sorted(s))} for t, s in byt.items()}
        for v in vals:
            v['rk'] = rank[v['t']][v['key']]
        jobs.append((ops, vals))
    res = vf.pmap(lambda j: dbl.run_script(j[0]), jobs)
    cases = []
    for (ops, vals), (r, ev) in zip(jobs, res):
        if r.rc != 0 or len(ev) != len(ops) + 1 or any(e['op'] == 'garbled' for e in ev):
            ck.violation(f'the run ended abnormally (rc {r.rc}) after {len(ev)} of {len(ops)} operations', {'ops': ops, 'out': r.out[-300:]})
            continue
        for v in vals:
            ck.count('type ' + v['t'])
        cases.append({'ev': [{k: v for k, v in e.items() if k != 'dummy'} for e in ev[1:]],
                      'values': [{k: v for k, v in v.items() if k not in ('key', 'cmd')} for v in vals], 'ops': ops})
    enc = [{k: v for k, v in c.items() if k != 'ops'} for c in cases]
    bad, st = vf.tlc_cases('Values', enc)
    ck.add_stats(st, len(cases))
    ck.sample({'ops': cases[0]['ops'][:12], 'events': cases[0]['ev'][:4]})
    for i, invs in sorted(bad.items()):
        ck.violation(f'{sorted(invs)} violated by a history of encodings', {'ops': cases[i]['ops'], 'events': cases[i]['ev']})


vf.main(go, 'C18')
