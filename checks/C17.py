"""C17: allocator histories of the real database layer against Alloc.tla."""
import vf, dbl
from vf import scale

FIX = {2: 'listcell', 3: 'shortstr', 4: 'word', 5: 'doubleword', 6: 'tnode'}


def history(rng, n, rounds):
    """A script of operations; handles are numbered by successful allocations."""
    prof = rng.choice(['small', 'mixed', 'big', 'same', 'edge'])

    def size():
        if prof == 'small':
            return rng.randint(1, 12)
        if prof == 'same':
            return rng.choice(same)
        if prof == 'edge':
            return rng.choice([28, 29, 30, 31, 32, 33, 34, 36, 60, 63, 64, 65, 127, 128, 129, 4, 5, 8])
        if prof == 'big':
            return rng.choice([rng.randint(20, 80), rng.randint(80, 400), rng.randint(1, 10)])
        return rng.choice([rng.randint(1, 12), rng.randint(10, 40), rng.randint(30, 130)])
    same = [rng.randint(4, 70) for _ in range(rng.randint(1, 4))]
    ops = []
    live = []
    h = 0
    marks = []

    def one_round(script):
        nonlocal h
        base = h
        m = {}
        for o in script:
            if o[0] in 'ARX':
                m[o[2]] = h
                h += 1
                ops.append(f'{o[0]} {o[1]}')
            elif o[0] == 'F':
                ops.append(f'F {m[o[1]]}')
            else:
                ops.append(o[0])
    lab = 0
    script = []
    live = []
    for _ in range(n):
        r = rng.random()
        grow = .62 if len(live) < 40 else .4
        if r < grow or not live:
            kind = rng.random()
            if kind < .62:
                script.append(('A', size(), lab))
            elif kind < .85:
                script.append(('R', rng.randint(0, 9) if rng.random() < .7 else rng.randint(10, 100), lab))
            else:
                script.append(('X', rng.choice(list(FIX)), lab))
            live.append(lab)
            lab += 1
        else:
            k = rng.choice([0, len(live) - 1, rng.randrange(len(live)), rng.randrange(len(live))])
            script.append(('F', live.pop(k)))
            if rng.random() < .25:
                script.append(('C',))
            if rng.random() < .1:
                script.append(('S',))
    if rounds > 1:
        rng.shuffle(live)
        script += [('F', x) for x in live]
    script += [('C',), ('S',)]
    for _ in range(rounds):
        one_round(script)
        marks.append(len(ops))
    return ops, marks if rounds > 1 else []


def go(ck):
    rng = ck.rng
    vf.build_harness('dbh')
    jobs = []
    for j in range(scale(500, 1500)):
        mode = rng.random()
        if mode < .5:
            ops, marks = history(rng, rng.randint(60, 260), 1)
            size = 4000000
        elif mode < .75:
            ops, marks = history(rng, rng.randint(30, 60), 6)
            size = 4000000
        else:   # a segment that runs out of space
            ops, marks = history(rng, rng.randint(150, 260), 1)
            ops = [('A %d' % (int(o[2:]) * 40) if o[0] == 'A' else o) for o in ops]
            size = rng.choice([450000, 700000, 1000000])
        jobs.append((ops, marks, size))
    res = vf.pmap(lambda j: dbl.run_script(j[0], j[2]), jobs)
    cases = []
    for (ops, marks, size), (r, ev) in zip(jobs, res):
        if r.rc != 0 or len(ev) != len(ops) + 1:
            ck.violation(f'the allocator run ended abnormally (rc {r.rc}) after {len(ev)} of {len(ops)} operations: {r.out[-200:]!r}',
                         {'ops': ops, 'size': size, 'rc': r.rc})
            continue
        out = []
        for o, e in zip(ops, ev[1:]):
            if e['op'] == 'alloc':
                e['kind'] = 0 if o[0] == 'A' else 1 if o[0] == 'R' else int(o[2:])
                ck.count('alloc_fail' if not e['off'] else 'alloc')
            else:
                ck.count(e['op'])
            out.append(e)
        cases.append({'ev': out, 'free': ev[0]['free'], 'size': ev[0]['size'], 'head': 1000, 'slack': 9000, 'marks': marks, 'ops': ops})
    enc = [{k: v for k, v in c.items() if k != 'ops'} for c in cases]
    bad, st = vf.tlc_cases('Alloc', enc)
    ck.add_stats(st, len(cases))
    ck.sample({'ops': cases[0]['ops'][:30], 'events': cases[0]['ev'][:6]})
    for i, invs in sorted(bad.items()):
        ck.violation(f'{sorted(invs)} violated by an allocator history', {'ops': cases[i]['ops'], 'size': cases[i]['size'], 'events': cases[i]['ev']})


vf.main(go, 'C17')
