"""Random histories of the database layer, and their replay in Query.tla."""
import vf, dbl

CONDS = [1, 2, 4, 8, 16, 32]
TC = {'n': 1, 'i': 3, 's': 5, 'u': 7, 'd': 4}


def history(rng, dumps=None):
    """Operations for the harness and what the model needs to know about each; dumps: directory for dump files."""
    vals = []      # (command, key)
    few = rng.random() < .5
    dels = rng.random() < .5      # records that share strings with others must not be deleted: see DESIGN.md

    def mk():
        t = rng.choice('iiiisun' if not few else 'iiisu') if not dels else rng.choice('iiiiin')
        if t == 'i':
            n = rng.randint(-3, 6) if few else rng.choice([rng.randint(-200, 200), rng.randint(0, 12)] + ([] if dels else [2**40, -2**40]))
            return f'E i {n}', (3, n)
        if t == 'n':
            return 'E n', (1, 0)
        s = rng.choice(['a', 'b', 'ab', 'abc', 'x' * 40, 'x' * 40 + 'y', 'B', 'zz', 'q' * 31, 'q' * 32])
        if t == 's':
            return f'E s {s.encode().hex()} _', (5, s.encode())
        e = rng.choice(['_', 'p'])
        return f'E u {s.encode().hex()} {e if e == "_" else "70"}', (7, b'' if e == '_' else b'p', s.encode())
    seen = set()
    for _ in range(rng.randint(4, 40)):
        v = mk()
        vals.append(v)
    rank = {x: r for r, x in enumerate(sorted({(v[1][0], v[1][1:]) for v in vals}))}
    rk = [rank[(v[1][0], v[1][1:])] for v in vals]
    nonvar = list(range(len(vals)))
    ops, meta = [v[0] for v in vals], [{'x': 'skip'} for _ in vals]
    live = []
    h = 0
    gkeys = set()
    files, snap, sizes, nf = [], {}, {}, 0
    width = rng.randint(1, 5)
    defs = []

    def put(op, **m):
        ops.append(op)
        meta.append(m)

    def add():
        nonlocal h
        w = width if rng.random() < .8 else rng.randint(1, width)
        f = [rng.choice(nonvar) for _ in range(w)]
        put('r ' + ' '.join(map(str, f)), f=[rk[x] for x in f])
        live.append(h)
        h += 1
    for _ in range(rng.choice([0, 5, 20, 60, 110])):
        add()
    sweep = dels and rng.random() < .4       # grow and shrink by turns, with the indexes made early
    for step in range(rng.randint(30, 70)):
        r = rng.random()
        shrink = sweep and step % 20 >= 8
        if r < .25 and not shrink:
            for _ in range(rng.choice([1, 1, 3, 8] if not sweep else [8, 15])):
                add()
        elif r < (.6 if shrink else .35) and live and dels:
            by = rng.random()
            for _ in range(rng.choice([1, 2, 6] if not sweep else [4, 8])):
                if live:
                    at = 0 if by < .2 else len(live) - 1 if by < .4 else rng.randrange(len(live))
                    put(f'd {live.pop(at)}')
                    meta[-1]['del'] = 1
        elif r < .45:
            t = rng.choice('TTH')
            nc = 1 if t == 'T' else rng.randint(1, min(3, width))
            cols = rng.sample(range(width), nc)
            tm = []
            if rng.random() < .35:
                ml = rng.randint(1, width)
                tm = [(-1 if c in cols or rng.random() < .5 else rng.choice(nonvar)) for c in range(ml)]
                while tm and tm[-1] < 0:
                    tm.pop()
            put(f'I {t} {nc} {" ".join(map(str, cols))} {" ".join(map(str, tm))}'.rstrip(),
                **{'def': [t, sorted(cols), [(-1 if x < 0 else rk[x]) for x in tm]]})
            if (t, sorted(cols), tm) not in defs and not tm:
                defs.append((t, sorted(cols), tm))
        elif r < .48 and any(d[0] == 'T' for d in defs):
            t, cols, tm = rng.choice([d for d in defs if d[0] == 'T'])
            defs.remove((t, cols, tm))
            put(f'P {t} {len(cols)} {" ".join(map(str, cols))}', **{'def': [t, cols, []]})
        elif r < .56 and any(d[0] == 'H' for d in defs):
            t, cols, _ = rng.choice([d for d in defs if d[0] == 'H'])
            vs = [rng.choice(nonvar) for _ in cols]
            put(f'K {len(cols)} ' + ' '.join(f'{c} {v}' for c, v in zip(cols, vs)),
                conds=[{'col': c, 'cond': 1, 'v': rk[v]} for c, v in zip(cols, vs)])
        else:
            way = rng.choice('qqqf')
            na = 1 if way == 'f' else rng.choice([0, 1, 1, 2, 2, 3, 4])
            cs = []
            for _ in range(na):
                if cs and rng.random() < .5:
                    c = cs[-1][0]
                else:
                    c = rng.randrange(width + (rng.random() < .05))
                cs.append((c, rng.choice(CONDS), rng.choice(nonvar)))
            mr = []
            if way == 'q' and rng.random() < .25:
                mr = [(-1 if rng.random() < .6 else rng.choice(nonvar)) for _ in range(rng.randint(1, width))]
            lim = rng.choice([0, 0, 0, 1, 2, 5, 64, 65]) if way == 'q' else 0
            put(f'Q {way} {lim} {na} {" ".join(f"{a} {b} {c}" for a, b, c in cs)} {" ".join(map(str, mr))}'.rstrip(), limit=lim,
                conds=[{'col': a, 'cond': b, 'v': rk[c]} for a, b, c in cs] + [{'col': j, 'cond': 1, 'v': rk[x]} for j, x in enumerate(mr) if x >= 0])
        if rng.random() < .2:
            step = rng.choice([1, 8, 64, 4096])
            for _ in range(rng.choice([1, 3, 20])):
                kx = rng.choice([rng.randint(1, 40) * step, rng.randint(1, 100000)])
                z = rng.random()
                if z < .4 and kx not in gkeys:    # the map is used with new keys only
                    gkeys.add(kx)
                    put(f'g + {kx} {rng.randint(0, 99)}')
                elif z < .6:
                    put(f'g ? {rng.choice(sorted(gkeys) or [1]) if rng.random() < .7 else kx}')
                else:
                    put(f'h + {kx}' if z < .85 else f'h ? {kx}')
        if dumps and rng.random() < .25:
            z = rng.random()
            if z < .45 or not files:
                nf += 1
                put(f'W {dumps}/d{nf}', file=nf)
                files.append((nf, True))
                snap[nf] = (list(live), list(defs))
                sizes[nf] = 0
            elif z < .75:
                src, ok = rng.choice(files)
                nf += 1
                how = rng.choice([0, 1, 1, 1, 2, 2, 3]) if ok else 0
                arg = rng.choice([rng.randint(0, 400), rng.randint(0, 2**31), rng.randint(0, 2**31)]) if how == 1 else rng.choice([1, 2, 8, 100, 5000, 8192, 500000])
                put(f'Y {dumps}/d{src} {dumps}/d{nf} {how} {arg}', file=nf, src=src, how=how)
                files.append((nf, ok and how == 0))
                snap[nf] = snap[src]
            else:
                src, ok = rng.choice(files[-4:])
                put(f'U {dumps}/d{src}', file=src)
                if ok:
                    if rng.random() < .4:
                        put(f'N {rng.choice([8000000, 3000000, 12000000])}')
                    if rng.random() < .3:
                        put(f'N {rng.choice([-8, 0, 100, 5000, 50000, 200000, 1000000])} {dumps}/d{src}')
                        put(f'L {dumps}/d{src}', file=src)
                        put('O')
                        put(f'J {rng.choice([3, 10, 40])}')
                        put('N 8000000')
                    put(f'L {dumps}/d{src}', file=src)
                    live[:], defs[:] = list(snap[src][0]), list(snap[src][1])
                    put('O')
    # everything once more, through each index
    for c in range(width):
        for v in rng.sample(nonvar, min(3, len(nonvar))):
            cd = rng.choice(CONDS)
            put(f'Q q 0 1 {c} {cd} {v}', limit=0, conds=[{'col': c, 'cond': cd, 'v': rk[v]}])
    return ops, meta


def check(ck, jobs, cfg):
    res = vf.pmap(lambda j: dbl.run_script(j[0], 8000000), jobs)
    cases = []
    for (ops, meta), (r, ev) in zip(jobs, res):
        if r.rc != 0 or len(ev) != len(ops) + 1 or any(e['op'] == 'garbled' for e in ev):
            ck.violation(f'the run ended abnormally (rc {r.rc}) after {len(ev)} of {len(ops)} operations', {'ops': ops, 'out': r.out[-300:]})
            continue
        out = []
        for m, e in zip(meta, ev[1:]):
            if e['op'] == 'enc':
                continue
            e.update({k: v for k, v in m.items() if k not in ('x', 'del')})
            e.pop('qt', None)
            out.append(e)
            ck.count(e['op'])
        cases.append({'ev': out, 'ops': ops})
    enc = [{'ev': c['ev']} for c in cases]
    bad, st = vf.tlc_cases('Query', enc, cfg)
    ck.add_stats(st, len(cases))
    ck.sample({'ops': cases[0]['ops'][:40], 'events': cases[0]['ev'][-2:]})
    for i, invs in sorted(bad.items()):
        ck.violation(f'{sorted(invs)} violated by a database history', {'ops': cases[i]['ops'], 'events': cases[i]['ev']})
