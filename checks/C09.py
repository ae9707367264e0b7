"""C09: list and string operations have their documented values (Compute.tla)."""
import json, os
import vf, fol, comp
from vf import scale

STRATS = [{"strategy": ["unit"], "query_preference": 0}, {"strategy": ["negative_pref"], "query_preference": 0},
          {"strategy": ["negative_pref"], "query_preference": 1}, {"strategy": ["query_focus"], "query_preference": 1},
          {"strategy": ["hardness_pref"], "query_preference": 0}, {"strategy": ["hyper"], "query_preference": 0},
          {"strategy": ["unit"], "query_preference": 1, "arith_instantiation": 0}]
WORDS = ['', 'a', 'b', 'ab', 'ba', 'aa', 'aab', 'aba', 'abab', 'aabaab', 'nil', '$nil', 'list', '$list', '1', '12', '-3', '2.5', 'X', 'Abc',
         'abc', 'a b', ' ', 'a,b', '[a]', "it's", '#', '#:a', '?:x', 'true', 'false', '%', '/*', 'null', '~a', '-a', '-', '+', '*', '/', '<', '=', 'the quick brown fox jumps over the lazy dog, twice or so',
         'x' * 30, 'x' * 31, 'x' * 32, 'x' * 63, 'x' * 64, 'x' * 200]
CONS = ['aa', 'bb', 'cc']


def string(rng):
    r = rng.random()
    if r < .6:
        return rng.choice(WORDS)
    if r < .9:
        return ''.join(rng.choice('ab') for _ in range(rng.randint(0, 9)))
    return ''.join(rng.choice('abcxyzABC 019_-+*/=()[]{}<>.,:;!?&|$#@^~') for _ in range(rng.randint(1, 14)))


def leaf(rng):
    r = rng.random()
    if r < .35:
        return ('n', rng.randint(-3, 6))
    if r < .42:
        return comp.real(rng.randint(-20, 20))
    if r < .72:
        return ('s', string(rng))
    return ('f', rng.choice(CONS), ())


def elem(rng, d):
    r = rng.random()
    if r < .62 or d == 0:
        return leaf(rng)
    if r < .85:
        return lists(rng, d - 1)
    if r < .93:
        return expr(rng, d - 1)
    return ('f', 'ff', (elem(rng, d - 1),))


def lists(rng, d):
    xs = [elem(rng, d) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6]))]
    t = comp.lst(xs)
    if rng.random() < .1:       # a list with another tail
        t = leaf(rng)
        for x in reversed(xs or [leaf(rng)]):
            t = ('f', '$list', (x, t))
    return t


def expr(rng, d):
    """an expression with list or string functions"""
    r = rng.random()
    if r < .32:
        return ('f', '$first', (rest(rng, d),))
    if r < .62:
        return ('f', '$rest', (rest(rng, d),))
    if r < .85:
        a = ('s', string(rng)) if rng.random() < .75 else elem(rng, d) if rng.random() < .6 else ('f', '$first', (rest(rng, d),))
        return ('f', '$strlen', (a,))
    return ('f', rng.choice(['$sum', '$product', '$difference']), (elem(rng, 0) if d == 0 else expr(rng, d - 1), leaf(rng)))


def rest(rng, d):
    t = lists(rng, d) if rng.random() < .9 else elem(rng, d)
    while rng.random() < .35:
        t = ('f', rng.choice(['$rest', '$rest', '$first']), (t,))
    return t


def mutate(rng, t):
    """a copy with some difference (or none)"""
    if t[0] == 'f' and t[2] and rng.random() < .8:
        a = list(t[2])
        k = rng.randrange(len(a)) if t[1] != '$list' or rng.random() < .4 else 1
        a[k] = mutate(rng, a[k])
        return ('f', t[1], tuple(a))
    r = rng.random()
    if r < .25:
        return t
    if t[0] == 's' and r < .6:
        w = t[1]
        k = rng.randint(0, len(w))
        return ('s', rng.choice([w[:k] + w[k + 1:], w[:k] + 'a' + w[k:], w.upper(), w + ' ']))
    if t[0] == 'n' and r < .5:
        return rng.choice([('n', t[1] + 1), comp.real(8 * t[1]), ('s', str(t[1]))])
    if r < .85:
        return elem(rng, 0)
    return lists(rng, 0)


def atom(rng):
    r = rng.random()
    if r < .05:         # a value and a term that may be equal to it
        a = rng.choice([('f', '$nil', ()), ('f', '$nil', ()), ('s', string(rng)), lists(rng, 1), leaf(rng)])
        b = ('f', 'hh', (('n', rng.randint(100, 999999)),))
        return '=', [a, b] if rng.random() < .5 else [b, a]
    if r < .45:
        a = rng.choice([lists(rng, 2), lists(rng, 2), ('s', string(rng)), elem(rng, 1), expr(rng, 1)])
        b = mutate(rng, a)
        while rng.random() < .2:
            b = mutate(rng, b)
        if rng.random() < .15:
            b = elem(rng, 2)
        if rng.random() < .15:
            a = ('f', '$first', (comp.lst([a, ('n', 0)]),))
        if rng.random() < .15:
            b = ('f', '$rest', (('f', '$list', (('n', 0), b)),))
        if open_const(a) or open_const(b):      # not a rewrite rule for the other atoms
            a, b = ('f', 'ff', (a,)), ('f', 'gg', (b,))
        return '=', [a, b]
    if r < .62:
        return rng.choice(['$is_list', '$is_list', '$is_distinct', '$is_distinct', '$is_number', '$is_int']), [elem(rng, 2) if rng.random() < .6 else expr(rng, 1)]
    a, b = sub(rng)
    if r < .78:
        return '$substr', [a, b]
    n = b[1].find(a[1]) if b[0] == 's' and a[0] == 's' and rng.random() < .7 else rng.randint(-1, 8)
    if rng.random() < .3:
        n += rng.choice([-1, 1, 2, 100, 4294967296])
    c = ('n', n) if rng.random() < .8 else ('f', '$sum', (('n', n - 2), ('n', 2)))
    if rng.random() < .05:
        c = elem(rng, 1)
    return '$substrat', [a, b, c]


def open_const(t):
    """t or the positions where a list equation is compared hold a constant or other term that may be equal to anything"""
    return t[0] == 'f' and t[1] not in ('$list', '$nil') or t[0] == 'f' and any(open_const(x) for x in t[2])


def sub(rng):
    b = string(rng)
    r = rng.random()
    if r < .6 and b:
        k = rng.randrange(len(b))
        a = b[k:k + rng.randint(0, len(b))]
        if rng.random() < .2:
            a += rng.choice('ab ')
    else:
        a = string(rng)
    A, B = ('s', a), ('s', b)
    r = rng.random()
    if r < .08:
        A = elem(rng, 1)
    elif r < .16:
        B = elem(rng, 1)
    elif r < .22:
        B = ('f', '$first', (comp.lst([B]),))
    return A, B


def make(chk, k):
    rng = chk.sub('job', k)
    job = comp.Job(rng)
    mode = rng.choice(['fact', 'fact', 'var', 'mix', 'mix'])
    for _ in range(6):
        job.value(rng.choice([expr, expr, elem])(rng, 2), mode if mode != 'mix' else rng.choice(['fact', 'var']))
    for _ in range(9):
        p, a = atom(rng)
        job.test(p, a, mode if mode != 'mix' else rng.choice(['fact', 'var']))
    return job, dict(rng.choice(STRATS), max_answers=200), rng.choice(['simple', 'simple', 'tptp', 'json'])


def go(chk):
    gkc = vf.gkc_bin()
    jobs = [make(chk, k) for k in range(scale(1000, 7000))]

    def one(k):
        job, strat, syn = jobs[k]
        got, outs = job.run(gkc, os.path.join(vf.WORK, f'c09-{k}-'), syn, strat, True)
        bad = [r for _, r in outs if r.timeout or r.rc not in (0, 1) or '"error"' in r.out[:2000]]
        return job.case(got, strat['strategy'][0] in ('unit', 'negative_pref') and not any(r.slow or 'time limit' in r.out for _, r in outs)), outs, bad
    res = vf.pmap(one, range(len(jobs)))
    cases, info = [], []
    for k, (c, outs, bad) in enumerate(res):
        if bad:
            chk.violation('a run with lists and strings failed', {'input': outs[0][0], 'output': bad[0].out[-1500:], 'rc': bad[0].rc, 'timeout': bad[0].timeout})
            continue
        cases.append(c)
        info.append((outs[0][0], [o[1].out[:6000] for o in outs], jobs[k][1]))
    bad, st = vf.tlc_cases('Compute', cases)
    chk.add_stats(st, len(cases))
    chk.count('values', sum(len(v['got']) for c in cases for v in c['vals']))
    chk.count('atoms', sum(len(c['tests']) for c in cases))
    chk.count('atoms decided', sum(t['got'] != 'u' for c in cases for t in c['tests']))
    for k, inv in sorted(bad.items())[:20]:
        chk.violation('lists and strings: ' + ' '.join(sorted(inv)), {'input': info[k][0], 'output': info[k][1], 'strategy': info[k][2], 'case': cases[k]})
    if cases:
        chk.sample({'case': cases[0], 'input': info[0][0]})


if __name__ == '__main__':
    vf.main(go, 'C09')
