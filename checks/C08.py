"""C08: arithmetic is evaluated to its mathematical value or not at all (Compute.tla)."""
import json, os
from concurrent.futures import ThreadPoolExecutor
import vf, fol, comp
from vf import scale

EDGE = [2**31 - 1, 2**31, 2**32, 2**32 + 1, 2**53, 2**62, 2**63 - 1, 2**63 - 2, -2**31, -2**31 - 1, -2**32, -2**62, -2**63 + 1, 3037000500, 4294967291, 10**15 + 3, 3 * 10**18]
F2 = ['$sum', '$difference', '$product', '$quotient', '$quotient_e', '$quotient_t', '$quotient_f', '$remainder_e', '$remainder_t', '$remainder_f']
F1 = ['$uminus', '$to_int', '$to_real', '$floor', '$ceiling', '$truncate', '$round']
CMP = ['$less', '$lesseq', '$greater', '$greatereq']
STRATS = [{"strategy": ["unit"], "query_preference": 0}, {"strategy": ["negative_pref"], "query_preference": 0},
          {"strategy": ["negative_pref"], "query_preference": 1}, {"strategy": ["query_focus"], "query_preference": 1},
          {"strategy": ["hardness_pref"], "query_preference": 0}, {"strategy": ["hyper"], "query_preference": 0},
          {"strategy": ["unit"], "query_preference": 0, "arith_instantiation": 0}]


def leaf(rng, big=True):
    r = rng.random()
    if r < .45:
        return ('n', rng.randint(-12, 12))
    if r < .65 and big:
        x = rng.choice(EDGE) + rng.choice([0, 0, 0, 1, -1, 2, -7])
        return ('n', max(-2**63 + 1, min(2**63 - 1, x)))
    if r < .7:
        return ('n', rng.randint(-10**9, 10**9))
    if r < .97:
        return comp.real(rng.randint(-80, 80) if rng.random() < .8 else rng.choice([-1, 1]) * rng.randint(0, 70000))
    return ('f', 'aa', ())


def expr(rng, d, big=True):
    if d == 0 or rng.random() < .2:
        return leaf(rng, big)
    if rng.random() < .72:
        return ('f', rng.choice(F2), (expr(rng, d - 1, big), expr(rng, d - 1, big)))
    return ('f', rng.choice(F1), (expr(rng, d - 1, big),))


def atom(rng, d):
    if rng.random() < .2:
        return rng.choice(['$is_int', '$is_real', '$is_number']), [expr(rng, d)]
    p = rng.choice(CMP + ['='])
    a = expr(rng, d)
    if rng.random() < .35:      # close together
        b = ('f', '$sum', (a, ('n', rng.choice([0, 0, 1, -1])))) if rng.random() < .7 else rng.choice([('f', '$to_real', (a,)), ('f', '$to_int', (a,)), a])
    else:
        b = expr(rng, d)
    if p == '=' and (hascon(a) or hascon(b)):
        p = '$lesseq'
    return p, [a, b]


def hascon(t):
    return t[0] == 'f' and (not t[2] or any(hascon(x) for x in t[2]))


def consts(t, rng, env):
    """the numbers of a term as constants known by equations"""
    if t[0] in 'nr':
        if rng.random() < .6:
            c = 'k%d' % (len(env) + 1)
            env.append((c, t))
            return ('f', c, ())
        return t
    if t[0] == 'f' and t[2]:
        return ('f', t[1], tuple(consts(x, rng, env) for x in t[2]))
    return t


def make(chk, k):
    rng = chk.sub('job', k)
    job = comp.Job(rng)
    mode = rng.choice(['fact', 'var', 'mix', 'mix', 'eq'])
    if mode == 'eq':
        env = []
        for _ in range(2):
            job.value(consts(expr(rng, rng.randint(1, 2)), rng, env), 'fact', env)
        for _ in range(2):
            p, a = atom(rng, 1)
            if p == '=':
                p = '$less'
            job.test(p, [consts(x, rng, env) for x in a], 'fact', env)
        for c, v in env:
            job.cl.append([(True, '=', (('f', c, ()), v) if rng.random() < .5 else (v, ('f', c, ())))])
        rng.shuffle(job.cl)
        strat = rng.choice(STRATS[:5])
    else:
        for _ in range(6):
            job.value(expr(rng, rng.randint(0, 3)), mode if mode != 'mix' else rng.choice(['fact', 'var']))
        for _ in range(8):
            p, a = atom(rng, rng.randint(0, 2))
            job.test(p, a, mode if mode != 'mix' else rng.choice(['fact', 'var']))
        strat = rng.choice(STRATS)
    strat = dict(strat, max_answers=200)
    return job, strat, rng.choice(['simple', 'simple', 'tptp', 'json'])


def solve_job(chk, k):
    """constraints on unknowns; the answers have to solve them"""
    rng = chk.sub('solve', k)
    n = rng.choice([1, 1, 2])
    vs = ['X', 'Y'][:n]
    sol = {v: ('n', rng.randint(-8, 12)) if rng.random() < .8 else comp.real(rng.randint(-40, 40)) for v in vs}

    def ex(d):
        r = rng.random()
        if d == 0 or r < .3:
            return ('v', rng.choice(vs)) if rng.random() < .6 else (('n', rng.randint(-9, 9)) if rng.random() < .85 else comp.real(rng.randint(-40, 40)))
        if r < .9:
            return ('f', rng.choice(F2[:3] if rng.random() < .7 else F2), (ex(d - 1), ex(d - 1)))
        return ('f', rng.choice(F1), (ex(d - 1),))
    cons = []
    for _ in range(rng.randint(1, 3)):
        p = rng.choice(['=', '=', '=', '$less', '$greater', '$lesseq', '$greatereq', '$is_int'])
        neg = 1 if rng.random() < .2 else 0
        a = [ex(rng.randint(1, 2)), ('n', rng.randint(-20, 40))] if p != '$is_int' else [ex(1)]
        cons.append((neg, p, a))
    c = [(neg == 1, p, tuple(a)) for neg, p, a in cons] + [(True, '$ans', tuple(('v', v) for v in vs))]
    extra = []
    if rng.random() < .4:       # candidates through facts
        for _ in range(3):
            extra.append([(True, 'n', (('n', rng.randint(-8, 12)),))])
        c.insert(0, (False, 'n', (('v', 'X'),)))
    strat = dict(rng.choice(STRATS), arith_instantiation=rng.choice([1, 2, 2]), max_answers=10)
    return cons, vs, extra + [c], strat, rng.choice(['simple', 'tptp', 'json'])


def con_of(t):
    """variables of a constraint as the specification's constants"""
    if t[0] == 'v':
        return ('f', '?' + t[1], ())
    if t[0] == 'f':
        return ('f', t[1], tuple(con_of(a) for a in t[2]))
    return t


def go(chk):
    gkc = vf.gkc_bin()
    jobs = [make(chk, k) for k in range(scale(900, 6000))]

    def one(k):
        job, strat, syn = jobs[k]
        got, outs = job.run(gkc, os.path.join(vf.WORK, f'c08-{k}-'), syn, strat, True)
        bad = [r for _, r in outs if r.timeout or r.rc not in (0, 1) or '"error"' in r.out[:2000]]
        return job.case(got, strat['strategy'][0] in ('unit', 'negative_pref') and not any(r.slow or 'time limit' in r.out for _, r in outs)), outs, bad
    res = vf.pmap(one, range(len(jobs)))
    sj = [solve_job(chk, k) for k in range(scale(700, 5000))]

    def two(k):
        cons, vs, cls, strat, syn = sj[k]
        f = os.path.join(vf.WORK, f'c08s-{k}.{"js" if syn == "json" else "txt"}')
        txt = comp.write(f, cls, syn, chk.sub('st', k))
        r = vf.run_cmd([gkc, f, '-parallel', '0', '-seconds', '1', '-mbsize', '30', '-strategytext', json.dumps(strat)], timeout=30)
        os.unlink(f)
        ans = []
        for a in comp.answers(r.out):
            if all(l[1] == '$ans' for l in a):
                ans.append([[['?' + v, comp.enc(x)] for v, x in zip(vs, l[2])] for l in a])
        return {'vals': [], 'tests': [], 'sols': [{'cons': [[neg, p, [comp.enc(con_of(x)) for x in a]] for neg, p, a in cons], 'ans': ans}]}, txt, r
    sres = vf.pmap(two, range(len(sj)))
    cases, info = [], []
    for k, (c, outs, bad) in enumerate(res):
        if bad:
            chk.violation('a run with arithmetic failed', {'input': outs[0][0], 'output': bad[0].out[-1500:], 'rc': bad[0].rc, 'timeout': bad[0].timeout})
            continue
        cases.append(c)
        info.append((outs[0][0], [o[1].out[:6000] for o in outs], jobs[k][1]))
    nans = 0
    for k, (c, txt, r) in enumerate(sres):
        if r.timeout or r.rc not in (0, 1) or '"error"' in r.out[:2000]:
            chk.violation('a run with arithmetic failed', {'input': txt, 'output': r.out[-1500:], 'rc': r.rc, 'timeout': r.timeout})
            continue
        if c['sols'][0]['ans']:
            nans += len(c['sols'][0]['ans'])
            cases.append(c)
            info.append((txt, [r.out[:6000]], sj[k][3]))
    bad, st = vf.tlc_cases('Compute', cases)
    chk.add_stats(st, len(cases))
    chk.count('values', sum(len(v['got']) for c in cases for v in c['vals']))
    chk.count('atoms', sum(len(c['tests']) for c in cases))
    chk.count('atoms decided', sum(t['got'] != 'u' for c in cases for t in c['tests']))
    chk.count('answers of equations', nans)
    for k, inv in sorted(bad.items())[:20]:
        chk.violation('arithmetic: ' + ' '.join(sorted(inv)), {'input': info[k][0], 'output': info[k][1], 'strategy': info[k][2], 'case': cases[k]})
    if cases:
        chk.sample({'case': cases[0], 'input': info[0][0]})


if __name__ == '__main__':
    vf.main(go, 'C08')
