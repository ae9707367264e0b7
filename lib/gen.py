"""Random problems and strategies for the checks, and the running of gkc on them."""
import itertools, json, os, re
import vf, fol, strat
from fol import V, F

NAMES = ["negative_pref", "positive_pref", "hyper", "unit", "double", "triple", "pure_unit", "hardness_pref", "query_focus",
         "knuthbendix_pref", "prohibit_nested_para", "prohibit_unordered_para", "prohibit_deep_para", "posunitpara",
         "max_ground_weight", "max_weight", "hornpref", "posweightdoublepref", "negweightdoublepref"]


def rand_strategy(rng):
    if rng.random() < 0.35:
        return dict(rng.choice(strat.COMPLETE))
    if rng.random() < 0.4:
        return dict(rng.choice(strat.OTHER))
    s = {"strategy": rng.sample(NAMES, rng.randint(0, 4)), "query_preference": rng.randint(0, 4)}
    opt = {"given_queue_ratio": [1, 2, 5, 20], "reverse_clauselist": [0, 1], "max_weight": [0, 0, 60], "max_size": [0, 0, 12],
           "max_depth": [0, 0, 3], "max_length": [0, 0, 3], "depth_penalty": [0, 1, 3], "length_penalty": [0, 1, 5],
           "var_weight": [0, 1, 5, 20], "repeat_var_weight": [0, 1, 7], "equality": [1, 1, 1, 0], "rewrite": [1, 1, 0],
           "sine": [0, 0, 1, 2], "instgen": [0, 0, 0, 1], "propgen": [0, 0, 0, 1], "max_answers": [1, 1, 2, 5]}
    for k, v in opt.items():
        if rng.random() < 0.3:
            s[k] = rng.choice(v)
    return s


# ---------------------------------------------------------------- writing problems
EXT = {'otter': '.txt', 'tptp': '.p', 'json': '.js'}


def write_problem(name, cls, syntax='otter', roles=None):
    p = os.path.join(vf.WORK, name + EXT[syntax])
    t = fol.otter(cls) if syntax == 'otter' else fol.tptp(cls, roles) if syntax == 'tptp' else fol.jsonld(cls)
    with open(p, 'w') as f:
        f.write(t)
    return p


def rand_roles(rng, cls):
    if rng.random() < 0.4:
        return None
    return [rng.choice(['axiom', 'axiom', 'hypothesis', 'negated_conjecture']) for _ in cls]


# ---------------------------------------------------------------- clause sets
def epr_set(rng, eq=False, shape=None):
    """Function-free clauses: many small or fewer larger ones, near the satisfiability threshold."""
    shape = shape or rng.choice(['base', 'base', 'base', 'prop', 'wide', 'chain', 'horn'])
    if shape == 'prop':
        n = rng.randint(5, 9)
        ps = [('p%d' % k, 0) for k in range(n)]
        m = int(n * rng.uniform(3.0, 5.2))
        cls = []
        for _ in range(m):
            c = [(rng.random() < .5, p, ()) for p, _ in rng.sample(ps, rng.choice([2, 3, 3]))]
            cls.append(c)
        if rng.random() < .5:
            cls.append([(rng.random() < .5, ps[0][0], ())])
        return cls
    consts = ['a', 'b', 'c', 'd'][:rng.choice([1, 2, 2, 2, 3])]
    preds = [('p', 1), ('q', 2), ('r', 1), ('s', 0)]
    if shape == 'wide':
        preds = [('p', 3), ('q', 2), ('r', 4)] if not eq else [('p', 3), ('q', 2)]
        consts = consts[:2]
        return [fol.rand_clause(rng, preds, consts, nvars=rng.choice([2, 3]), lens=(1, 1, 2, 2, 3, 4), eqp=0.3 if eq else 0)
                for _ in range(rng.randint(5, 11))]
    if shape == 'chain':     # transitive and symmetric relations, long derivations
        cs = ['a', 'b', 'c', 'd']
        cls = [[(False, 'q', (V('X'), V('Y'))), (False, 'q', (V('Y'), V('Z'))), (True, 'q', (V('X'), V('Z')))]]
        if rng.random() < .5:
            cls.append([(False, 'q', (V('X'), V('Y'))), (True, 'q', (V('Y'), V('X')))])
        if rng.random() < .4:
            cls.append([(False, 'q', (V('X'), V('X')))])
        for _ in range(rng.randint(3, 7)):
            cls.append(fol.rand_clause(rng, [('q', 2), ('q', 2), ('p', 1)], cs[:3], nvars=1, lens=(1, 1, 2), eqp=0.2 if eq else 0, pv=.15))
        return cls
    lens = (1, 2, 2, 3, 3, 4)
    n = rng.randint(6, 14)
    if shape == 'horn':
        cls = []
        for _ in range(n):
            c = fol.rand_clause(rng, preds, consts, nvars=3, lens=(1, 2, 3), eqp=0.25 if eq else 0)
            c = [(False, p, a) for s, p, a in c]
            if rng.random() < .75:
                c[0] = (True,) + c[0][1:]
            rng.shuffle(c)
            cls.append(c)
        return cls
    return [fol.rand_clause(rng, preds, consts, nvars=3, lens=lens, eqp=0.35 if eq else 0, pv=.55) for _ in range(n)]


def epr_case(cls):
    preds, funs = fol.sig(cls)
    return {'kind': 'epr', 'cls': [fol.e_clause(c) for c in cls], 'consts': [f for f, n in funs],
            'pid': {f'{p}': 17 + k for k, (p, n) in enumerate(preds)} or {'none': 17}, 'runs': [], 'derived': []}


def small_epr(cls, eqlimit=5):
    """Whether EprSat decides it quickly."""
    preds, funs = fol.sig(cls)
    n = max(1, len(funs))
    if any(k for f, k in funs) or len({p for p, k in preds}) != len(preds):
        return False
    inst = sum(n ** len(fol.cvars(c)) for c in cls)
    return inst < 700 and (n <= eqlimit)


GSIG_P = [('p', 1), ('q', 2)]


def rand_gterm(rng, pool):
    return rng.choice(pool)


def para_complete(cls):
    """gkc never paramodulates from a bare variable and does no equality factoring: clauses with X = t and clauses
    with two positive equations are outside the completeness claim."""
    if any(sum(1 for s, p, a in c if s and p == '=') > 1 for c in cls):
        return False
    return not any(s and p == '=' and (a[0][0] == 'v' or a[1][0] == 'v') for c in cls for s, p, a in c)


def lifted_set(rng, eq=False):
    """A dense ground set and a generalisation of each of its clauses."""
    a, b = F('a'), F('b')
    pool = [a, b, F('f', a), F('f', b), F('f', F('f', a))] if rng.random() < .6 else [a, F('g', a, a), F('g', F('f', a), a), F('f', a)]
    if eq and rng.random() < .5:
        pool = pool[:4]
    preds = rng.choice([GSIG_P, [('p', 1), ('r', 1)], [('q', 2), ('s', 0), ('p', 1)]])
    pool = rng.sample(pool, rng.randint(2, min(4, len(pool))))
    g = []
    for _ in range(rng.randint(9, 17)):
        c = []
        for _ in range(rng.choice([1, 1, 2, 2, 2, 3])):
            s = rng.random() < .5
            if eq and rng.random() < .35:
                c.append((s, '=', (rng.choice(pool), rng.choice(pool))))
            else:
                p, n = rng.choice(preds)
                c.append((s, p, tuple(rng.choice(pool) for _ in range(n))))
        g.append(c)
    return g, [generalise(rng, c) for c in g]


def generalise(rng, c):
    """Replace some occurrences of chosen subterms by variables."""
    subs = []

    def go(t):
        subs.append(t)
        if t[0] == 'f':
            for x in t[2]:
                go(x)
    for l in c:
        for t in l[2]:
            go(t)
    subs = sorted(set(subs), key=repr)
    m = {}
    for k, t in enumerate(rng.sample(subs, min(len(subs), rng.choice([0, 1, 1, 2, 2, 3])))):
        m[t] = V('XYZ'[k])

    def rep(t):
        if t in m and rng.random() < .75:
            return m[t]
        if t[0] == 'f':
            return ('f', t[1], tuple(rep(x) for x in t[2]))
        return t
    return [(s, p, tuple(rep(t) for t in a)) for s, p, a in c]


def facts_set(rng):
    """Positive units over terms with repeated variables and depth, and negative clauses nearly matching them."""
    consts = [F('a'), F('b'), F('c'), ('n', 1), ('s', 'a')][:rng.choice([2, 3, 3, 5])]
    funs = rng.choice([[('f', 1), ('g', 2)], [('g', 2)], [('f', 1), ('g', 2), ('h', 3)], [('f', 1)]])
    vs = ['X', 'Y', 'Z', 'W'][:rng.choice([1, 2, 3, 4])]

    def term(d, pv):
        if d > 0 and rng.random() < .6:
            f, n = rng.choice(funs)
            return ('f', f, tuple(term(d - 1, pv) for _ in range(n)))
        return V(rng.choice(vs)) if rng.random() < pv else rng.choice(consts)

    def paths(t, at=()):
        yield at
        if t[0] == 'f':
            for k, x in enumerate(t[2]):
                yield from paths(x, at + (k,))

    def put(t, at, u):
        return u if not at else ('f', t[1], t[2][:at[0]] + (put(t[2][at[0]], at[1:], u),) + t[2][at[0] + 1:])

    def sub(t, at):
        return t if not at else sub(t[2][at[0]], at[1:])

    def mutate(t):
        at = rng.choice(list(paths(t)))
        u = sub(t, at)
        r = rng.random()
        if r < .4:
            v = V(rng.choice(vs))
        elif r < .6 and u[0] == 'f' and u[2]:
            v = rng.choice(u[2])
        elif r < .75:
            v = ('f', funs[0][0], tuple(u for _ in range(funs[0][1])))
        else:
            v = term(1, .5)
        return put(t, at, v)

    preds = rng.choice([[('p', 1)], [('p', 2)], [('p', 2), ('q', 1)], [('r', 3), ('q', 1)], [('p', 1), ('q', 1), ('s', 0)]])
    d = rng.choice([1, 2, 2, 3, 3, 4])
    facts = []
    for _ in range(rng.choice([1, 2, 3, 3, 4, 6, 12])):
        p, n = rng.choice(preds)
        if facts and rng.random() < .4:
            s, p, a = rng.choice(facts)[0]
            a = tuple(mutate(t) if rng.random() < .5 else t for t in a)
        else:
            a = tuple(term(d, rng.choice([.2, .4, .6])) for _ in range(n))
        facts.append([(True, p, a)])
    goals = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        g = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 3])):
            if rng.random() < .12:
                x = term(d, .6)
                y = x
                for _ in range(rng.randint(0, 3)):
                    y = mutate(y)
                g.append((False, '=', (x, y)))
                continue
            s, p, a = rng.choice(facts)[0]
            ren = {x: V(rng.choice(vs)) if rng.random() < .55 else term(2, .4) for x in vs}
            a = tuple(fol.subst(t, ren) for t in a)
            for _ in range(rng.choice([0, 1, 2, 2, 3])):
                k = rng.randrange(len(a)) if a else 0
                a = tuple(mutate(t) if j == k else t for j, t in enumerate(a))
            g.append((False, p, a))
        goals.append(g)
    cls = facts + goals
    rng.shuffle(cls)
    if sum(fol.tsize(t) for c in cls for l in c for t in l[2]) > 400 or any(len(set(fol.cvars(c))) > 8 for c in cls):
        return facts_set(rng)
    return cls


def _dpll(cls):
    cls = [c for c in cls if not any(-l in c for l in c)]
    while True:
        if not cls:
            return True
        if any(not c for c in cls):
            return False
        u = next((c for c in cls if len(c) == 1), None)
        if u is None:
            break
        l = next(iter(u))
        cls = [c - {-l} for c in cls if l not in c]
    l = next(iter(min(cls, key=len)))
    return _dpll([c - {-l} for c in cls if l not in c]) or _dpll([c - {l} for c in cls if -l not in c])


def _partitions(n):
    def go(k, m, f):
        if k == n:
            yield list(f)
            return
        for v in range(m + 1):
            yield from go(k + 1, max(m, v + 1), f + [v])
    yield from go(0, 0, [])


def ground_sat(g):
    """Candidate filter for the generator only; the specification re-decides it (GroundSat)."""
    terms = []

    def sub(t):
        for x in t[2]:
            sub(x)
        if t not in terms:
            terms.append(t)
    for c in g:
        for l in c:
            for t in l[2]:
                sub(t)
    eq = any(l[1] == '=' for c in g for l in c)
    if eq and len(terms) > 7:
        return True
    for f in (_partitions(len(terms)) if eq else [range(len(terms))]):
        m = dict(zip(terms, f))
        if eq:
            tab, ok = {}, True
            for t in terms:
                if tab.setdefault((t[1], tuple(m[x] for x in t[2])), m[t]) != m[t]:
                    ok = False
                    break
            if not ok:
                continue
        at, cs = {}, []
        for c in g:
            d, true = set(), False
            for s, p, a in c:
                if p == '=':
                    true = true or (m[a[0]] == m[a[1]]) == s
                else:
                    n = at.setdefault((p, tuple(m[x] for x in a)), len(at) + 1)
                    d.add(n if s else -n)
            if not true:
                cs.append(frozenset(d))
        if _dpll(cs):
            return True
    return False


def core(rng, g):
    """A minimal contradictory subset, or None."""
    if ground_sat(g):
        return None
    g = list(g)
    for c in rng.sample(g, len(g)):
        h = [d for d in g if d is not c]
        if not ground_sat(h):
            g = h
    return g


def instances(c, pool, cap=30):
    vs = fol.cvars(c)
    if len(pool) ** len(vs) > cap:
        return None
    return [fol.csubst(c, dict(zip(vs, ts))) for ts in itertools.product(pool, repeat=len(vs))]


def linear(rng, c):
    """c with a fresh variable for many of its constant occurrences."""
    n = [0]

    def rep(t):
        if t[0] == 'f' and not t[2] and n[0] < 4 and rng.random() < .75:
            n[0] += 1
            return V('XYZW'[n[0] - 1])
        return ('f', t[1], tuple(rep(x) for x in t[2])) if t[0] == 'f' else t
    return [(s, p, tuple(rep(t) for t in a)) for s, p, a in c]


def wrong_subsumer(rng, c):
    """A clause that subsumes c only for a test that confuses two different subterms of c."""
    d = [l for l in c if rng.random() < .8] or list(c)
    ps = [q for q in positions(d) if q[1][0] == 'f' and q[1][2]]
    prs = [(x, y) for x in ps for y in ps if x[0] < y[0] and x[1] != y[1] and x[1][1] == y[1][1] and y[0][:len(x[0])] != x[0]]
    if not prs:
        prs = [(x, y) for x in positions(d) for y in positions(d) if x[0] < y[0] and x[1] != y[1] and y[0][:len(x[0])] != x[0]]
    if not prs:
        return distractor(rng, c)
    (p1, t1), (p2, t2) = rng.choice(prs)
    d = put_clause(put_clause(d, p1, V('U')), p2, V('U'))
    for _ in range(rng.choice([0, 0, 1])):
        d = put_clause(d, rng.choice(positions(d))[0], V('T'))
    rng.shuffle(d)
    return d


def core_set(rng, eq=False):
    """Generalisations of a minimal contradictory ground set together with look-alikes of one of its clauses, which
    as far as instances over a few ground terms show do not replace that clause in the contradiction."""
    while True:
        g, _ = lifted_set(rng, eq)
        g = core(rng, g)
        if g is None or len(g) < rng.choice([3, 4, 4, 5]):
            continue
        pool = []
        for c in g:
            for _, t in positions(c):
                if t not in pool:
                    pool.append(t)
        pool.sort(key=fol.tsize)
        pool = pool[:4]
        k0 = max(range(len(g)), key=lambda k: (sum(fol.tsize(x) for l in g[k] for x in l[2]) if rng.random() < .7 else 0, rng.random()))
        inst = [[c] for c in g]
        cls = list(g)
        extra = []

        def ok():
            return ground_sat([c for k, cs in enumerate(inst) if k != k0 for c in cs])
        for k in range(len(g)):
            d = linear(rng, g[k]) if k == k0 and rng.random() < .6 else generalise(rng, g[k])
            if k == k0:
                cls[k] = d
                continue
            old, ins = inst[k], instances(d, pool)
            if ins:
                inst[k] = ins
                if ok():
                    cls[k] = d
                else:
                    inst[k] = old
        for _ in range(rng.choice([2, 4, 6, 8])):
            d = wrong_subsumer(rng, cls[k0]) if rng.random() < .6 else distractor(rng, rng.choice(cls) if rng.random() < .4 else cls[k0])
            ins = instances(d, pool)
            if ins and len(d) <= 4:
                inst.append(ins)
                if ok():
                    extra.append(d)
                else:
                    inst.pop()
        order = [(k, c) for k, c in enumerate(cls)] + [(-1, c) for c in extra]
        r = rng.random()
        if r < .6:
            rng.shuffle(order)
        elif r < .9:
            order = order[len(cls):] + order[:len(cls)]
        cl2 = [c for _, c in order]
        if para_complete(cl2):
            return g, cl2, [j + 1 for k in range(len(cls)) for j, (o, _) in enumerate(order) if o == k]


def positions(c):
    """All term positions (literal, path) of a clause."""
    r = []

    def go(t, p):
        r.append((p, t))
        if t[0] == 'f':
            for k, x in enumerate(t[2]):
                go(x, p + (k,))
    for j, l in enumerate(c):
        for k, t in enumerate(l[2]):
            go(t, (j, k))
    return r


def put(t, path, new):
    if not path:
        return new
    return ('f', t[1], tuple(put(x, path[1:], new) if k == path[0] else x for k, x in enumerate(t[2])))


def put_clause(c, pos, new):
    return [(s, p, tuple(put(t, pos[2:], new) if (j, k) == pos[:2] else t for k, t in enumerate(a))) for j, (s, p, a) in enumerate(c)]


def distractor(rng, c):
    """A clause that looks like c to the subsumption tests and indexes of the prover but is another one."""
    d = list(c)
    for _ in range(rng.choice([1, 1, 2])):
        ps = positions(d)
        kind = rng.random()
        if ps and kind < .45:      # two different subterms become one variable
            cs = [q for q in ps if q[1][0] == 'f' and q[1][2] and fol.tvars(q[1])]
            if len({q[1] for q in cs}) < 2 or rng.random() < .4:
                cs = ps
            (p1, t1), (p2, t2) = rng.choice(cs), rng.choice(cs)
            if p1[:len(p2)] == p2 or p2[:len(p1)] == p1 or t1 == t2:
                continue
            v = V(rng.choice('UX'))
            d = put_clause(put_clause(d, p1, v), p2, v)
        elif kind < .6:            # an instance
            vs = fol.cvars(d)
            if vs:
                d = fol.csubst(d, {rng.choice(vs): rng.choice([F('f', V('X')), F('f', V('Y')), V('Y'), V('X'), F('f', V('Z'))])})
        elif ps and kind < .72:    # a generalisation of one occurrence
            d = put_clause(d, rng.choice(ps)[0], V(rng.choice('UVX')))
        elif kind < .84 and len(d) > 1:
            d.pop(rng.randrange(len(d)))
        elif kind < .92:
            k = rng.randrange(len(d))
            d[k] = (not d[k][0],) + d[k][1:]
        else:
            d.append(rng.choice(c))
    rng.shuffle(d)
    return d


# ---------------------------------------------------------------- finite interpretations
def rand_interp(rng):
    n = rng.choice([1, 2, 2, 2, 3, 3])
    funs = {'f': 2, 'g': 1, 'a': 0, 'b': 0, 'e': 0}
    preds = {'p': 1, 'q': 2, 's': 0}
    I = {'n': n, 'fun': {}, 'pred': {}}
    kind = rng.choice(['random', 'group', 'lattice', 'proj'])
    for f, k in funs.items():
        I['fun'][f] = [rng.randrange(n) for _ in range(n ** k)]
    if kind == 'group':
        I['fun']['f'] = [(x + y) % n for x in range(n) for y in range(n)]
        I['fun']['g'] = [(-x) % n for x in range(n)]
        I['fun']['e'] = [0]
    elif kind == 'lattice':
        I['fun']['f'] = [max(x, y) for x in range(n) for y in range(n)]
    elif kind == 'proj':
        I['fun']['f'] = [x for x in range(n) for y in range(n)]
    for p, k in preds.items():
        I['pred'][p] = [rng.randrange(2) for _ in range(n ** k)]
    return I, [(p, k) for p, k in preds.items()], [(f, k) for f, k in funs.items() if k], [f for f, k in funs.items() if not k]


def ieval(t, th, I):
    if t[0] == 'v':
        return th[t[1]]
    k = 0
    for x in t[2]:
        k = k * I['n'] + ieval(x, th, I)
    return I['fun'][t[1]][k]


def iholds(c, I):
    """Candidate filter for the generator only; the specification re-decides it (CaseOk)."""
    vs = fol.cvars(c)
    for vals in itertools.product(range(I['n']), repeat=len(vs)):
        th = dict(zip(vs, vals))
        ok = False
        for s, p, a in c:
            v = [ieval(t, th, I) for t in a]
            if p == '=':
                h = v[0] == v[1]
            else:
                k = 0
                for x in v:
                    k = k * I['n'] + x
                h = I['pred'][p][k] == 1
            if h == s:
                ok = True
                break
        if not ok:
            return False
    return True


def model_set(rng, size=None):
    I, preds, funs, consts = rand_interp(rng)
    cls, tries = [], 0
    want = size or rng.randint(7, 18)
    while len(cls) < want and tries < 3000:
        tries += 1
        if rng.random() < .35:
            vs = ['X', 'Y', 'Z']
            c = [(rng.random() < .8, '=', (fol.rand_term(rng, vs, consts, funs, 2, .6), fol.rand_term(rng, vs, consts, funs, 2, .6)))]
            if c[0][2][0] == c[0][2][1]:
                continue
        else:
            c = fol.rand_clause(rng, preds, consts, funs, nvars=3, lens=(1, 1, 2, 2, 3), eqp=.3, depth=2, pv=.5)
        if any(s and p == '=' and a[0] == a[1] for s, p, a in c):
            continue
        if iholds(c, I):
            cls.append(c)
    return I, cls


# ---------------------------------------------------------------- the search trace (-print 40)
DERIVED = re.compile(r'^(?:\+ derived by (?P<rule>mp|merge|instgen|= from|= into|r=): |\+ partial derived by mp: |\+ rewriter kept \w+ \d+: |\*\*\* given \d+: |\* active: )(?P<cl>.*)$')


def trace_clauses(out, limit=100000):
    """Clauses the search printed as derived, given or rewriters."""
    r = []
    for line in out.splitlines():
        m = DERIVED.match(line)
        if m:
            r.append((m.group('rule') or 'given', m.group('cl')))
            if len(r) >= limit:
                break
    return r
