"""C03: printed proofs are derivations from the input (Proof.tla over Calculus.tla)."""
import vf, fol, gen, json, re, os, random
from vf import scale
from fol import V, F

ROLE = {'axiom': 'axiom', 'hypothesis': 'assumption', 'negated_conjecture': 'goal'}


def prop(c):
    """$pr(s) is how a proposition s is printed."""
    return [(s, a[0][1], ()) if p == '$pr' and len(a) == 1 and a[0][0] == 'f' else (s, p, a) for s, p, a in c]


def norm_eq(c):
    return c


def step(line):
    num, how, cl = line
    rule = how[0]
    d = {'num': num, 'rule': rule, 'prem': [], 'pos': [], 'role': '', 'name': '', 'cl': fol.e_clause(prop(fol.parse_js_clause(cl)))}
    rest = how[1:]
    if rest and isinstance(rest[-1], str):
        d['role'] = rest[-1]
        rest = rest[:-1]
    if rule == 'in':
        d['name'] = rest[0] if rest else ''
        return d
    for x in rest:
        if isinstance(x, list):
            if rule == 'arithinst':
                continue
            pos, x = x[1:], x[0]
        else:
            pos = []
        if isinstance(x, int):
            d['prem'].append(x)
            d['pos'].append([q if isinstance(q, int) else 'LR'.index(q) for q in pos] + [0] * (2 - len(pos)))
    return d


def ans_set(rng):
    """A contradictory-by-construction set with answer literals: facts, rules and a question."""
    consts = ['a', 'b', 'c'][:rng.randint(2, 3)]
    cls = [[(True, rng.choice('pq'), (F(rng.choice(consts)), F(rng.choice(consts))))] for _ in range(rng.randint(2, 5))]
    if rng.random() < .5:
        cls.append([(True, 'p', (F(consts[0]), F(consts[1]))), (True, 'q', (F(consts[1]), F(consts[0])))])
    X, Y, Z = V('X'), V('Y'), V('Z')
    rules = [[(False, 'p', (X, Y)), (True, 'q', (Y, X))], [(False, 'p', (X, Y)), (False, 'p', (Y, Z)), (True, 'p', (X, Z))],
             [(False, 'q', (X, Y)), (True, 'r', (X,))], [(False, 'p', (X, Y)), (True, 'r', (F('f', X),))],
             [(False, 'r', (X,)), (True, 'p', (X, F('f', X)))], [(True, '=', (F('f', X), F(consts[0]))), (False, 'r', (X,))]]
    cls += rng.sample(rules, rng.randint(1, 4))
    q = rng.choice([[(False, 'r', (X,)), (True, '$ans', (X,))], [(False, 'p', (X, Y)), (True, '$ans', (X, Y))],
                    [(False, 'q', (X, F(consts[0]))), (False, 'r', (X,)), (True, '$ans', (X,))],
                    [(False, 'p', (F(consts[0]), X)), (False, 'q', (X, Y)), (True, '$ans', (X, Y))]])
    cls.append(q)
    rng.shuffle(cls)
    return cls


THEORIES = [
    'f(f(X,Y),Z) = f(X,f(Y,Z)). f(e,X) = X. f(g(X),X) = e.',
    'f(f(X,Y),Z) = f(X,f(Y,Z)). f(X,Y) = f(Y,X). f(X,X) = X. -p(X) | -p(Y) | p(f(X,Y)). p(a). p(b).',
    '-q(X,Y) | -q(Y,Z) | q(X,Z). -q(X,Y) | q(f(X,Z),f(Y,Z)). q(a,b). q(b,e). -q(X,Y) | -q(Y,X) | X = Y.',
    'f(X,e) = X. f(X,g(Y)) = g(f(X,Y)). p(e). -p(X) | p(g(g(X))). g(X) != e.',
    '-p(X) | p(g(X)) | q(X,X). -q(X,Y) | q(Y,g(X)). p(a). -p(g(g(X))) | s. p(X) | q(X,a).',
    'f(X,f(Y,Z)) = f(Y,f(X,Z)). f(a,b) = e. -q(f(X,Y),Z) | q(X,Z). q(f(a,f(b,a)),X).',
]


def negated(c):
    """The clauses saying that c fails for some values of its variables."""
    th = {v: F(f'sk{k}') for k, v in enumerate(fol.cvars(c))}
    return [[(not s, p, a)] for s, p, a in fol.csubst(c, th)]


def theorems(rng, n):
    """Clause sets from which the search derived a clause, plus that clause negated."""
    jobs = []
    for i in range(n):
        if rng.random() < .5:
            cls = [fol.parse_clause(x) for x in rng.choice(THEORIES).split('. ') if x.strip()]
        else:
            I, cls = gen.model_set(rng, 6)
        p = gen.write_problem(f't{i}', cls)
        st = dict(gen.rand_strategy(rng), max_dseconds=1)
        for k in ('instgen', 'propgen'):
            st.pop(k, None)
        jobs.append((cls, p, st))
    res = vf.pmap(lambda j: vf.run_cmd([vf.gkc_bin(), j[1], '-print', '40', *vf.BASE, *vf.strat_arg(j[2])], timeout=20), jobs)
    out = []
    for (cls, p, st), r in zip(jobs, res):
        tr = [t for rule, t in gen.trace_clauses(r.out, 1500) if '$' not in t and len(t) < 100]
        for text in rng.sample(tr, min(6, len(tr))):
            try:
                c = fol.parse_clause(text)
            except fol.ParseError:
                continue
            if c and all(p != '$var' for _, p, _ in c):
                out.append(cls + negated(c))
    return out


def go(ck):
    rng = ck.rng
    vf.gkc_bin()
    jobs = []
    sub = random.Random(rng.random())     # what the search derives depends on timing: keep it from the other choices
    thms = theorems(sub, scale(150, 1500))
    sub.shuffle(thms)
    n = scale(3000, 24000)
    for i in range(n):
        kind = rng.choice(['epr', 'lifted', 'ans', 'thm'])
        if kind == 'epr':
            cls = gen.epr_set(rng, eq=rng.random() < .5)
        elif kind == 'lifted':
            g, cls = gen.lifted_set(rng, eq=rng.random() < .6)
        elif kind == 'ans':
            cls = ans_set(rng)
        elif thms:
            cls = thms.pop()
            sub.shuffle(cls)
        else:
            continue
        syn = rng.choice(['otter', 'tptp', 'tptp', 'json'])
        roles = gen.rand_roles(rng, cls) if syn == 'tptp' else None
        st = gen.rand_strategy(rng)
        for k in ('instgen', 'propgen'):
            st.pop(k, None)
        st[rng.choice(['max_seconds', 'max_dseconds'])] = 2
        p = gen.write_problem(f'c{i}', cls, syn, roles)
        jobs.append((cls, p, st, syn, roles))
    res = vf.pmap(lambda j: vf.run_cmd([vf.gkc_bin(), j[1], '-json', '-print', '11', *vf.BASE, *vf.strat_arg(j[2])], timeout=30), jobs)
    cases, meta = [], []
    for (cls, p, st, syn, roles), r in zip(jobs, res):
        v = vf.verdict_of(r)
        ck.count('verdict_' + v)
        if v != 'proof':
            continue
        info = {'problem': open(p).read(), 'syntax': syn, 'strategy': st, 'output': r.out[-4000:]}
        try:
            o = json.loads(r.out)
        except ValueError:
            i0 = r.out.find('{"result"')
            try:
                o, _ = json.JSONDecoder().raw_decode(r.out[i0:])
            except ValueError as e:
                ck.violation(f'proof output is not readable: {e}', info)
                continue
        inp = [{'cl': fol.e_clause(c), 'role': ROLE[roles[k]] if roles else 'axiom', 'name': f'c{k}' if syn == 'tptp' else ''}
               for k, c in enumerate(cls)]
        for a in o['answers']:
            try:
                steps = [step(x) for x in a['proof']]
                ans = fol.e_clause(fol.parse_js_clause(a['answer'])) if 'answer' in a else []
            except (fol.ParseError, KeyError, IndexError, TypeError, ValueError) as e:
                ck.violation(f'proof has an unreadable line: {e!r}', info)
                continue
            for s in steps:
                ck.count('rule ' + s['rule'])
            cases.append({'input': inp, 'steps': steps, 'goal': 'answer' if ans else 'false', 'answer': ans})
            meta.append(info)
    ck.count('longest_proof', max([len(c['steps']) for c in cases] or [0]))
    seen, keep = set(), []
    for k, c in enumerate(cases):
        key = json.dumps(c['steps'])
        if key not in seen and len(c['steps']) <= 60:
            seen.add(key)
            keep.append(k)
    bad, st = vf.tlc_cases('Proof', [cases[k] for k in keep])
    ck.add_stats(st, len(keep))
    if keep:
        ck.sample({'steps': cases[keep[0]]['steps']})
        ck.sample({'steps': cases[keep[-1]]['steps']})
    for j, invs in sorted(bad.items()):
        ck.violation(f"{sorted(invs)} violated by the proof of {meta[keep[j]]['problem']!r}", dict(meta[keep[j]], steps=cases[keep[j]]['steps']))


vf.main(go, 'C03')
