"""Runs of gkc that compute: expressions to evaluate and atoms to decide, for the specification Compute.tla.
No verdict is taken here."""
import time, json, os, re
from decimal import Decimal
from concurrent.futures import ThreadPoolExecutor
import vf, fol

NIL = ('f', '$nil', ())


def lst(xs):
    r = NIL
    for x in reversed(xs):
        r = ('f', '$list', (x, r))
    return r


def real(num):
    """the real num/8 as a literal"""
    d = Decimal(num) / 8
    s = format(d, 'f')
    return ('r', s if '.' in s else s + '.0')


def mag(n):
    r = []
    while n:
        r.append(n % 10000)
        n //= 10000
    return r


def enc(t):
    if t[0] == 'n':
        return ['int', 1 if t[1] < 0 else 0, mag(abs(t[1]))]
    if t[0] == 'r':
        d = Decimal(t[1]) * 1024
        if d != d.to_integral_value():
            return ['dec', str(t[1])]
        n = int(d)
        return ['real', 1 if n < 0 else 0, mag(abs(n))]
    if t[0] == 's':
        return ['str', list(t[1].encode())]
    if t[0] == 'v':
        return ['con', '?' + t[1]]
    if not t[2]:
        return ['con', t[1]]
    return ['app', t[1], [enc(a) for a in t[2]]]


INFIX = {'$sum': '+', '$difference': '-', '$product': '*'}


def text(t, rng, infix=True):
    """simple syntax, sometimes with infix operators and bracketed lists"""
    if t[0] == 'n' or t[0] == 'r':
        return str(t[1])
    if t[0] == 's':
        return '"' + t[1] + '"'
    if t[0] == 'v':
        return t[1]
    if t[1] == '$nil' and rng.random() < .5:
        return '[]'
    if t[1] == '$list' and len(t[2]) == 2 and rng.random() < .5:
        xs, u = [], t
        while u[0] == 'f' and u[1] == '$list' and len(u[2]) == 2:
            xs.append(u[2][0])
            u = u[2][1]
        if u == NIL:
            return '[' + ','.join(text(x, rng, infix) for x in xs) + ']'
    if infix and t[1] in INFIX and len(t[2]) == 2 and rng.random() < .4:
        a, b = t[2]
        if a[0] in 'nr' or (a[0] == 'f' and a[2]):
            return '((' + text(a, rng, infix) + ')' + INFIX[t[1]] + '(' + text(b, rng, infix) + '))' \
                if not (a[0] in 'nr' and not str(a[1]).startswith('-')) else \
                '(' + text(a, rng, infix) + ' ' + INFIX[t[1]] + ' (' + text(b, rng, infix) + '))'
    return fol.otter_sym(t[1]) + ('(' + ','.join(text(a, rng, infix) for a in t[2]) + ')' if t[2] else '')


def lit_text(l, rng, infix):
    s, p, a = l
    if p == '=':
        return ('' if s else '-') + f"=({text(a[0], rng, infix)},{text(a[1], rng, infix)})" if infix else \
            ('' if s else '~') + f"=({text(a[0], rng, False)},{text(a[1], rng, False)})" if text(a[0], rng, False)[0] == '-' else \
            f"{text(a[0], rng, False)} {'=' if s else '!='} {text(a[1], rng, False)}"    # -1 = X reads as the negation of 1 = X
    return ('' if s else ('-' if infix else '~')) + fol.otter_sym(p) + '(' + ','.join(text(x, rng, infix) for x in a) + ')'


def write(path, clauses, syn, rng):
    if syn == 'json':
        s = fol.jsonld(clauses)
    elif syn == 'tptp':
        s = ''.join(f"cnf(c{k},axiom,({' | '.join(lit_text(l, rng, False) for l in c)})).\n" for k, c in enumerate(clauses))
    else:
        s = ''.join(' | '.join(lit_text(l, rng, True) for l in c) + '.\n' for c in clauses)
    open(path, 'w').write(s)
    return s


def answers(out):
    r = []
    for line in out.splitlines():
        if line.startswith('answer: '):
            r.append(fol.parse_clause(line[8:].strip()))
    return r


def holes(e, rng, n=[0]):
    """replace some number or string leaves (outside of function-free position) by variables: (term, {var: leaf})"""
    th = {}

    def go(t, top=False):
        if t[0] in 'nrs' and rng.random() < .6:
            for v, x in th.items():
                if x == t and rng.random() < .7:
                    return ('v', v)
            v = 'V%d' % len(th)
            th[v] = t
            return ('v', v)
        if t[0] == 'f' and t[2]:
            return ('f', t[1], tuple(go(a) for a in t[2]))
        return t
    return (go(e) if isinstance(e, tuple) else [go(a) for a in e]), th


class Job:
    """clauses of one input; values j: p(j,e), tests j: a literal with p(j,ok)"""
    def __init__(self, rng):
        self.rng, self.cl, self.vals, self.tests, self.nf = rng, [], {}, {}, 0

    def guard(self, th):
        """literals -n(k,V) with facts n(k,leaf)"""
        ls = []
        for v, x in th.items():
            self.nf += 1
            self.cl.append([(True, 'nn', (('n', 5000 + self.nf), x))])
            ls.append((False, 'nn', (('n', 5000 + self.nf), ('v', v))))
        return ls

    def value(self, e, how, env=()):
        j = 1000 + len(self.vals)
        self.vals[j] = (e, env)
        if how == 'var':
            t, th = holes(e, self.rng)
            ls = self.guard(th)
            self.rng.shuffle(ls)
            self.cl.append(ls + [(True, 'p', (('n', j), t))])
        else:
            self.cl.append([(True, 'p', (('n', j), e))])

    def test(self, p, a, how, env=()):
        j = 2000 + len(self.tests)
        self.tests[j] = (p, a, env)
        if how == 'var':
            t, th = holes(list(a), self.rng)
            ls = self.guard(th)
        else:
            t, ls = list(a), []
        pos = self.rng.random() < .5
        # the literal is false when the atom is false (t) or true (not t)
        c = ls + [(pos, p, tuple(t)), (True, 'p', (('n', j), ('f', 'isfalse' if pos else 'istrue', ())))]
        if self.rng.random() < .5:
            self.rng.shuffle(c)
        self.cl.append(c)
        self.tests[j] = (p, a, env, how == 'fact' and not env)

    def run(self, gkc, path, syn, strat, both):
        """both: the list of runs (inputs) made"""
        q = [[(False, 'p', (('v', 'X'), ('v', 'Y'))), (True, '$ans', (('v', 'X'), ('v', 'Y')))]]
        flip = []
        for c in self.cl:
            d = []
            for s, p, a in c:
                if p == 'p' and a[1] in (('f', 'isfalse', ()), ('f', 'istrue', ())):
                    d.append((s, p, (a[0], ('f', 'istrue' if a[1][1] == 'isfalse' else 'isfalse', ()))))
                elif p[0] == '$' or p == '=':
                    d.append((not s, p, a) if len(c) > 1 else (s, p, a))
                else:
                    d.append((s, p, a))
            flip.append(d)
        got, outs = {}, []
        for k, cls in enumerate((self.cl, flip)):
            f = f'{path}{k}.{"js" if syn == "json" else "txt"}'
            txt = write(f, cls + q, syn, self.rng)
            t0 = time.time()
            r = vf.run_cmd([gkc, f, '-parallel', '0', '-seconds', '2', '-mbsize', '30', '-strategytext', json.dumps(strat)], timeout=30)
            os.unlink(f)
            r.slow = time.time() - t0 > .5      # the search may have been cut short
            outs.append((txt, r))
            for ans in answers(r.out):
                if len(ans) == 1:
                    x, y = ans[0][2]
                    got.setdefault(x[1], []).append(y)
            if not self.tests:
                break
        return got, outs

    def case(self, got, full):
        vals = [{'must': full and not env, 'e': enc(e), 'env': [[n, enc(v)] for n, v in env], 'got': [enc(y) for y in got.get(j, [])]} for j, (e, env) in self.vals.items()]
        tests = []
        for j, (p, a, env, ground) in self.tests.items():
            g = {y[1] for y in got.get(j, [])}
            tests.append({'p': p, 'a': [enc(x) for x in a], 'env': [[n, enc(v)] for n, v in env], 'must': ground and full,
                          'got': 'tf' if len(g) == 2 else 'u' if not g else 't' if 'istrue' in g else 'f'})
        return {'vals': vals, 'tests': tests, 'sols': []}
