"""First-order formulas on the Python side: random generation, printing in gkc's syntaxes, parsing what gkc prints,
encoding for Formula.tla.  No verdict is taken here.

formula  ('lit',(sign,pred,args)) ('true',) ('false',) ('not',f) ('and'|'or',f,..) ('imp'|'rimp'|'iff'|'xor'|'nor'|'nand',f,g)
         ('all'|'ex',[vars],f)
"""
import json, itertools, re
import fol

PREDS = {'p': 1, 'q': 2, 's': 0, 'r': 1, 't': 3}
FUNS = {'f': 1, 'g': 2, 'a': 0, 'b': 0, 'e': 0}
BIN = {'imp': '=>', 'rimp': '<=', 'iff': '<=>', 'xor': '<~>', 'nor': '~|', 'nand': '~&'}


# ---------------------------------------------------------------- generation
LISTS = False       # more of the terms that are printed as lists when g and e are renamed


def rand_term(rng, vs, depth):
    x = rng.random()
    if LISTS and depth and x > .55:
        t = ('f', 'e', ())
        for _ in range(rng.choice([1, 1, 2, 3])):
            t = ('f', 'g', (rand_term(rng, vs, depth - 1), t))
        return t
    if vs and x < .72:
        return ('v', rng.choice(vs))
    if depth and x > .86:
        f = rng.choice(['f', 'f', 'g'])
        return ('f', f, tuple(rand_term(rng, vs, depth - 1) for _ in range(FUNS[f])))
    return ('f', rng.choice(['a', 'b', 'e']), ())


def rand_atom(rng, vs):
    x = rng.random()
    if x < .15:
        return ('lit', (rng.random() < .6, '=', (rand_term(rng, vs, 1), rand_term(rng, vs, 1))))
    if x < .18:
        return (rng.choice(['true', 'false']),)
    p = rng.choice(['p', 'q', 'q', 'r', 's', 't'] if vs else ['p', 'q', 'r', 's', 's'])
    return ('lit', (True, p, tuple(rand_term(rng, vs, 1) for _ in range(PREDS[p]))))


def rand_formula(rng, vs, depth, budget):
    """budget: [number of <=> like connectives left, quantifiers left]"""
    if depth <= 0 or rng.random() < .08:
        a = rand_atom(rng, vs)
        return a if rng.random() < .75 else ('not', a)
    x = rng.random()
    if x < .38 and budget[1] > 0:
        nv = rng.choice([1, 1, 1, 2])
        budget[1] -= nv
        new = rng.sample(['X', 'Y', 'Z', 'W'], nv)
        f = rand_formula(rng, list(dict.fromkeys(list(vs) + new + new)), depth - 1, budget)
        return (rng.choice(['all', 'ex']), new, f)
    if x < .66:
        return (rng.choice(['and', 'or']),) + tuple(rand_formula(rng, vs, depth - 1, budget) for _ in range(rng.choice([2, 2, 2, 3])))
    if x < .74:
        return ('not', rand_formula(rng, vs, depth - 1, budget))
    if x < .86 or budget[0] <= 0:
        return (rng.choice(['imp', 'imp', 'rimp', 'nor', 'nand']), rand_formula(rng, vs, depth - 1, budget), rand_formula(rng, vs, depth - 1, budget))
    budget[0] -= 1
    return (rng.choice(['iff', 'xor']), rand_formula(rng, vs, depth - 1, budget), rand_formula(rng, vs, depth - 1, budget))


def iff_nest(rng, n):
    """deeply nested equivalences, which the clausifier abbreviates by definitions"""
    if n == 0:
        return rand_atom(rng, ['X'])
    return (rng.choice(['iff', 'iff', 'xor']), iff_nest(rng, n - 1), iff_nest(rng, n - 1))


def alternating(rng):
    """quantifier prefix over a small matrix, below some connectives"""
    vs = rng.sample(['X', 'Y', 'Z', 'W'], rng.choice([2, 3, 3]))
    f = rand_formula(rng, vs, rng.choice([1, 2, 2]), [1, 0])
    for v in reversed(vs):
        f = (rng.choice(['all', 'ex']), [v], f)
        if rng.random() < .25:
            f = rng.choice([('not', f), ('or', f, rand_atom(rng, vs[:vs.index(v)])), ('imp', rand_atom(rng, vs[:vs.index(v)]), f), ('iff', f, rand_atom(rng, vs[:vs.index(v)]))])
    return f


def prefix(rng):
    """strict alternation of four or five quantifiers, with literals that link variables far apart"""
    vs = rng.sample(['X', 'Y', 'Z', 'W', 'V'], rng.choice([4, 4, 5]))

    def lit():
        k = rng.choice([3, 3, 2])
        a = rng.sample(vs, k)
        return ('lit', (rng.random() < .6, 't' if k == 3 else 'q', tuple(('v', v) for v in a)))
    f = lit()
    for _ in range(rng.choice([0, 1, 1, 2])):
        f = (rng.choice(['and', 'or', 'or', 'iff', 'imp']), f, lit())
    q = rng.random() < .6
    for v in reversed(vs):
        f = ('ex' if q else 'all', [v], f)
        q = not q
        if rng.random() < .15:
            f = (rng.choice(['and', 'or']), f, rand_atom(rng, vs[:vs.index(v)]))
        if rng.random() < .1:
            f = ('not', f)
    return f


def spine(rng):
    """connectives many levels deep, with quantifiers far apart: every level has one atom beside it"""
    n = rng.choice([6, 8, 8, 10, 14])
    at = sorted(rng.sample(range(n), rng.choice([2, 3, 3])))
    vs = rng.sample(['X', 'Y', 'Z', 'W'], len(at))

    def level(k, bound):
        if k == n:
            a = rand_atom(rng, bound)
            b = ('lit', (True, 'q', tuple(('v', v) for v in (bound * 2)[:2])))
            return rng.choice([a, b, ('not', b), ('or', a, b), ('and', b, a)])
        if k in at:
            v = vs[at.index(k)] if rng.random() < .9 else rng.choice(vs)
            return (rng.choice(['all', 'ex']), [v], level(k + 1, [x for x in bound if x != v] + [v]))
        f, a = level(k + 1, bound), rand_atom(rng, bound)
        c = rng.choice(['and', 'and', 'or', 'or', 'imp', 'rimp', 'not', 'nor', 'nand'])
        return ('not', f) if c == 'not' else (c, a, f) if rng.random() < .6 else (c, f, a)
    return level(0, [])


def rand_closed(rng, depth=None):
    if rng.random() < .12:
        return spine(rng)
    if rng.random() < .2:
        return prefix(rng)
    if rng.random() < .3:
        return alternating(rng)
    if rng.random() < .06:
        return ('all' if rng.random() < .7 else 'ex', ['X'], iff_nest(rng, rng.choice([2, 2, 3])))
    return rand_formula(rng, [], depth or rng.choice([2, 3, 3, 4, 4, 5]), [rng.choice([1, 2, 3]), 4])


def size(f):
    if f[0] in ('lit', 'true', 'false'):
        return 1
    if f[0] in ('all', 'ex'):
        return 1 + size(f[2])
    return 1 + sum(map(size, f[1:]))


def rand_interp(rng, n=None):
    n = n or rng.choice([1, 2, 2, 2, 2, 2, 2, 3])
    return {'n': n, 'fun': {f: [rng.randrange(n) for _ in range(n ** k)] for f, k in FUNS.items()},
            'pred': {p: [int(rng.random() < d) for _ in range(n ** k)] for p, k in PREDS.items() for d in [rng.choice([.2, .5, .5, .8])]}}


def _tv(t, th, I):
    if t[0] == 'v':
        return th[t[1]]
    k = 0
    for a in t[2]:
        k = k * I['n'] + _tv(a, th, I)
    return I['fun'][t[1]][k]


def guess(f, I, th={}):
    """Candidate filter for balanced interpretations; the specification evaluates the formula itself."""
    o = f[0]
    if o == 'lit':
        s, p, a = f[1]
        v = [_tv(t, th, I) for t in a]
        if p == '=':
            return (v[0] == v[1]) == s
        k = 0
        for x in v:
            k = k * I['n'] + x
        return (I['pred'][p][k] == 1) == s
    if o in ('true', 'false'):
        return o == 'true'
    if o in ('all', 'ex'):
        g = (guess(f[2], I, {**th, **dict(zip(f[1], v))}) for v in itertools.product(range(I['n']), repeat=len(f[1])))
        return all(g) if o == 'all' else any(g)
    if o == 'not':
        return not guess(f[1], I, th)
    v = [guess(x, I, th) for x in f[1:]]
    return {'and': all(v), 'or': any(v), 'imp': not v[0] or v[-1], 'rimp': v[0] or not v[-1], 'iff': v[0] == v[-1], 'xor': v[0] != v[-1],
            'nor': not any(v), 'nand': not all(v)}[o]


def interps(rng, fs, want, tries=200):
    """want interpretations in which the formulas differ in truth as much as random ones do"""
    pool = [rand_interp(rng) for _ in range(tries)]
    out, need = [], {}
    for I in pool:
        v = tuple(guess(f, I) for f in fs)
        fresh = [k for k in enumerate(v) if need.get(k, 0) < max(2, want // 3)]
        if fresh or len(out) < 3:
            out.append(I)
            for k in enumerate(v):
                need[k] = need.get(k, 0) + 1
        if len(out) >= want:
            break
    return out


# ---------------------------------------------------------------- printing
def tptp(f, top=False):
    o = f[0]
    if o == 'lit':
        s, p, a = f[1]
        if p == '=':
            return f"{fol.p_term(a[0])} {'=' if s else '!='} {fol.p_term(a[1])}"
        return ('' if s else '~') + fol.otter_sym(p) + ('(' + ','.join(map(fol.p_term, a)) + ')' if a else '')
    if o in ('true', 'false'):
        return '$' + o
    if o == 'not':
        return '~' + par(f[1])
    if o in ('all', 'ex'):
        return f"{'!' if o == 'all' else '?'}[{','.join(f[1])}]:{par(f[2], q=True)}"
    if o in ('and', 'or'):
        return (' & ' if o == 'and' else ' | ').join(par(x, same=o) for x in f[1:])
    return f"{par(f[1])} {BIN[o]} {par(f[2])}"


def par(f, q=False, same=None):
    s = tptp(f)
    if f[0] in ('true', 'false') or f[0] == 'lit' and f[1][1] != '=':
        return s
    if q and f[0] in ('all', 'ex', 'not'):
        return s
    return '(' + s + ')'


def simple(f):
    """the plain syntax: every subformula parenthesised, which its grammar reads the same way in every context"""
    o = f[0]
    if o == 'lit':
        s = tptp(f).replace('~', '-', 1) if f[1][1] != '=' else '(' + tptp(f) + ')'
        return s
    if o in ('true', 'false'):
        return '$' + o
    if o == 'not':
        return '-(' + simple(f[1]) + ')'
    if o in ('all', 'ex'):
        return f"{'!' if o == 'all' else '?'}[{','.join(f[1])}]:({simple(f[2])})"
    if o in ('and', 'or'):
        return (' & ' if o == 'and' else ' | ').join('(' + simple(x) + ')' for x in f[1:])
    return f"({simple(f[1])}) {BIN[o]} ({simple(f[2])})"


BARE = False        # propositions as plain strings


def js_out(x):
    if x[0] == 's':
        return '#:' + x[1]
    if x[0] != 'f' or not x[2]:
        return float(x[1]) if x[0] == 'r' else x[1]
    return [x[1]] + [js_out(b) for b in x[2]]


def js(f):
    o = f[0]
    if o == 'lit':
        s, p, a = f[1]
        t = js_out
        if p == '=':
            x = [t(a[0]), '=', t(a[1])]
            return x if s else ['not', x]
        if BARE and not a:
            return p if s else ['not', p]
        x = [p] + [t(b) for b in a]
        return x if s else ['-' + p] + x[1:]
    if o in ('true', 'false'):
        return o == 'true'
    if o == 'not':
        return ['not', js(f[1])]
    if o in ('all', 'ex'):
        return ['forall' if o == 'all' else 'exists', list(f[1]), js(f[2])]
    if o in ('and', 'or'):
        op = {'and': '&', 'or': '|'}[o]
        if size(f) % 2:
            return [o] + [js(x) for x in f[1:]]
        r = [js(f[1])]
        for x in f[2:]:
            r += [op, js(x)]
        return r
    return [js(f[1]), BIN[o], js(f[2])]


# ---------------------------------------------------------------- parsing the formulas gkc prints
FTOK = re.compile(r"""\s*(?:(?P<q>'(?:\\.|[^'\\])*')|(?P<s>"(?:\\.|[^"\\])*")|(?P<num>[+-]?\d+(?:\.\d+)?(?:[eE][+-]?\d+)?)|(?P<w>[$A-Za-z_][\w$]*)|(?P<op><=>|<~>|=>|<=|~\||~&|!=|[-~!?(),|&=\[\].:]))""")


class TP:
    """TPTP formula, as printed by -convert -tptp"""
    def __init__(self, s):
        self.t, pos = [], 0
        s = s.strip()
        while pos < len(s):
            m = FTOK.match(s, pos)
            if not m:
                raise fol.ParseError(s[pos:pos + 40])
            self.t.append((m.lastgroup, m.group(m.lastgroup)))
            pos = m.end()
            while pos < len(s) and s[pos].isspace():
                pos += 1
        self.i = 0

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def nxt(self):
        x = self.t[self.i] if self.i < len(self.t) else (None, None)
        self.i += 1
        return x

    def need(self, v):
        x = self.nxt()[1]
        if x != v:
            raise fol.ParseError(f'expected {v} got {x}')

    def whole(self):
        r = []
        while self.i < len(self.t):
            kind = self.nxt()[1]
            if kind not in ('fof', 'cnf'):
                raise fol.ParseError('statement ' + str(kind))
            self.need('(')
            name = self.nxt()[1]
            self.need(',')
            role = self.nxt()[1]
            self.need(',')
            f = self.formula()
            self.need(')')
            self.need('.')
            r.append((kind, name.strip("'"), role, f))
        return r

    def formula(self):
        a = self.unit()
        o = self.peek()
        if o in ('&', '|'):
            fs = [a]
            while self.peek() == o:
                self.nxt()
                fs.append(self.unit())
            a = ('and' if o == '&' else 'or',) + tuple(fs)
            if self.peek() in ('&', '|'):
                raise fol.ParseError('mixed & and |')
            return a
        for k, v in BIN.items():
            if o == v:
                self.nxt()
                return (k, a, self.unit())
        return a

    def unit(self):
        v = self.peek()
        if v == '~':
            self.nxt()
            return ('not', self.unit())
        if v in ('!', '?'):
            self.nxt()
            self.need('[')
            vs = [self.nxt()[1]]
            while self.peek() == ',':
                self.nxt()
                vs.append(self.nxt()[1])
            self.need(']')
            self.need(':')
            return ('all' if v == '!' else 'ex', vs, self.unit())
        if v == '(':
            self.nxt()
            f = self.formula()
            self.need(')')
            return f
        t = self.term()
        if self.peek() in ('=', '!='):
            s = self.nxt()[1] == '='
            return ('lit', (s, '=', (t, self.term())))
        if t[0] != 'f':
            raise fol.ParseError('not an atom')
        if t[1] in ('$true', '$false'):
            return (t[1][1:],)
        return ('lit', (True, t[1], t[2]))

    def term(self):
        k, v = self.nxt()
        if k == 'num':
            return ('n', int(v)) if re.fullmatch(r'[+-]?\d+', v) else ('r', repr(float(v)))
        if k == 's':
            return ('s', re.sub(r'\\(.)', r'\1', v[1:-1]))
        if k == 'q':
            v = re.sub(r'\\(.)', r'\1', v[1:-1])
        elif k == 'w':
            if v[0].isupper() or v[0] == '_':
                return ('v', v)
        else:
            raise fol.ParseError(str(v))
        if self.peek() == '(':
            self.nxt()
            a = [self.term()]
            while self.peek() == ',':
                self.nxt()
                a.append(self.term())
            self.need(')')
            return ('f', v, tuple(a))
        return ('f', v, ())


def parse_js(x, bound=()):
    """Formula of -convert -json"""
    if x is True or x is False:
        return ('true',) if x else ('false',)
    if isinstance(x, str):
        if x in ('$true', '$false'):
            return (x[1:],)
        s = not (x.startswith('-') and len(x) > 1)
        return ('lit', (s, x if s else x[1:], ()))
    if not isinstance(x, list) or not x:
        raise fol.ParseError(str(x))
    if x[0] in ('forall', 'exists') and len(x) == 3 and isinstance(x[1], list):
        return ('all' if x[0] == 'forall' else 'ex', list(x[1]), parse_js(x[2], tuple(bound) + tuple(x[1])))
    if x[0] in ('not', '~', '-') and len(x) == 2:
        return ('not', parse_js(x[1], bound))
    if x[0] in ('and', 'or') and len(x) > 1:
        return (x[0],) + tuple(parse_js(y, bound) for y in x[1:])
    if len(x) >= 3 and isinstance(x[1], str) and x[1] in ('=', '!='):
        if len(x) != 3:
            raise fol.ParseError(str(x))
        return ('lit', (x[1] == '=', '=', (js_term(x[0], bound), js_term(x[2], bound))))
    if len(x) >= 3 and isinstance(x[1], str) and x[1] in ('&', '|', 'and', 'or') and len(x) % 2 and all(y == x[1] for y in x[1::2]):
        return ('and' if x[1] in ('&', 'and') else 'or',) + tuple(parse_js(y, bound) for y in x[::2])
    if len(x) == 3 and isinstance(x[1], str):
        for k, v in BIN.items():
            if x[1] == v:
                return (k, parse_js(x[0], bound), parse_js(x[2], bound))
    if not isinstance(x[0], str):
        raise fol.ParseError(json.dumps(x))
    p, s = x[0], True
    if p in ('=', '-=', '!='):
        return ('lit', (p == '=', '=', tuple(js_term(y, bound) for y in x[1:])))
    if p.startswith('-') and len(p) > 1:
        p, s = p[1:], False
    return ('lit', (s, p, tuple(js_term(y, bound) for y in x[1:])))


def js_term(x, bound):
    if isinstance(x, bool):
        raise fol.ParseError('truth value in a term')
    if isinstance(x, int):
        return ('n', x)
    if isinstance(x, float):
        return ('r', repr(x))
    if isinstance(x, str):
        if x in bound:
            return ('v', x)
        if x.startswith('?:'):
            return ('v', x[2:])
        if x.startswith('#:'):
            return ('s', x[2:])
        return ('f', x, ())
    if not x or not isinstance(x[0], str):
        raise fol.ParseError(json.dumps(x))
    return ('f', x[0], tuple(js_term(y, bound) for y in x[1:]))


def free(f, bound=()):
    o = f[0]
    if o == 'lit':
        r = []
        for a in f[1][2]:
            fol.tvars(a, r)
        return [v for v in r if v not in bound]
    if o in ('true', 'false'):
        return []
    if o in ('all', 'ex'):
        return free(f[2], tuple(bound) + tuple(f[1]))
    r = []
    for g in f[1:]:
        for v in free(g, bound):
            if v not in r:
                r.append(v)
    return r


def close(f):
    v = free(f)
    return ('all', v, f) if v else f


# ---------------------------------------------------------------- encoding
def enc(f, vm):
    o = f[0]
    if o == 'lit':
        s, p, a = f[1]
        return ['lit', [1 if s else 0, p, [fol.e_term(t, vm) for t in a]]]
    if o in ('true', 'false'):
        return [o]
    if o in ('all', 'ex'):
        return [o, [vm.setdefault(v, len(vm) + 1) for v in f[1]], enc(f[2], vm)]
    return [o] + [enc(g, vm) for g in f[1:]]


# ---------------------------------------------------------------- renaming symbols
def rename(f, fun, pred):
    """fun: name -> name, or a number, real or string term for a constant; pred: name -> name"""
    def t(x):
        if x[0] == 'v':
            return x
        if x[0] == 'f':
            y = fun.get(x[1] if x[2] else (x[1], 0), x[1])
            return y if isinstance(y, tuple) else ('f', y, tuple(map(t, x[2])))
        return fun.get(x, x)
    o = f[0]
    if o == 'lit':
        s, p, a = f[1]
        return ('lit', (s, pred.get(p, p), tuple(map(t, a))))
    if o in ('true', 'false'):
        return f
    if o in ('all', 'ex'):
        return (o, f[1], rename(f[2], fun, pred))
    return (o,) + tuple(rename(g, fun, pred) for g in f[1:])


def inverse(fun, pred):
    def term(k, v):
        if isinstance(v, tuple):
            return v, ('f', k[0], ())
        return ((v, 0), k[0]) if isinstance(k, tuple) else (v, k)
    return dict(term(k, v) for k, v in fun.items()), {v: k for k, v in pred.items()}
