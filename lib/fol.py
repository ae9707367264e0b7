"""First-order clauses on the Python side: generation, printing in gkc's input syntaxes, parsing gkc's
output, and encoding for the TLA+ specifications (module Fol).  No verdict is taken here.

term    ('v',name) | ('f',sym,(args)) | ('n',int) | ('r',text) | ('s',text)   (distinct symbol / string)
literal (sign bool, pred str, (args));  equality has pred '='
"""
import re, json


def V(x): return ('v', x)
def F(s, *a): return ('f', s, tuple(a))


def tvars(t, acc=None):
    acc = [] if acc is None else acc
    if t[0] == 'v':
        if t[1] not in acc:
            acc.append(t[1])
    elif t[0] == 'f':
        for a in t[2]:
            tvars(a, acc)
    return acc


def cvars(c):
    acc = []
    for l in c:
        for a in l[2]:
            tvars(a, acc)
    return acc


def tsize(t):
    return 1 + (sum(tsize(a) for a in t[2]) if t[0] == 'f' else 0)


def subst(t, th):
    if t[0] == 'v':
        return th.get(t[1], t)
    if t[0] == 'f':
        return ('f', t[1], tuple(subst(a, th) for a in t[2]))
    return t


def csubst(c, th):
    return [(s, p, tuple(subst(a, th) for a in args)) for s, p, args in c]


# ---------------------------------------------------------------- printing
def otter_sym(s):
    return s if re.fullmatch(r'[a-z$][A-Za-z0-9_]*', s) else "'" + s.replace('\\', '\\\\').replace("'", "\\'") + "'"


def p_term(t):
    if t[0] == 'v':
        return t[1]
    if t[0] == 'f':
        xs, u = [], t
        while u[0] == 'f' and u[1] == '$list' and len(u[2]) == 2:
            xs.append(p_term(u[2][0]))
            u = u[2][1]
        if xs and u == ('f', '$nil', ()):
            return '[' + ','.join(xs) + ']'
        return otter_sym(t[1]) + ('(' + ','.join(p_term(a) for a in t[2]) + ')' if t[2] else '')
    if t[0] == 's':
        return '"' + t[1] + '"'
    return str(t[1])


def otter_lit(l):
    s, p, a = l
    if p == '=':
        return f"{p_term(a[0])} {'=' if s else '!='} {p_term(a[1])}"
    return ('' if s else '-') + otter_sym(p) + ('(' + ','.join(map(p_term, a)) + ')' if a else '')


def otter_clause(c):
    return ' | '.join(map(otter_lit, c)) + '.'


def otter(cls):
    return '\n'.join(map(otter_clause, cls)) + '\n'


def tptp_lit(l):
    s, p, a = l
    if p == '=':
        return f"{p_term(a[0])} {'=' if s else '!='} {p_term(a[1])}"
    return ('' if s else '~') + otter_sym(p) + ('(' + ','.join(map(p_term, a)) + ')' if a else '')


def tptp(cls, roles=None):
    return '\n'.join(f"cnf(c{i},{roles[i] if roles else 'axiom'},({' | '.join(map(tptp_lit, c))}))." for i, c in enumerate(cls)) + '\n'


def js_term(t):
    if t[0] == 'v':
        return '?:' + t[1]
    if t[0] == 'f':
        return [t[1]] + [js_term(a) for a in t[2]] if t[2] else t[1]
    if t[0] == 's':
        return '#:' + t[1]
    if t[0] == 'n':
        return t[1]
    return float(t[1])


def js_lit(l):
    s, p, a = l
    if p == '=':
        x = [js_term(a[0]), '=', js_term(a[1])]
        return x if s else ['~', x]
    x = [p] + [js_term(b) for b in a]
    return x if s else ['-' + p] + x[1:]


def js_clause(c):
    r = js_lit(c[0])
    for l in c[1:]:
        r = [r, '|', js_lit(l)]
    return r


def jsonld(cls):
    return json.dumps([js_clause(c) for c in cls])


# ---------------------------------------------------------------- parsing gkc's text output
TOK = re.compile(r"""\s*(?:(?P<q>'(?:\\.|[^'\\])*')|(?P<s>"(?:\\.|[^"\\])*")|(?P<num>[+-]?\d+(?:\.\d+)?(?:[eE][+-]?\d+)?)|(?P<w>[?$A-Za-z_:#][\w$:#?]*)|(?P<op>!=|[-~(),|=\[\].]))""")


class ParseError(Exception):
    pass


def tokens(s):
    pos, out = 0, []
    s = s.strip()
    while pos < len(s):
        m = TOK.match(s, pos)
        if not m:
            raise ParseError(s[pos:pos + 40])
        k = m.lastgroup
        out.append((k, m.group(k)))
        pos = m.end()
        while pos < len(s) and s[pos].isspace():
            pos += 1
    return out


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def nxt(self):
        x = self.peek()
        self.i += 1
        return x

    def expect(self, v):
        if self.nxt()[1] != v:
            raise ParseError('expected ' + v)

    def term(self):
        k, v = self.nxt()
        if k == 'num':
            return ('n', int(v)) if re.fullmatch(r'[+-]?\d+', v) else ('r', v)
        if k == 's':
            return ('s', v[1:-1])
        if k == 'op' and v in ('=', '-'):
            name = v
            if v == '-' and self.peek()[1] == '=':
                self.nxt()
                name = '-='
            if self.peek()[1] != '(':
                raise ParseError('operator')
        elif k == 'q':
            name = re.sub(r'\\(.)', r'\1', v[1:-1])
        elif k == 'w':
            if v[0] == '?' or v[0].isupper() or v[0] == '_':
                return ('v', v)
            name = v
        else:
            raise ParseError(str(v))
        if self.peek()[1] == '(':
            self.nxt()
            if self.peek()[1] == ')':     # a proposition is printed s()
                self.nxt()
                return ('f', name, ())
            args = [self.term()]
            while self.peek()[1] == ',':
                self.nxt()
                args.append(self.term())
            self.expect(')')
            return ('f', name, tuple(args))
        return ('f', name, ())

    def lit(self):
        sign = True
        while self.peek()[1] in ('-', '~'):
            if self.peek()[0] == 'num':
                break
            sign = not sign
            self.nxt()
        if self.peek()[1] == '(':     # parenthesised equality
            self.nxt()
            l = self.lit()
            self.expect(')')
            return (l[0] if sign else not l[0], l[1], l[2])
        t = self.term()
        if self.peek()[1] in ('=', '!='):
            op = self.nxt()[1]
            u = self.term()
            return (sign if op == '=' else not sign, '=', (t, u))
        if t[0] == 'v':
            return (sign, '$var', (t,))
        if t[0] != 'f':
            return (sign, '$const', (t,))
        return (sign, t[1], t[2])

    def clause(self):
        c = [self.lit()]
        while self.peek()[1] == '|':
            self.nxt()
            c.append(self.lit())
        if self.peek()[1] == '.':
            self.nxt()
        if self.i < len(self.t):
            raise ParseError('trailing ' + str(self.peek()))
        return c


def parse_clause(s):
    s = s.strip()
    if s in ('false', 'false.'):
        return []
    return P(tokens(s)).clause()


def parse_js_term(x):
    if isinstance(x, bool):
        return ('f', '$true' if x else '$false', ())
    if isinstance(x, int):
        return ('n', x)
    if isinstance(x, float):
        return ('r', repr(x))
    if isinstance(x, str):
        if x.startswith('?:'):
            return ('v', x[2:])
        if x.startswith('#:'):
            return ('s', x[2:])
        return ('f', x, ())
    if not x or not isinstance(x[0], str):
        raise ParseError(str(x))
    return ('f', x[0], tuple(parse_js_term(a) for a in x[1:]))


def parse_js_clause(x):
    """Clause of a -json proof: false, or a list of literal arrays ["p",..] / ["-p",..] / ["-=",a,b]."""
    if x is False:
        return []
    out = []
    for l in x:
        if isinstance(l, str):
            l = [l]
        if not isinstance(l, list) or not l or not isinstance(l[0], str):
            raise ParseError(str(l))
        p, s = l[0], True
        if p.startswith('-') and len(p) > 1:
            p, s = p[1:], False
        if p == '!=':
            p, s = '=', not s
        out.append((s, p, tuple(parse_js_term(a) for a in l[1:])))
    return out


# ---------------------------------------------------------------- encoding for TLA+ (module Fol)
def e_term(t, vm):
    if t[0] == 'v':
        return [0, vm.setdefault(t[1], len(vm) + 1)]
    if t[0] == 'f':
        return [1, t[1], [e_term(a, vm) for a in t[2]]]
    if t[0] == 's':
        return [1, '"' + t[1] + '"', []]
    return [1, '#' + str(t[1]), []]


def e_clause(c, vm=None):
    vm = {} if vm is None else vm
    return [[1 if s else 0, p, [e_term(a, vm) for a in args]] for s, p, args in c]


def sig(cls):
    preds, funs = {}, {}

    def go(t):
        if t[0] == 'f':
            funs[(t[1], len(t[2]))] = 1
            for a in t[2]:
                go(a)
    for c in cls:
        for s, p, args in c:
            if p != '=':
                preds[(p, len(args))] = 1
            for a in args:
                go(a)
    return sorted(preds), sorted(funs)


# ---------------------------------------------------------------- random clause sets
def rand_term(rng, vs, consts, funs, depth, pv=0.5):
    if funs and depth > 0 and rng.random() < 0.4:
        f, n = rng.choice(funs)
        return ('f', f, tuple(rand_term(rng, vs, consts, funs, depth - 1, pv) for _ in range(n)))
    if vs and (rng.random() < pv or not consts):
        return ('v', rng.choice(vs))
    return ('f', rng.choice(consts), ())


def rand_clause(rng, preds, consts, funs=(), nvars=3, lens=(1, 2, 2, 3), eqp=0.0, depth=1, pv=0.5):
    vs = ['X', 'Y', 'Z', 'U', 'W', 'V1', 'V2'][:nvars]
    c = []
    for _ in range(rng.choice(lens)):
        s = rng.random() < 0.5
        if rng.random() < eqp:
            c.append((s, '=', (rand_term(rng, vs, consts, funs, depth, pv), rand_term(rng, vs, consts, funs, depth, pv))))
        else:
            p, n = rng.choice(preds)
            c.append((s, p, tuple(rand_term(rng, vs, consts, funs, depth, pv) for _ in range(n))))
    return c
