"""C06: a converted formula means what the original means and keeps name and role (Formula.tla: Converted, OutSymbols, Named)."""
import json, vf, fol
import formula as fm
from vf import scale

fm.BARE = True

ROLES = ['axiom', 'axiom', 'hypothesis', 'assumption', 'definition', 'lemma', 'theorem', 'negated_conjecture', 'conjecture']
JROLES = ['axiom', 'hypothesis', 'assumption', 'negated_conjecture', 'conjecture']
CONST = [('n', 7), ('n', 0), ('r', '2.5'), ('s', 'the thing'), ('s', 'Thing'), ('s', ''), ('s', '-'), ('s', 'X'), 'white dog', "it's", 'Zed', 'x-1', 'dq"x', 'õun', 'a1', 'c_2', 'B']


def symbols(rng):
    """other names, and numbers and strings, for some of the symbols"""
    fun, pred = {}, {}
    fm.LISTS = rng.random() < .25
    if rng.random() < .5:
        k = rng.sample(CONST, 3)
        for c, v in zip('abe', k):
            if rng.random() < .6:
                fun[(c, 0)] = v
    if rng.random() < .3:
        fun['f'] = rng.choice(['$uminus', 'father of', 'Fun', 'f1'])
    if rng.random() < .3:
        fun['g'] = rng.choice(['$sum', '$product', 'g two'])
    if rng.random() < .3:
        pred['q'] = rng.choice(['$less', '$greatereq', 'has part', 'Q'])
    if rng.random() < .3:
        pred['p'] = rng.choice(['is blue', 'P', '$is_int', "p's"])
    if rng.random() < .3:
        pred['s'] = rng.choice(['it rains', 'S', 'sunny'])
    if fm.LISTS:
        fun['g'], fun[('e', 0)] = '$list', '$nil'
    return fun, pred


def write(path, forms, names, roles, kinds, syn):
    if syn == 'tptp':
        text = ''.join(f"{kinds[k]}({fol.otter_sym(names[k])},{roles[k]},{fm.tptp(f)}).\n" for k, f in enumerate(forms))
    elif syn == 'json':
        text = json.dumps([{'@name': names[k], '@role': roles[k], '@logic': fm.js(f)} for k, f in enumerate(forms)], ensure_ascii=False)
    else:
        text = ''.join(fm.simple(f) + '.\n' for f in forms)
    open(path, 'w').write(text)
    return text


def read(out, fmt):
    """[(name, role, formula)]"""
    if fmt == 'tptp':
        return [(n, r, f) for _, n, r, f in fm.TP(out).whole()]
    d = json.loads(out)
    if not isinstance(d, list):
        raise fol.ParseError(out[:200])
    return [(x.get('@name', ''), x.get('@role', ''), fm.parse_js(x['@logic'])) if isinstance(x, dict) else ('', '', fm.parse_js(x)) for x in d]


def rand_clause(rng):
    lits = []
    for _ in range(rng.randint(1, 4)):
        a = fm.rand_atom(rng, ['X', 'Y', 'Z'])
        lits.append(('not', a) if rng.random() < .4 and a[0] == 'lit' and a[1][1] != '=' else a)
    return lits[0] if len(lits) == 1 else ('or', *lits)


def go(ck):
    rng = ck.rng
    bins = [vf.gkc_bin(), vf.gkc_bison()]
    n = scale(1000, 6000)
    jobs = []
    for i in range(n):
        syn = rng.choice(['tptp', 'tptp', 'tptp', 'json', 'json', 'simple'])
        fun, pred = symbols(rng)
        forms, kinds, src = [], [], []
        while len(forms) < rng.choice([1, 2, 4]):
            x = rng.random()
            cl = x < (.5 if syn == 'simple' else .25 if syn == 'tptp' else 0)
            f = rand_clause(rng) if cl else fm.rand_closed(rng)
            if not cl and syn != 'tptp' and f[0] == 'all' and rng.random() < .4:
                f = f[2]                      # free variables are universal there
            if fm.size(f) <= 50 and (syn == 'tptp' or f[0] not in ('true', 'false')):
                g = fm.rename(f, fun, pred)
                if syn == 'json' and fm.free(f):
                    g = fm.rename(subst_free(g), {}, {})
                forms.append(fm.close(f))
                src.append(g)
                kinds.append('cnf' if cl else 'fof')
        roles = [rng.choice(ROLES if syn == 'tptp' else JROLES) for _ in forms]
        roles = ['negated_conjecture' if k == 'cnf' and r == 'conjecture' else r for k, r in zip(kinds, roles)]
        if syn == 'simple':
            roles = ['axiom'] * len(forms)
        names = [rng.choice(['f', 'my f', 'f-', 'X', 'g_']) + str(k) for k in range(len(forms))]
        p = f'{vf.WORK}/f{i}.' + {'tptp': 'p', 'json': 'js', 'simple': 'g'}[syn]
        text = write(p, src, names, roles, kinds, syn)
        jobs.append((forms, names, roles, syn, p, text, bins[i % 3 == 2], fun, pred))

    def conv(gkc, path, fmt, tag):
        r = vf.run_cmd([gkc, path, '-convert', '-' + fmt, *vf.BASE], timeout=30)
        o = f"{path.rsplit('.', 1)[0]}{tag}.{'p' if fmt == 'tptp' else 'js'}"
        open(o, 'w').write(r.out)
        return r, o

    def run(j):
        res = []
        for a in ('json', 'tptp'):
            if j[3] == 'json' and a == 'json':
                continue
            r, o = conv(j[6], j[4], a, 'ab'[a == 'tptp'])
            res.append((a, r))
            for b in ('json', 'tptp'):
                if a == 'json' and b == 'json':
                    continue
                r2, o2 = conv(j[6], o, b, 'ab'[a == 'tptp'] + 'cd'[b == 'tptp'])
                res.append((a + '>' + b, r2))
                if a == 'tptp' and b == 'json':
                    res.append((a + '>' + b + '>tptp', conv(j[6], o2, 'tptp', 'e')[0]))
        return res
    res = vf.pmap(run, jobs)
    cases, meta = [], []
    for (forms, names, roles, syn, p, text, _, fun, pred), rs in zip(jobs, res):
        case = {'F': [{'f': fm.enc(f, {}), 'neg': 0, 'cls': [], 'sk': [], 'df': [], 'clausified': 0, 'use': [], 'out': [],
                       'id': [names[k], roles[k]] if syn != 'simple' else [f'frm_{k + 1}', 'axiom'], 'oid': []} for k, f in enumerate(forms)],
                'Is': fm.interps(rng, forms, scale(10, 24)), 'proof': 0}
        inv = fm.inverse(fun, pred)
        ok = True
        for path, r in rs:
            try:
                if r.timeout or r.rc not in (0, 1) or '{"error"' in r.out:
                    raise fol.ParseError(f'rc {r.rc} timeout {r.timeout}')
                got = read(r.out, path.rsplit('>', 1)[-1])
                if len(got) != len(forms):
                    raise fol.ParseError(f'{len(got)} formulas')
            except (fol.ParseError, ValueError, KeyError) as e:
                ck.violation(f'conversion {path} of {text!r}: {e}', {'input': text, 'path': path, 'out': r.out[:3000]})
                ok = False
                break
            ck.count('conversions_' + syn + '>' + path)
            for k, (nm, role, f) in enumerate(got):
                F = case['F'][k]
                F['out'].append(fm.enc(fm.rename(fm.close(f), *inv), {}))
                if not (syn == 'simple' and path == 'json'):
                    F['oid'].append([nm, role])
        if ok:
            cases.append(case)
            meta.append((text, rs))
    ck.count('formulas', sum(len(j[0]) for j in jobs))
    bad, st = vf.tlc_cases('Formula', cases, cfg='Convert')
    ck.add_stats(st, len(cases))
    ck.sample({'input': meta[0][0], 'out': {p: r.out[:800] for p, r in meta[0][1]}})
    for i, invs in sorted(bad.items()):
        if 'CaseOk' in invs:
            raise vf.CheckError('generator produced a bad case ' + json.dumps(cases[i])[:2000])
        ck.violation(f'{sorted(invs)} violated: {meta[i][0]!r}', {'input': meta[i][0], 'out': {p: r.out[:3000] for p, r in meta[i][1]}, 'case': cases[i]})


def subst_free(f):
    """JSON: free variables are written ?:X"""
    fr = set(fm.free(f))

    def t(x, b):
        if x[0] == 'v':
            return x if x[1] in b else ('v', '?:' + x[1])
        return ('f', x[1], tuple(t(a, b) for a in x[2])) if x[0] == 'f' else x

    def go(f, b):
        o = f[0]
        if o == 'lit':
            return ('lit', (f[1][0], f[1][1], tuple(t(a, b) for a in f[1][2])))
        if o in ('true', 'false'):
            return f
        if o in ('all', 'ex'):
            return (o, f[1], go(f[2], b | set(f[1])))
        return (o,) + tuple(go(g, b) for g in f[1:])
    return go(f, set()) if fr else f


vf.main(go, 'C06')
