"""C05: the clauses made of a formula mean what the formula means (Formula.tla: Faithful, Symbols, Fresh, SoundF)."""
import json, re, vf, fol
import formula as fm
from vf import scale

ROLES = ['axiom', 'axiom', 'hypothesis', 'assumption', 'definition', 'lemma', 'theorem', 'negated_conjecture', 'conjecture']

JROLES = ['axiom', 'hypothesis', 'assumption', 'negated_conjecture', 'conjecture']


def write(rng, i, forms, roles, syn):
    path = f'{vf.WORK}/f{i}.' + {'tptp': 'p', 'json': 'js', 'simple': 'g'}[syn]
    if syn == 'tptp':
        text = ''.join(f'fof(f{k},{roles[k]},{fm.tptp(f)}).\n' for k, f in enumerate(forms))
    elif syn == 'json':
        objs = []
        for k, f in enumerate(forms):
            d = {'@name': f'f{k}', '@logic': fm.js(f)}
            if roles[k] != 'axiom':
                d['@role'] = roles[k]
            objs.append(d)
        text = json.dumps(objs)
    else:
        text = ''.join(fm.simple(f) + '.\n' for f in forms)
    open(path, 'w').write(text)
    return path, text


def clauses(out):
    d = json.loads(out)
    if isinstance(d, dict):
        raise fol.ParseError(str(d)[:200])
    r = []
    for x in d:
        if isinstance(x, dict):
            r.append((x.get('@name'), x.get('@role'), x['@logic']))
        else:
            r.append((None, None, x))
    return r


def undo(c):
    """the printed clause as literals over the user's propositions; None when it is true"""
    out = []
    if c is True:
        return None
    if c is False:
        return []
    for l in fol.parse_js_clause(c if isinstance(c, list) and (not c or isinstance(c[0], list)) else [c]):
        s, p, a = l
        if p == '$pr' and len(a) == 1 and a[0][0] == 'f' and not a[0][2]:
            p, a = a[0][1], ()
        if p in ('$true', '$false'):
            if (p == '$true') == s:
                return None
            continue
        if p == '$not_equal':
            s, p = not s, '='
        out.append((s, p, a))
    return out


LIST = {'g': '$list', ('e', 0): '$nil'}
UNLIST = {'$list': 'g', ('$nil', 0): 'e'}


def unlist(c):
    return c and [fm.rename(('lit', l), UNLIST, {})[1] for l in c]


def skterms(c):
    r = set()

    def go(t):
        if t[0] == 'f':
            if t[1].startswith('$sk'):
                r.add(t)
            for a in t[2]:
                go(a)
    for l in c:
        for a in l[2]:
            go(a)
    return len(r)


def cost(cs, n):
    return sum(n ** (len(fol.cvars(c)) + skterms(c)) for c in cs)


def go(ck):
    rng = ck.rng
    bins = [vf.gkc_bin(), vf.gkc_bison()]
    n = scale(300, 3000)
    jobs = []
    for i in range(n):
        syn = rng.choice(['tptp', 'tptp', 'tptp', 'json', 'json', 'simple'])
        forms = []
        fm.LISTS = rng.random() < .25
        while len(forms) < (1 if syn == 'simple' else rng.choice([2, 3, 4])):
            f = fm.rand_closed(rng)
            if fm.size(f) <= 60:
                forms.append(f)
        roles = [rng.choice(ROLES) for _ in forms]
        if syn == 'simple':
            roles = ['axiom']
        if syn == 'json':
            roles = [r if r in JROLES else 'axiom' for r in roles]
        plain = forms
        if fm.LISTS:
            forms = [fm.rename(f, LIST, {}) for f in forms]
        two = len(forms) > 1 and rng.random() < .25     # spread over two files
        if two:
            cut = rng.randint(1, len(forms) - 1)
            pa, ta = write(rng, f'{i}a', forms[:cut], roles[:cut], syn)
            paths, text = [pa], ta
            # names continue in the second file
            tail = [('skip',)] * cut + forms[cut:]
            pb = f'{vf.WORK}/f{i}b.' + pa.rsplit('.', 1)[1]
            tb = (''.join(f'fof(f{k},{roles[k]},{fm.tptp(f)}).\n' for k, f in enumerate(tail) if k >= cut) if syn == 'tptp' else
                  json.dumps([{'@name': f'f{k}', '@role': roles[k], '@logic': fm.js(f)} for k, f in enumerate(tail) if k >= cut]))
            open(pb, 'w').write(tb)
            paths.append(pb)
            text += tb
        else:
            p, text = write(rng, i, forms, roles, syn)
            paths = [p]
        jobs.append((plain, roles, syn, paths, text, bins[i % 3 == 2], fm.LISTS))

    def run(j):
        a = vf.run_cmd([j[5], *j[3], '-clausify', '-json', *vf.BASE], timeout=30)
        b = vf.run_cmd([j[5], *j[3], '-seconds', '1', *vf.BASE], timeout=30)
        return a, b
    res = vf.pmap(run, jobs)
    cases, meta = [], []
    for (forms, roles, syn, paths, text, _, lists), (a, b) in zip(jobs, res):
        try:
            if a.timeout or a.rc:
                raise fol.ParseError(f'rc {a.rc} timeout {a.timeout}')
            cl = clauses(a.out)
            by = {}
            for name, role, c in cl:
                u = undo(c)
                if lists:
                    u = unlist(u)
                by.setdefault('f0' if syn == 'simple' else name, []).append(u)
        except (fol.ParseError, ValueError, KeyError) as e:
            ck.violation(f'no readable clauses for {text!r}: {e}', {'input': text, 'out': a.out[:3000]})
            continue
        case = {'F': [], 'Is': fm.interps(rng, forms, scale(14, 30)), 'proof': int(vf.verdict_of(b) == 'proof' and not lists)}
        ck.count('verdict_' + vf.verdict_of(b))
        extra = set(by) - {f'f{k}' for k in range(len(forms))}
        if extra:
            ck.violation(f'clauses of an unknown formula {extra} for {text!r}', {'input': text, 'out': a.out[:3000]})
            continue
        for k, f in enumerate(forms):
            cs = [c for c in by.get(f'f{k}', []) if c is not None]
            preds, funs = fol.sig(cs)
            use = [x + 1 for x, I in enumerate(case['Is']) if cost(cs, I['n']) <= scale(400, 1500)]
            big = len(cs) > scale(60, 120) or not use
            ck.count('interpretations_compared', 0 if big else len(use))
            ck.count('clauses', len(cs))
            ck.count('definitions', len([1 for p, m in preds if p.startswith('$df')]))
            ck.count('skolem_functions', len([1 for p, m in funs if p.startswith('$sk')]))
            e = [fol.e_clause(c) for c in cs]
            case['F'].append({'f': fm.enc(f, {}), 'neg': int(roles[k] == 'conjecture'), 'cls': e,
                              'sk': [[x, m] for x, m in funs if x.startswith('$sk')], 'df': [[x, m] for x, m in preds if x.startswith('$df')],
                              'clausified': int(not big), 'use': use, 'out': []})
            if big:
                ck.count('left_out_as_too_large')
        cases.append(case)
        meta.append((text, a.out, b.out))
    ck.count('formulas', sum(len(j[0]) for j in jobs))
    bad, st = vf.tlc_cases('Formula', cases, cfg='Clausify')
    ck.add_stats(st, len(cases))
    ck.sample({'input': meta[0][0], 'clauses': meta[0][1][:1500]})
    for i, invs in sorted(bad.items()):
        if 'CaseOk' in invs:
            raise vf.CheckError('generator produced a bad case ' + json.dumps(cases[i])[:2000])
        ck.violation(f'{sorted(invs)} violated: {meta[i][0]!r}', {'input': meta[i][0], 'clauses': meta[i][1], 'run': meta[i][2][:2000], 'case': cases[i]})


vf.main(go, 'C05')
