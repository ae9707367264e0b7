"""C04: the answers printed for a question follow from the input, and a Horn search that runs dry prints them all (Answers.tla)."""
import vf, fol, gen, strat, json, re
from vf import scale
from fol import V, F

ANS = '$ans'


def question(rng, preds, consts, funs=(), horn=True):
    """A question: a conjunction of atoms (free variables are the answer variables), maybe negated atoms or a disjunction of two."""
    vs = ['X', 'Y', 'Z'][:rng.choice([1, 1, 2, 2, 3])]
    qs = []
    for _ in range(rng.choice([1, 1, 1, 2]) if not horn else 1 + (rng.random() < .15)):
        conj = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            p, n = rng.choice(preds)
            conj.append((horn or rng.random() < .8, p, tuple(fol.rand_term(rng, vs, consts, funs, 1, .8) for _ in range(n))))
        qs.append(conj)
    order = []
    for conj in qs:
        for l in conj:
            for t in l[2]:
                fol.tvars(t, order)
    return qs, order


def qclauses(qs, order):
    return [[(not s, p, a) for s, p, a in conj] + [(True, ANS, tuple(V(x) for x in order))] for conj in qs]


def js_conj(conj):
    xs = [fol.js_lit(l) for l in conj]
    return xs[0] if len(xs) == 1 else ['and'] + xs


def write(rng, name, cls, qs, order, syn):
    if syn == 'question':
        q = js_conj(qs[0]) if len(qs) == 1 else ['or'] + [js_conj(c) for c in qs]
        items = [fol.js_clause(c) for c in cls]
        items.insert(rng.choice([len(items), rng.randint(0, len(items))]), {'@question': q})
        p = vf.os.path.join(vf.WORK, name + '.js')
        with open(p, 'w') as f:
            json.dump(items, f)
        return p
    out = list(cls)
    for c in qclauses(qs, order):
        c = list(c)
        rng.shuffle(c)
        if rng.random() < .2:
            c.insert(0, c.pop())
        out.insert(rng.randint(0, len(out)), c)
    return gen.write_problem(name, out, syn)


STEP = re.compile(r'^ (\d+): \[')


def read_text(out):
    """one list per result block: answers and the last proof line of each"""
    blocks, cur = [], None
    for ln in out.split('\n'):
        if ln.startswith('result: proof found'):
            blocks.append(([], []))
            cur = None
        elif ln.startswith('answer: '):
            cur = ln[8:]
        elif ln.strip() == 'proof:':
            blocks[-1][0].append(fol.parse_clause(cur) if cur is not None else [])
            blocks[-1][1].append(None)
            cur = None
        elif STEP.match(ln) and blocks:
            blocks[-1][1][-1] = fol.parse_clause(re.search(r'\] (.*)$', ln).group(1))
    return blocks, cur is None


def read_json(out):
    blocks, dec, s = [], json.JSONDecoder(), out.strip()
    while s:
        j, n = dec.raw_decode(s)
        s = s[n:].strip()
        if 'answers' in j:
            blocks.append(([fol.parse_js_clause(a['answer']) if 'answer' in a else [] for a in j['answers']],
                           [fol.parse_js_clause(a['proof'][-1][2]) if a.get('proof') else None for a in j['answers']]))
    return blocks, True


def run(job):
    return vf.run_cmd([vf.gkc_bin(), job['path'], *job['fmt'], *vf.BASE, *vf.strat_arg(job['st'])], timeout=30)


def go(ck):
    rng = ck.rng
    vf.gkc_bin()
    cases, jobs = [], []
    nepr, nmod, k = scale(330, 3000), scale(90, 1000), 0
    while k < nepr:
        horn = rng.random() < .6
        cls = gen.epr_set(rng, eq=rng.random() < .2, shape=rng.choice(['horn', 'horn', 'horn', 'chain']) if horn else rng.choice(['base', 'base', 'chain', 'wide']))
        if not horn:
            cls = cls[:rng.randint(3, len(cls))]
        else:
            cls = [c for c in cls if any(l[0] for l in c) or rng.random() < .4]     # mostly definite clauses: a contradiction is not the point
        preds, funs = fol.sig(cls)
        if not preds:
            continue
        qs, order = question(rng, preds, [f for f, n in funs] or ['a'], horn=horn)
        full = cls + qclauses(qs, order)
        if not gen.small_epr(full) or not 0 < len(order) <= 3:
            continue
        cs = gen.epr_case(full)
        horn = all(sum(1 for l in c if l[0]) <= 1 for c in full)
        cs.update(arity=len(order), horn=horn, text=cls, qs=qs, order=order, eq=any(l[1] == '=' for c in full for l in c))
        cases.append(cs)
        k += 1
    k = 0
    while k < nmod:
        I, cls = gen.model_set(rng)
        preds, funs = fol.sig(cls)
        qs, order = question(rng, [('p', 1), ('q', 2)], ['a', 'b'], [('g', 1), ('f', 2)], horn=False)
        if not order:
            continue
        n = I['n']
        tab = []
        for x in range(n ** len(order)):
            vals, y = [], x
            for _ in order:
                vals.insert(0, y % n)
                y //= n
            th = dict(zip(order, vals))
            tab.append(1 if any(all(_lit(l, th, I) for l in conj) for conj in qs) else 0)
        I['pred'][ANS] = tab
        full = cls + qclauses(qs, order)
        cases.append({'kind': 'model', 'cls': [fol.e_clause(c) for c in full], 'I': I, 'runs': [], 'arity': len(order), 'horn': False, 'consts': [],
                      'pid': {'none': 17}, 'text': cls, 'qs': qs, 'order': order, 'eq': True})
        k += 1
    for i, cs in enumerate(cases):
        for k in range(scale(4, 8)):
            syn = rng.choice(['otter', 'otter', 'tptp', 'json', 'question', 'question'])
            complete = False
            if cs['horn'] and rng.random() < .65 and (not cs['eq'] or gen.para_complete(cs['text'])):
                st = dict(rng.choice([x for x in strat.COMPLETE if not cs['eq'] or not set(x['strategy']) & {'hyper', 'hardness_pref', 'positive_pref', 'knuthbendix_pref'}]))
                complete = True
            else:
                st = gen.rand_strategy(rng)
            mx = rng.choice([1, 2, 3, 5, 40, 40])
            sec = 3 if cs['kind'] == 'epr' else 1
            if not complete and rng.random() < .3:       # several runs after each other
                st = {'runs': [{**st, 'max_seconds': sec}, {**gen.rand_strategy(rng), 'max_seconds': sec}]}
                for s in st['runs']:
                    s.pop('max_answers', None)
            else:
                st['max_seconds'] = sec
            st['max_answers'] = mx
            fmt = rng.choice([['-print', '10'], ['-print', '12'], ['-json', '-print', '10']])
            if complete:
                fmt = []
            jobs.append({'i': i, 'path': write(rng, f'c{i}_{k}', cs['text'], cs['qs'], cs['order'], syn), 'st': st, 'fmt': fmt, 'syn': syn, 'complete': complete, 'sec': sec, 'max': mx})
    res = vf.pmap(run, jobs)
    for j, r in zip(jobs, res):
        cs, v = cases[j['i']], vf.verdict_of(r)
        try:
            blocks, ok = (read_json if '-json' in j['fmt'] and r.out.strip().startswith('{') else read_text)(r.out)
        except (fol.ParseError, ValueError, KeyError, TypeError, IndexError) as e:
            blocks, ok = [([[(True, '$unreadable', ())]], [None])], False
            if vf.os.environ.get('DBG'):
                print(e, r.out[:1500])
        m = re.search(r'this run seconds: *([0-9.]+)', r.out)
        ended = bool(m) and float(m.group(1)) < .08 * j['sec']
        ck.count('verdict_' + v)
        ck.count('answers', sum(len(a) for a, _ in blocks))
        ck.count('several_blocks', len(blocks) > 1)
        if ended and j['complete'] and cs['horn']:
            ck.count('complete_runs')
        for ans, last in blocks or [([], [])]:
            cs['runs'].append({'answers': [fol.e_clause(c) for c in ans], 'last': [fol.e_clause(c) if c is not None else [[1, '$noproof', []]] for c in last],
                               'max': j['max'], 'verdict': v, 'complete': j['complete'], 'ended': ended, 'wellformed': ok})
        cs.setdefault('how', []).append({'strategy': j['st'], 'syntax': j['syn'], 'fmt': j['fmt'], 'out': r.out[-2500:], 'input': open(j['path']).read()})
    enc = [{k: v for k, v in c.items() if k not in ('text', 'how', 'qs', 'order', 'eq')} for c in cases]
    bad, st = vf.tlc_cases('Answers', enc)
    ck.add_stats(st, len(jobs))
    ck.count('problems', len(cases))
    ck.sample({'input': cases[0]['how'][0]['input'], 'runs': cases[0]['runs'][:2]})
    ck.sample({'input': cases[-1]['how'][0]['input'], 'runs': cases[-1]['runs'][:2]})
    for i, invs in sorted(bad.items()):
        cs = cases[i]
        ck.violation(f"{sorted(invs)} violated: {cs['how'][0]['input']!r}",
                     {'problem': cs['text'], 'question': cs['qs'], 'variables': cs['order'], 'runs': cs['runs'], 'how': cs['how']})


def _lit(l, th, I):
    k = 0
    for t in l[2]:
        k = k * I['n'] + gen.ieval(t, th, I)
    return (I['pred'][l[1]][k] == 1) == l[0]


vf.main(go, 'C04')
