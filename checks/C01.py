"""C01: a reported proof exists only for unsatisfiable input (Refutation.tla: Sound, Consequences)."""
import vf, fol, gen, json
from vf import scale


def run(ck, job):
    path, st, extra, to = job
    r = vf.run_cmd([vf.gkc_bin(), path, '-print', '12', *vf.BASE, *vf.strat_arg(st), *extra], timeout=to)
    return r


def go(ck):
    rng = ck.rng
    vf.gkc_bin()
    cases, jobs = [], []
    nepr, nmod = scale(260, 2600), scale(120, 1200)
    k = 0
    while k < nepr:
        cls = gen.epr_set(rng, eq=rng.random() < .5)
        if not gen.small_epr(cls):
            continue
        cs = gen.epr_case(cls)
        cs['text'] = cls
        cases.append(cs)
        k += 1
    for _ in range(scale(160, 2000)):
        cls = gen.facts_set(rng)
        cases.append({'kind': 'facts', 'cls': [fol.e_clause(c) for c in cls], 'runs': [], 'derived': [], 'text': cls})
    for _ in range(nmod):
        I, cls = gen.model_set(rng)
        preds, funs = fol.sig(cls)
        cases.append({'kind': 'model', 'cls': [fol.e_clause(c) for c in cls], 'I': I, 'runs': [], 'derived': [], 'text': cls})
    for i, cs in enumerate(cases):
        for k in range(scale(5, 8)):
            syn = rng.choice(['otter', 'otter', 'tptp', 'json'])
            p = gen.write_problem(f'c{i}_{k}', cs['text'], syn, gen.rand_roles(rng, cs['text']))
            st = gen.rand_strategy(rng)
            extra = []
            if cs['kind'] == 'model':
                st['max_dseconds'] = rng.choice([1, 2, 3])
                if k == 0:
                    extra = ['-print', '40']
            else:
                st[rng.choice(['max_seconds', 'max_dseconds'])] = 2
            if k == 1 and rng.random() < .3:
                st = None
                extra = ['-seconds', '1']
            jobs.append((i, p, st, extra, syn))
    res = vf.pmap(lambda j: run(ck, (j[1], j[2], j[3], 20)), jobs)
    bad_runs = []
    for (i, p, st, extra, syn), r in zip(jobs, res):
        v = vf.verdict_of(r)
        ck.count('verdict_' + v)
        if v == 'signal' and vf.os.environ.get('DBG'):
            import shutil; shutil.copy(p, '/tmp/exp/'); print(r.rc, p, json.dumps(st), extra, r.out[-200:])
        cs = cases[i]
        cs['runs'].append({'verdict': v, 'complete': 0})
        cs.setdefault('how', []).append({'strategy': st, 'syntax': syn, 'extra': extra, 'out': r.out[-1500:] if v == 'proof' else ''})
        if '40' in extra:
            tr = gen.trace_clauses(r.out, 20000)
            seen = set()
            rng.shuffle(tr)
            for rule, text in tr:
                if text in seen:
                    continue
                seen.add(text)
                try:
                    c = fol.parse_clause(text)
                except fol.ParseError as e:
                    raise vf.CheckError(f'cannot read trace clause {text!r}: {e}')
                if len(fol.cvars(c)) > 5 or len(text) > 300 or '$' in text:
                    continue
                cs['derived'].append(fol.e_clause(c))
                cs.setdefault('dtext', []).append(text)
                if len(cs['derived']) >= scale(40, 80):
                    break
            ck.count('derived_clauses_evaluated', len(cs['derived']))
    enc = [{k: v for k, v in c.items() if k not in ('text', 'how', 'dtext')} for c in cases]
    bad, st = vf.tlc_cases('Refutation', enc, cfg='RefutationSound')
    ck.add_stats(st, len(jobs))
    ck.count('problems', len(cases))
    ck.sample({'problem': fol.otter(cases[0]['text']), 'runs': cases[0]['runs']})
    ck.sample({'problem': fol.otter(cases[-1]['text']), 'interpretation': cases[-1]['I'], 'derived': cases[-1].get('dtext', [])[:5]})
    for i, invs in sorted(bad.items()):
        cs = cases[i]
        if 'CaseOk' in invs:
            raise vf.CheckError('generator produced a bad case ' + json.dumps(enc[i]))
        ck.violation(f"{sorted(invs)} violated: {fol.otter(cs['text'])!r}",
                     {'problem': fol.otter(cs['text']), 'runs': cs['runs'], 'how': cs['how'], 'interp': cs.get('I'), 'derived': cs.get('dtext')})


vf.main(go, 'C01')
