"""C02: a search with a complete strategy that runs dry proves the input satisfiable (Refutation.tla: Complete)."""
import vf, fol, gen, strat, json, re
from vf import scale


def run(job):
    i, p, st, extra, syn, k = job
    return vf.run_cmd([vf.gkc_bin(), p, *vf.BASE, *vf.strat_arg(st), *extra], timeout=40)


def go(ck):
    rng = ck.rng
    vf.gkc_bin()
    cases, jobs = [], []
    nepr, nlift = scale(240, 3000), scale(600, 5000)
    k = 0
    while k < nepr:
        cls = gen.epr_set(rng, eq=rng.random() < .5)
        if gen.small_epr(cls) and gen.para_complete(cls):
            cs = gen.epr_case(cls)
            cs['text'] = cls
            cases.append(cs)
            k += 1
    for _ in range(nlift):
        while True:
            g, cls, lift = gen.core_set(rng, eq=rng.random() < .6)
            if gen.para_complete(cls):
                break
        cases.append({'kind': 'lifted', 'cls': [fol.e_clause(c) for c in cls], 'ground': [fol.e_clause(c) for c in g], 'lift': lift,
                      'runs': [], 'derived': [], 'text': cls})
    for _ in range(scale(300, 3000)):
        cls = gen.facts_set(rng)
        cases.append({'kind': 'facts', 'cls': [fol.e_clause(c) for c in cls], 'runs': [], 'derived': [], 'text': cls})
    for i, cs in enumerate(cases):
        for k in range(scale({'epr': 4, 'facts': 2}.get(cs['kind'], 3), 6)):
            syn = rng.choice(['otter', 'otter', 'tptp', 'json'])
            p = gen.write_problem(f'c{i}_{k}', cs['text'], syn, gen.rand_roles(rng, cs['text']))
            eq = any(l[1] == '=' for c in cs['text'] for l in c)
            st = dict(rng.choice([x for x in strat.COMPLETE if not eq or not set(x['strategy']) & {'hyper', 'hardness_pref', 'positive_pref', 'knuthbendix_pref'}]))
            if rng.random() < .25:
                st['strategy'] = st['strategy'] + [rng.choice(['max_weight', 'max_ground_weight', 'hornpref', 'posweightdoublepref', 'negweightdoublepref'])]
            if rng.random() < .3:
                st.update(rng.choice([{'given_queue_ratio': 2}, {'given_queue_ratio': 20}, {'var_weight': 0}, {'depth_penalty': 3},
                                      {'length_penalty': 0}, {'repeat_var_weight': 0}, {'weight_select_ratio': 3}]))
            st[rng.choice(['max_seconds', 'max_seconds', 'max_dseconds'])] = 6
            jobs.append((i, p, st, [], syn, k))
    res = vf.pmap(run, jobs)
    # a contradiction not reached within the limit is asked for again with a generous one (loaded machines)
    slow = [k for k, (j, r) in enumerate(zip(jobs, res)) if cases[j[0]]['kind'] in ('lifted', 'facts') and 'max_seconds' in j[2] and vf.verdict_of(r) != 'proof']
    for k, r in zip(slow, vf.pmap(run, [(i, p, {**st, 'max_seconds': 30}, extra, syn, k) for i, p, st, extra, syn, k in [jobs[x] for x in slow]])):
        res[k] = r
        jobs[k][2]['max_seconds'] = 30
    ck.count('slow', len(slow))
    for (i, p, st, extra, syn, k), r in zip(jobs, res):
        v = vf.verdict_of(r)
        if v in ('none', 'error', 'signal') and vf.os.environ.get('DBG'):
            print(r.rc, v, json.dumps(st), syn, cases[i]['kind'], r.out[-300:], fol.otter(cases[i]['text']))
        cs = cases[i]
        if v == 'error' and 'cannot allocate memory' in r.out:
            v = 'resource'
        # long clauses are dropped as the time limit comes near (Doc/ARCHITECTURE.md, endgame mode): only early ends count
        limit = st.get('max_seconds') or st.get('max_dseconds') / 10
        m = re.search(r'this run seconds: *([0-9.]+)', r.out)
        if v == 'finished' and not (m and float(m.group(1)) < 0.08 * limit):
            v = 'late'
        ck.count('end_' + v)
        cs['runs'].append({'verdict': v, 'complete': 2 if st.get('max_seconds') else 1})
        cs.setdefault('how', []).append({'strategy': st, 'syntax': syn, 'out': r.out[-800:] if v != 'proof' else ''})
    enc = [{k: v for k, v in c.items() if k not in ('text', 'how')} for c in cases]
    bad, st = vf.tlc_cases('Refutation', enc, cfg='RefutationComplete')
    ck.add_stats(st, len(jobs))
    ck.count('problems', len(cases))
    ck.sample({'problem': fol.otter(cases[0]['text']), 'runs': cases[0]['runs']})
    ck.sample({'problem': fol.otter(cases[-1]['text']), 'runs': cases[-1]['runs']})
    for i, invs in sorted(bad.items()):
        cs = cases[i]
        ck.violation(f"{sorted(invs)} violated: {fol.otter(cs['text'])!r}",
                     {'problem': fol.otter(cs['text']), 'runs': cs['runs'], 'how': cs['how']})


vf.main(go, 'C02')
