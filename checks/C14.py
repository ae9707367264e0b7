"""C14: shared knowledge bases: histories of real processes against SharedKB.tla, proofs from them against Proof.tla."""
import ctypes, json, os, random, re, signal, subprocess, time
import vf, fol, gen, strat, importlib.util
from vf import scale

BASE = 0
DEADLINE = time.time() + scale(400, 6000)     # when commands hang, what was recorded until then is judged


def own_namespace():
    """An IPC namespace of our own, so that no segment outlives the check; without one the numbers are just unusual."""
    global BASE
    BASE = 100000 + os.getpid() * 100
    try:
        u, g = os.getuid(), os.getgid()
        os.unshare(os.CLONE_NEWUSER | os.CLONE_NEWIPC)
        for f, t in (('setgroups', 'deny'), ('uid_map', f'{u} {u} 1'), ('gid_map', f'{g} {g} 1')):
            with open('/proc/self/' + f, 'w') as h:
                h.write(t)
    except OSError:
        pass


def image(key):
    """The identity of the memory image under a key: '' when there is none."""
    v = seg.segsum(key)
    return f'{v:x}' if v else ''


def build_image():
    global seg
    so = os.path.join(vf.WORK, 'segsum.so')
    rc, out = vf._cc(['gcc', '-O2', '-shared', '-fPIC', '-o', so, os.path.join(vf.VERIF, 'harness/segsum.c')])
    if rc:
        raise vf.CheckError('compile failed: ' + out)
    seg = ctypes.CDLL(so)
    seg.segsum.restype = ctypes.c_ulong


CONSTS = ['b', 'a long constant name, with spaces: 01234567890123456789', 'http://example.org/x#y']
LONG = ['http://example.org/' + 'abcdefghij' * 12, 'abcdefghij' * 40]
EXOTIC = [('n', 7), ('n', 12345678901), ('n', -3), ('r', '2.5'), ('s', 'b'), ('s', 'a distinct symbol longer than thirty two bytes'), ('f', 'b', ()),
          ('f', CONSTS[1], ()), ('f', CONSTS[2], ()), ('f', LONG[0], ()), ('f', LONG[1], ()), ('s', 'a distinct symbol ' * 20), ('s', LONG[0]), ('f', 'B x', ()), ('f', '$list', (('f', 'b', ()), ('f', '$nil', ())))]


def recast(rng, cls):
    """The same facts with constants of other kinds and lengths in place of some."""
    used = sorted({t for c in cls for l in c for t in subterms(l) if t[0] == 'f' and not t[2]})
    new = rng.sample(EXOTIC, len(EXOTIC))
    m = {t: new[k] for k, t in enumerate(used[:len(new)]) if rng.random() < .6}
    keep = set(used) - set(m)
    m = {a: b for a, b in m.items() if b not in keep}

    def go(t):
        if t in m:
            return m[t]
        return ('f', names.get(t[1], t[1]) if t[2] else t[1], tuple(go(x) for x in t[2])) if t[0] == 'f' else t
    # and, now and then, with long names of predicates and functions
    names = {x: 'a long name of ' + x + ' ' * rng.randint(1, 3) + 'z' * rng.choice([3, 30, 90, 300]) for x in 'pqrfg' if rng.random() < .2}
    return [[(s, names.get(p, p), tuple(go(t) for t in a)) for s, p, a in c] for c in cls]


def subterms(l):
    st = list(l[2])
    while st:
        t = st.pop()
        yield t
        if t[0] == 'f':
            st += t[2]


def problem(rng):
    r = rng.random()
    if r < .3:
        while True:
            cls = gen.epr_set(rng)
            if gen.small_epr(cls):
                break
        return gen.epr_case(cls), cls
    if r < .65:
        cls = recast(rng, gen.facts_set(rng))
        return {'kind': 'facts', 'cls': [fol.e_clause(c) for c in cls]}, cls
    if r < .85:
        while True:
            g, cls, lift = gen.core_set(rng, eq=rng.random() < .5)
            if gen.para_complete(cls):
                break
        return {'kind': 'lifted', 'cls': [fol.e_clause(c) for c in cls], 'ground': [fol.e_clause(c) for c in g], 'lift': lift}, cls
    I, cls = gen.model_set(rng, rng.randint(4, 9))
    return {'kind': 'model', 'cls': [fol.e_clause(c) for c in cls], 'I': I}, cls


def syntaxes(rng, cls):
    """["s"] in JSON is s(), not the proposition s: a history with propositions keeps to one side."""
    if any(not l[2] for c in cls for l in c):
        return rng.choice([['otter', 'tptp'], ['json']])
    return ['otter', 'otter', 'tptp', 'json']


def plan(rng, kind, n, dumps):
    """The commands of one history (drawn beforehand); n clauses."""
    ev, here = [], {}

    def some(p=.5):
        return [k for k in range(1, n + 1) if rng.random() < p] or [rng.randint(1, n)]
    full = list(range(1, n + 1))
    nums = list(range(1, rng.choice([1, 2, 2, 3]) + 1))
    for _ in range(rng.randint(5, 9)):
        num = rng.choice(nums)
        r = rng.random()
        if num not in here and r < .8 or r < .1:
            ev.append({'op': 'read', 'n': num, 's': some(rng.choice([.3, .5, .8, 1]))})
            here[num] = ev[-1]['s']
        elif r < .2:
            ev.append({'op': 'delete', 'n': num})
            here.pop(num, None)
        elif r < .27:
            ev.append({'op': 'kill', 'n': num, 's': some(), 'after': rng.choice([.0, .001, .003, .01, .05])})
        else:
            for g in range(rng.choice([1, 1, 2, 4])):
                s = [k for k in full if k not in here.get(num, [])]
                if kind != 'lifted' and rng.random() < .4 or not s:
                    s = some()
                rng.shuffle(s)
                ev.append({'op': 'query', 'n': num, 's': s, 'first': g == 0})
    for f in dumps:
        at = rng.randint(1, len(ev))
        ev.insert(at, {'op': rng.choice(['write', 'readwrite']), 'n': rng.choice(nums), 's': some(), 'f': f, 'first': True})
        num = rng.choice(nums)
        if rng.random() < .7:
            ev.append({'op': 'delete', 'n': num})
        ev.append({'op': 'load', 'n': num, 'f': f})
        ev.append({'op': 'query', 'n': num, 's': full, 'first': True})
    # a group of queries that run together must not have another command inside
    for a, b in zip(ev, ev[1:]):
        if b['op'] == 'query' and a['op'] != 'query':
            b['first'] = True
    return ev


def history(job):
    """Run a planned history; fills in res and segs."""
    h, rng = job
    if time.time() > DEADLINE:
        return None
    cls, base = h['text'], BASE + 4 * h['id']
    d = os.path.join(vf.WORK, f"kb{h['id']}")
    os.makedirs(d)

    def put(name, idx):
        syn = rng.choice(h['syntax'])
        p = os.path.join(d, name + {'otter': '.txt', 'tptp': '.p', 'json': '.js'}[syn])
        c = [cls[k - 1] for k in idx]
        open(p, 'w').write(fol.otter(c) if syn == 'otter' else fol.tptp(c) if syn == 'tptp' else fol.jsonld(c))
        return p

    def look():
        return [image(base + n) for n in (1, 2, 3)]
    try:
        k = 0
        while k < len(h['ev']):
            if time.time() > DEADLINE:
                del h['ev'][k:]
                break
            grp = [h['ev'][k]]
            while k + len(grp) < len(h['ev']) and grp[0]['op'] == 'query' and h['ev'][k + len(grp)]['op'] == 'query' and not h['ev'][k + len(grp)]['first']:
                grp.append(h['ev'][k + len(grp)])
            k += len(grp)
            e, procs = grp[0], []
            nr = ['-mbnr', str(base + e['n'])]
            if e['op'] in ('read', 'readwrite'):
                x = [os.path.join(d, f"dump{e['f']}")] if e['op'] == 'readwrite' else []
                r = vf.run_cmd([vf.gkc_bin(), '-' + e['op'] + 'kb', put(f'k{k}', e['s']), *x, '-mbsize', '1000', *nr], timeout=60)
                e['res'] = 'ok' if r.rc == 0 and ('Db ready in shared memory' in r.out) and (not x or 'Database written' in r.out) else 'refused'
                e['out'] = r.out[-300:]
            elif e['op'] == 'delete':
                e['res'] = 'ok' if vf.run_cmd([vf.gkc_bin(), '-deletekb', *nr], timeout=60).rc == 0 else 'refused'
            elif e['op'] in ('write', 'load'):
                r = vf.run_cmd([vf.gkc_bin(), '-' + e['op'] + 'kb', os.path.join(d, f"dump{e['f']}"), *nr], timeout=60)
                e['res'] = 'ok' if r.rc == 0 and not r.timeout else 'refused' if r.rc == 1 else 'crashed'
                e['out'] = r.out[-300:]
            elif e['op'] == 'kill':
                p = subprocess.Popen([vf.gkc_bin(), '-usekb', put(f'x{k}', e['s']), *nr, '-parallel', rng.choice(['0', '2']), '-mbsize', '30'], stdout=subprocess.DEVNULL,
                                     stderr=subprocess.DEVNULL, start_new_session=True)
                time.sleep(e.pop('after'))
                os.killpg(p.pid, rng.choice([signal.SIGKILL, signal.SIGTERM]))
                p.wait()
                e['res'] = 'killed'
            else:
                for g, q in enumerate(grp):
                    # with query_focus the indexes inside of the knowledge base are used; it is not complete
                    focus = rng.random() < .4
                    q['strategy'] = dict(rng.choice([x for x in strat.OTHER if 'query_focus' in x['strategy']] if focus else
                                                    [x for x in strat.COMPLETE if not h['eq'] or not set(x['strategy']) & {'hyper', 'hardness_pref', 'positive_pref', 'knuthbendix_pref'}]),
                                         max_seconds=1 if h['case']['kind'] == 'model' else 3)
                    q['full'] = not focus
                    q['cmd'] = [vf.gkc_bin(), '-usekb', put(f'q{k}_{g}', q['s']), *nr, '-json', '-print', '11', *vf.BASE, *vf.strat_arg(q['strategy'])]
                for q, r in zip(grp, vf.pmap(lambda q: vf.run_cmd(q['cmd'], timeout=30), grp, workers=len(grp))):
                    # what needs more than its share of a busy machine is asked for again with time
                    if vf.verdict_of(r) == 'none' and q['full'] and h['case']['kind'] != 'model':
                        r = vf.run_cmd(q['cmd'][:-1] + [vf.strat_arg(dict(q['strategy'], max_seconds=8 if h['case']['kind'] == 'epr' else 20))[-1]], timeout=60)
                    v = vf.verdict_of(r)
                    q['res'] = 'refused' if 'failed to attach' in r.out else 'resource' if 'cannot allocate memory' in r.out else v
                    q['out'] = r.out if v == 'proof' else r.out[-300:]
                    q['input'] = open(q['cmd'][2]).read()
            for e in grp:
                e['segs'] = ['?', '?', '?']
            grp[-1]['segs'] = look()
    finally:
        for n in (1, 2, 3):
            seg.segrm(base + n)
        vf.shutil.rmtree(d, ignore_errors=True)
    return h


def go(ck):
    own_namespace()
    rng = ck.rng
    vf.gkc_bin()
    build_image()
    hist = []
    ndump = scale(2, 12)
    for i in range(scale(260, 2600)):
        cs, cls = problem(rng)
        hist.append({'id': i, 'case': cs, 'text': cls, 'syntax': syntaxes(rng, cls), 'eq': any(l[1] == '=' for c in cls for l in c),
                     'ev': plan(rng, cs['kind'], len(cls), [1] if i < ndump else [])})
    planned = hist
    hist = [h for h in vf.pmap(history, [(h, random.Random(rng.random())) for h in hist]) if h]
    ck.count('histories_left_out', len(planned) - len(hist))
    enc, proofs, meta = [], [], []
    spec3 = importlib.util.spec_from_file_location('c03', os.path.join(os.path.dirname(__file__), 'C03.py'))
    main, vf.main = vf.main, lambda *a: None
    c03 = importlib.util.module_from_spec(spec3)
    spec3.loader.exec_module(c03)
    vf.main = main
    for h in hist:
        ev = []
        held = {}
        for e in h['ev']:
            ck.count('op_' + e['op'])
            ck.count(f"{e['op']}_{e['res']}")
            ev.append({'op': e['op'], 'n': e['n'], 's': e.get('s', []), 'f': e.get('f', 1), 'res': e['res'], 'full': e.get('full', False), 'segs': e['segs']})
            if e['op'] in ('read', 'readwrite'):
                held[e['n']] = e['s']
            elif e['op'] == 'load':
                held.pop(e['n'], None)
            if e['op'] == 'query' and e['res'] == 'proof' and e['n'] in held:
                o = json.JSONDecoder().raw_decode(e['out'][e['out'].index('{"result"'):])[0]
                inp = [{'cl': h['case']['cls'][k - 1], 'role': 'axiom', 'name': ''} for k in held[e['n']] + e['s']]
                for a in o['answers']:
                    try:
                        steps = [c03.step(x) for x in a['proof']]
                    except (fol.ParseError, KeyError, IndexError, TypeError, ValueError) as x:
                        ck.violation(f'proof has an unreadable line: {x!r}', {'output': e['out']})
                        continue
                    for s in steps:
                        s['name'] = ''
                        if s['rule'] == 'in':
                            s['role'] = 'axiom'
                    proofs.append({'input': inp, 'steps': steps, 'goal': 'false', 'answer': []})
                    meta.append((h, e))
        enc.append(dict(h['case'], runs=[], derived=[], ev=ev))
    bad, st = vf.tlc_cases('SharedKB', enc)
    ck.add_stats(st, len(enc))
    ck.sample({'clauses': fol.otter(hist[0]['text']), 'history': enc[0]['ev']})
    for i, invs in sorted(bad.items()):
        h = hist[i]
        ck.violation(f"{sorted(invs)} violated: {fol.otter(h['text'])!r}", {'clauses': fol.otter(h['text']).splitlines(), 'history': h['ev']})
    seen, keep = set(), []
    for j, c in enumerate(proofs):
        key = json.dumps(c['steps'])
        if key not in seen and len(c['steps']) <= 40:
            seen.add(key)
            keep.append(j)
    bad, st = vf.tlc_cases('Proof', [proofs[j] for j in keep])
    ck.add_stats(st, len(keep))
    ck.count('proofs', len(keep))
    for j, invs in sorted(bad.items()):
        h, e = meta[keep[j]]
        ck.violation(f"{sorted(invs)} violated by a proof from a shared knowledge base", {'clauses': fol.otter(h['text']).splitlines(), 'history': h['ev'], 'query': e})


vf.main(go, 'C14')
