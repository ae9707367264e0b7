"""Common machinery of the checks: build gkc from /repo, run it, run TLC over case files, report."""
import os, sys, json, time, random, hashlib, subprocess, tempfile, shutil, re, signal, atexit, traceback
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NCPU = min(8, os.cpu_count() or 4)
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
GUARD = 'GKC_VERIF'


class CheckError(Exception):
    pass


def scale(quick, thorough):
    return thorough if THOROUGH else quick


# ---------------------------------------------------------------- build
def repo_sources():
    out = subprocess.run(['bash', '-c', r"grep -v '^#' compile.sh | grep -oE '[A-Za-z0-9_]+/[A-Za-z0-9_.]+\.c' | sort -u"],
                         cwd=REPO, stdout=subprocess.PIPE, check=True).stdout.decode().split()
    if not out:
        raise CheckError('no sources found')
    return out


def tree_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    for d in ('Builtparser', 'Db', 'Main', 'Parser', 'Printer', 'Reasoner', 'cjson', 'Test', 'json'):
        base = os.path.join(REPO, d)
        if not os.path.isdir(base):
            continue
        for r, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.c', '.h', '.y', '.l')):
                    p = os.path.join(r, f)
                    h.update(os.path.relpath(p, REPO).encode() + b'\0')
                    h.update(open(p, 'rb').read())
    for f in ('config.h', 'config-gcc.h', 'compile.sh'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


_BUILT = {}


def _cc(args):
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode(errors='replace')


def build(variant='plain', cflags=('-O2',), defs=(), main=True, parser='Builtparser'):
    """Compile /repo's current tree; returns the directory with objects, and gkc when main."""
    key = (variant, tuple(cflags), tuple(defs), parser)
    if key in _BUILT:
        return _BUILT[key]
    d = os.path.join(BUILD, variant + '-' + tree_hash(repr(key)))
    done = os.path.join(d, 'DONE')
    if not os.path.exists(done):
        prune_builds(variant)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        srcs = repo_sources()
        gen = []
        if parser == 'Parser':
            gd = os.path.join(d, 'gen')
            os.makedirs(gd)
            for p in ('otter', 'prolog'):
                for tool in (['bison', '-Wnone', '-pwg_yy' + p, '-d', f'{REPO}/Parser/db{p}.y', '-o', f'{gd}/db{p}.tab.c'],
                             ['flex', '-Pwg_yy' + p, f'-o{gd}/db{p}.yy.c', f'{REPO}/Parser/db{p}.l']):
                    rc, o = _cc(tool)
                    if rc:
                        raise CheckError('parser generation failed: ' + o[-500:])
                gen += [f'{gd}/db{p}.tab.c', f'{gd}/db{p}.yy.c']
            srcs = [s for s in srcs if not s.startswith('Builtparser/')] + ['Parser/dbparse.c', 'Parser/dbclausify.c', 'Parser/jsparse.c']
        jobs = []
        for s in srcs:
            o = os.path.join(d, s.replace('/', '__')[:-2] + '.o')
            inc = ['-iquote', os.path.join(d, 'gen'), '-iquote', f'{REPO}/Parser'] if parser == 'Parser' else []
            jobs.append((['gcc', *cflags, '-w', *inc, *['-D' + x for x in defs], '-c', '-o', o, os.path.join(REPO, s)], o))
        for s in gen:
            o = os.path.join(d, 'gen__' + os.path.basename(s)[:-2] + '.o')
            jobs.append((['gcc', *cflags, '-w', '-iquote', os.path.join(d, 'gen'), '-iquote', f'{REPO}/Parser', '-c', '-o', o, s], o))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for rc, o in ex.map(_cc, [j[0] for j in jobs]):
                if rc:
                    raise CheckError('compile failed: ' + o[-800:])
        objs = [j[1] for j in jobs]
        lib = [o for o in objs if not o.endswith('Main__gkc.o')]
        rc, o = _cc(['ar', 'rcs', os.path.join(d, 'libgkc.a'), *lib])
        if rc:
            raise CheckError('ar failed: ' + o)
        if main:
            rc, o = _cc(['gcc', *cflags, '-static' if not any('sanitize' in c for c in cflags) else '-g', '-o', os.path.join(d, 'gkc'), *objs, '-lm'])
            if rc:
                raise CheckError('link failed: ' + o[-800:])
        open(done, 'w').write('ok')
    os.utime(done)
    _BUILT[key] = d
    return d


def prune_builds(variant, keep=2):
    if not os.path.isdir(BUILD):
        return
    ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.rsplit('-', 1)[0] == variant]
    ds.sort(key=lambda p: os.path.getmtime(p), reverse=True)
    for p in ds[keep:]:
        shutil.rmtree(p, ignore_errors=True)


def gkc_bin():
    return os.path.join(build(), 'gkc')


def gkc_bison():
    """the variant with the parsers that bison and flex generate from Parser/"""
    return os.path.join(build('bison', parser='Parser'), 'gkc')


def build_harness(name, defs=(), cflags=('-O1', '-g'), extra=(), wrap=()):
    """Link /verif/harness/<name>.c with the library made from /repo."""
    d = build('lib', cflags=cflags, defs=defs, main=False)
    src = os.path.join(VERIF, 'harness', name + '.c')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:10]
    out = os.path.join(d, f'{name}-{h}')
    if not os.path.exists(out):
        rc, o = _cc(['gcc', *cflags, '-w', f'-I{REPO}', *['-D' + x for x in defs], '-o', out + '.tmp', src, *extra,
                     os.path.join(d, 'libgkc.a'), '-Wl,--defsym,wg_show_database=0', *wrap, '-lm', '-lpthread'])
        if rc:
            raise CheckError('harness link failed: ' + o[-1500:])
        os.rename(out + '.tmp', out)
    return out


# ---------------------------------------------------------------- running gkc
class Res:
    __slots__ = ('rc', 'out', 'timeout', 'slow')

    def __init__(self, rc, out, timeout=False):
        self.rc, self.out, self.timeout = rc, out, timeout


def run_cmd(cmd, timeout=20, cwd=None, env=None, inp=None, limit=8 << 20):
    e = dict(os.environ)
    e.pop('VERIF_SEED', None)
    if env:
        e.update(env)
    with tempfile.TemporaryFile(dir=WORK) as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL if inp is None else subprocess.PIPE,
                             cwd=cwd, env=e, start_new_session=True)
        to = False
        try:
            p.communicate(inp, timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        f.seek(0)
        return Res(p.returncode, f.read(limit).decode(errors='replace'), to)


BASE = ['-parallel', '0', '-mbsize', '30']


def strat_arg(s):
    return ['-strategytext', json.dumps(s)] if s is not None else []


def pmap(fn, items, workers=NCPU, chunksize=8):
    """Parallel map in threads (the work is in subprocesses)."""
    with cf.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(fn, items))


def verdict_of(r):
    """proof / finished / none / error / signal / timeout"""
    if r.timeout:
        return 'timeout'
    if r.rc < 0:
        return 'signal'
    if 'proof found' in r.out and re.search(r'result:? *"?:? *"?proof found', r.out.replace('"result": "', 'result: ')):
        return 'proof'
    if 'search finished without proof' in r.out:
        return 'finished'
    if '"error"' in r.out or 'rror:' in r.out:
        return 'error'
    return 'none'


# ---------------------------------------------------------------- TLC
WORK = tempfile.mkdtemp(prefix='gkcverif-', dir='/tmp')
atexit.register(lambda: shutil.rmtree(WORK, ignore_errors=True))


class TlcStats:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.jvms = 0
        self.coverage = {}


def _java(args, env, timeout, xmx='2500m'):
    e = dict(os.environ)
    e.update(env)
    cmd = ['java', '-XX:+UseSerialGC', '-Xmx' + xmx, '-Xss64m', '-Djava.io.tmpdir=' + WORK, '-cp', JARS, 'tlc2.TLC', *args]
    p = subprocess.Popen(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise CheckError('TLC timed out: ' + ' '.join(args))
    return p.returncode, o.decode(errors='replace')


def parse_stats(out, st):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
        init = re.search(r'Finished computing initial states: (\d+) (?:distinct )?state', out)
        st.transitions += int(m[-1][0]) - (int(init.group(1)) if init else 0)
        st.states += int(m[-1][1])
    st.jvms += 1


def tlc(module, cfg=None, env=None, timeout=800, workers=1, extra=(), xmx='2500m'):
    """One TLC run. Returns (ok, output, stats). ok: no violation; raises CheckError on spec errors."""
    md = tempfile.mkdtemp(dir=WORK)
    args = ['-config', (cfg or module) + '.cfg', '-workers', str(workers), '-noGenerateSpecTE', '-nowarning', '-metadir', md,
            *extra, module + '.tla']
    rc, out = _java(args, env or {}, timeout, xmx)
    st = TlcStats()
    parse_stats(out, st)
    shutil.rmtree(md, ignore_errors=True)
    if rc == 0:
        return True, out, st
    if rc in (10, 11, 12, 13) or 'is violated' in out:
        return False, out, st
    raise CheckError(f'TLC failed rc={rc} {module}: ' + out[-3000:])


def tlc_cases(module, cases, cfg=None, shards=None, timeout=800, env=None, min_per=1, xmx='2500m'):
    """Run `module` over `cases` (list of JSON-able dicts) in parallel JVMs.  The module reads
    ndJsonDeserialize(IOEnv.CASES), has the case number in variable i, and its invariants are the verdicts.
    Returns ({case index: set of violated invariants}, stats)."""
    st = TlcStats()
    bad = {}
    if not cases:
        return bad, st
    n = shards or max(1, min(NCPU, len(cases) // max(1, min_per)))
    parts = [list(range(k, len(cases), n)) for k in range(n)]

    def go(k):
        f = os.path.join(WORK, f'{module}-{os.getpid()}-{k}-{time.time_ns()}.ndjson')
        with open(f, 'w') as fh:
            for j in parts[k]:
                fh.write(json.dumps(cases[j]) + '\n')
        md = tempfile.mkdtemp(dir=WORK)
        args = ['-config', (cfg or module) + '.cfg', '-workers', '1', '-continue', '-noGenerateSpecTE', '-nowarning',
                '-metadir', md, module + '.tla']
        e = {'CASES': f}
        e.update(env or {})
        rc, out = _java(args, e, timeout, xmx)
        shutil.rmtree(md, ignore_errors=True)
        s = TlcStats()
        parse_stats(out, s)
        viol = []
        cur = None
        for line in out.splitlines():
            m = re.match(r'Error: Invariant (\S+) is violated', line) or re.match(r'Error: Action property (\S+) is violated', line)
            if m:
                cur = [m.group(1), None]
                viol.append(cur)
            m = re.match(r'(?:/\\ )?i = (\d+)', line)
            if m and cur is not None:
                cur[1] = int(m.group(1))
        if rc != 0 and not viol:
            keep = os.path.join(VERIF, 'build', 'tlc-error.txt')
            os.makedirs(os.path.dirname(keep), exist_ok=True)
            open(keep, 'w').write(out)
            shutil.copy(f, keep + '.ndjson')
            raise CheckError(f'TLC failed rc={rc} {module}: ' + out[-3000:])
        if 'Error:' in out:
            rest = [l for l in out.splitlines() if l.startswith('Error:') and 'is violated' not in l and 'behavior up to this point' not in l]
            if rest:
                raise CheckError(f'TLC error {module}: ' + ' '.join(rest)[:2000] + out[-1500:])
        os.unlink(f)
        return k, viol, s
    with cf.ThreadPoolExecutor(n) as ex:
        for k, viol, s in ex.map(go, range(n)):
            st.states += s.states
            st.transitions += s.transitions
            st.jvms += 1
            for name, i in viol:
                if i is None:
                    raise CheckError('violation without a case number')
                bad.setdefault(parts[k][i - 1], set()).add(name)
    return bad, st


def tlc_trace(module, events, cfg=None, timeout=300, env=None):
    """Trace validation: module reads ndJsonDeserialize(IOEnv.TRACE); accepted iff POSTCONDITION holds."""
    f = os.path.join(WORK, f'{module}-{os.getpid()}-{time.time_ns()}-{random.random()}.ndjson')
    with open(f, 'w') as fh:
        for e in events:
            fh.write(json.dumps(e) + '\n')
    md = tempfile.mkdtemp(dir=WORK)
    args = ['-config', (cfg or module) + '.cfg', '-workers', '1', '-noGenerateSpecTE', '-nowarning', '-metadir', md, module + '.tla']
    ee = {'TRACE': f}
    ee.update(env or {})
    rc, out = _java(args, ee, timeout)
    shutil.rmtree(md, ignore_errors=True)
    os.unlink(f)
    st = TlcStats()
    parse_stats(out, st)
    if rc == 0:
        return True, out, st
    if 'is violated' in out or 'ostcondition' in out or 'POSTCONDITION' in out or rc in (10, 11, 12, 13):
        return False, out, st
    raise CheckError(f'TLC failed rc={rc} {module}: ' + out[-3000:])


# ---------------------------------------------------------------- reporting
class Check:
    def __init__(self, pid, level='model_checking'):
        self.id = pid
        self.level = level
        self.t0 = time.time()
        self.rng = random.Random(f'{pid}-{SEED}')
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.viol = []
        self.known = self._load_known()
        self.known_hit = set()

    def _load_known(self):
        p = os.path.join(VERIF, 'known_findings.jsonl')
        r = []
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line and not line.startswith('#'):
                    k = json.loads(line)
                    if k.get('property') == self.id and k.get('status') == 'known':
                        r.append(k)
        return r

    def add_stats(self, st, traces=0):
        self.cov['states'] += st.states
        self.cov['transitions'] += st.transitions
        self.cov['traces_validated_against_impl'] += traces

    def sub(self, *a):
        return random.Random(repr((SEED, self.id) + a))

    def sample(self, x, limit=4):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(x)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, what, data, key=None):
        """key identifies the failing input / call site / history for the known-findings file."""
        for k in self.known:
            if key is not None and k.get('key') == key:
                self.known_hit.add(json.dumps(k, sort_keys=True))
                return
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f'{self.id}-{len(self.viol)}.json')
        if len(self.viol) >= 40:
            p = self.viol[0][1]
        else:
          with open(p, 'w') as f:
            json.dump({'property': self.id, 'what': what, 'seed': SEED, 'tier': TIER, 'data': data}, f, indent=1, default=str)
        self.viol.append((what, p))

    def finish(self):
        for k in sorted(self.known_hit):
            k = json.loads(k)
            print(f"KNOWN-FINDING: property={self.id} {k.get('what', '')}")
        ev = {'property': self.id, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for what, p in self.viol[:20]:
            print(f'  {what}')
            print(f'VIOLATION property={self.id} replay={p}')
        print(f"{self.id}: {'VIOLATED' if self.viol else 'held'} tier={TIER} seed={SEED} "
              f"{ {k: v for k, v in self.cov.items() if k != 'samples'} } {ev['wall_s']}s")
        sys.stdout.flush()
        return 1 if self.viol else 0


def main(fn, pid, level='model_checking'):
    ck = Check(pid, level)
    try:
        fn(ck)
        rc = ck.finish()
    except CheckError as e:
        if ck.viol:
            rc = ck.finish()
        else:
            print('CHECK ERROR', e)
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = ck.finish() if ck.viol else 2
    sys.exit(rc)
