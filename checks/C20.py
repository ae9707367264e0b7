"""C20: the real lock under controlled schedules, against Lock.tla."""
import os, json, vf
from vf import scale


def build():
    d = vf.build('lib', cflags=('-O1', '-g'), main=False)
    o = os.path.join(d, 'dblock-traced.o')
    rc, out = vf._cc(['gcc', '-O1', '-g', '-w', '-fsanitize=thread', '-I' + vf.REPO, '-c', '-o', o, os.path.join(vf.REPO, 'Db/dblock.c')])
    if rc:
        raise vf.CheckError('compile failed: ' + out[-800:])
    return vf.build_harness('lockh', extra=[o], wrap=['-Wl,' + ','.join('--wrap=' + x for x in ('syscall', 'nanosleep', 'usleep', 'sched_yield', 'clock_gettime'))])


def go(ck):
    h = build()
    n = scale(20000, 200000)
    base = ck.rng.randrange(10**6) * 1000000
    per = n // 40
    jobs = [(base + j * per, 5 if j % 4 else 3) for j in range(40)]
    res = vf.pmap(lambda j: vf.run_cmd([h, str(j[0]), str(per), str(j[1])], timeout=300, limit=200 << 20), jobs)
    seen, cases = set(), []
    for j, r in zip(jobs, res):
        if r.rc != 0 or r.timeout:
            ck.violation(f'the schedules ended abnormally (rc {r.rc}{" timeout" if r.timeout else ""})', {'first': j[0], 'count': per, 'threads': j[1], 'out': r.out[-2000:]})
        for l in r.out.splitlines():
            at = l.find('"ev":')
            if l.endswith('}') and l[at:] not in seen:
                seen.add(l[at:])
                c = json.loads(l)
                c['threads'] = j[1]
                cases.append(c)
    ck.count('schedules', n)
    for c in cases:
        for e in c['ev']:
            ck.count(e['op'])
    ck.sample(cases[0])
    # a first part by itself, so that a lock that is quite broken is reported soon
    for part in (cases[:800], cases[800:]):
        bad, st = vf.tlc_cases('Lock', [{'ev': c['ev']} for c in part])
        ck.add_stats(st, len(part))
        for i, invs in sorted(bad.items()):
            ck.violation(f'{sorted(invs)} violated by schedule {part[i].get("seed")} of {part[i]["threads"]} threads', part[i])
        if bad:
            return
    # the algorithm, all interleavings of three threads
    for cfg in ('LockQueue', 'LockQueueLive'):
        ok, out, st = vf.tlc('LockQueue', cfg, workers=vf.NCPU, xmx='6g')
        ck.add_stats(st)
        if not ok:
            raise vf.CheckError(f'{cfg} does not hold of the specification: ' + out[-2000:])


vf.main(go, 'C20')
