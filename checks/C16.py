"""C16: dumps of real databases written, damaged, checked and loaded, against Query.tla (files as snapshots)."""
import os, vf, dbgen
from vf import scale


def go(ck):
    vf.build_harness('dbh')
    jobs = []
    for j in range(scale(250, 2000)):
        d = os.path.join(vf.WORK, f'dump{j}')
        os.mkdir(d)
        jobs.append(dbgen.history(ck.rng, d))
    dbgen.check(ck, jobs, 'Dump')


vf.main(go, 'C16')
