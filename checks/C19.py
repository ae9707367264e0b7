"""C19: records, indexes and queries of the real database layer against Query.tla."""
import vf, dbgen
from vf import scale


def go(ck):
    vf.build_harness('dbh')
    dbgen.check(ck, [dbgen.history(ck.rng) for _ in range(scale(1000, 8000))], 'Query')


vf.main(go, 'C19')
