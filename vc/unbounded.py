"""Unbounded proofs (vc/wp.py) as part of a suite.

Each contract is proved from the current source; what can not be proved (or not
be followed) is recorded as undischarged, the bounded cases of the suite remain its
stand-in and find the failing input.  A proof that fails is never an alarm by itself:
code that is written differently may need other invariants."""
import inspect
import os

from . import harness, wp

ASSUMED = [
    'unbounded proofs: couplings are elements of a commutative ring, conjugation and the reciprocal uninterpreted (the invertibility of a pivot is the precondition of the solver)',
    'unbounded proofs: keys have a consistent == and hash; two entries of one dictionary never share a set object (precondition of each contract, shown to be kept by it)',
    'unbounded proofs: vc/wp.py translates the parsed source of /repo (no statement dropped), z3 answers unsat',
]


def where(c):
    f = inspect.unwrap(c.func)
    f = getattr(f, '__func__', f)
    p = os.path.relpath(inspect.getsourcefile(f), harness.REPO)
    return '%s:%s' % (p, getattr(f, '__qualname__', f.__name__))


def add(S, make, doc='for every input, no bound: every obligation of the contract discharged by z3'):
    """make() -> contracts; they become obligations of the suite"""
    S.assumptions.extend(a for a in ASSUMED if a not in S.assumptions)

    @S.engine
    def proofs(tier, seed):
        only = os.environ.get('VC_ONLY')
        if only and 'proved' not in only:
            return []
        name = 'z3 %s (unbounded)' % '.'.join(map(str, wp.z3.get_version()[:3]))
        empty = dict(paths=0, evaluations=0, violations=[], notes=[], domains=[], cross_checked=0, vacuous=False, bounded=False)
        try:
            cs = make()
        except Exception as x:      # a function that is not there any more
            return [dict(empty, case='proved for every input', obligations=1, discharged=0, functions=[], backends={},
                         undischarged=[dict(case='proved for every input', why='no contract: %r' % x)])]
        out = []
        for c, r in zip([c for c in cs if not c.trusted], wp.prove(cs, None, 5000 if tier == 'quick' else 30000, jobs=int(os.environ.get('VC_JOBS', '6')),
                                     limit=150 if tier == 'quick' else 900)):
            case = 'proved for every input: %s' % r['function']
            und = [dict(case=case, obligation=x['obligation'], why='z3: %s' % x['answer']) for x in r['failed']]
            n = r['obligations']
            if r['why']:
                und, n = [dict(case=case, why=r['why'])], max(n, 1)
            out.append(dict(empty, case=case, obligations=n, discharged=n - (n if r['why'] else len(und)), undischarged=und,
                            backends={name: n - (n if r['why'] else len(und))}, functions=[where(c)], wall=r['seconds'], doc=doc,
                            stats=dict(z3_time=r['seconds'], z3_queries=n)))
        return out
    return proofs
