"""Lemmas over the contracts, checked by Lean (lemmas/*.lean): what the contracts of single functions
give together.  A lemma that can not be checked here (no Lean) is undischarged, never an alarm."""
import os
import re
import subprocess
import time

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lemmas')
SOUND = {'propext', 'Classical.choice', 'Quot.sound'}


def check(path, limit=200):
    """-> names of the theorems, those proved, why not"""
    text = open(path).read()
    names = re.findall(r'^theorem (\w+)', text, re.M)
    try:
        r = subprocess.run(['lean', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, cwd='/tmp')
        out = r.stdout.decode()
    except (OSError, subprocess.TimeoutExpired) as x:
        return names, [], 'Lean: %s' % type(x).__name__
    ok = {}
    for n, ax in re.findall(r"^'(\w+)' depends on axioms: \[([^\]]*)\]", out, re.M):
        ok[n] = {a.strip() for a in ax.split(',')} <= SOUND
    for n in re.findall(r"^'(\w+)' does not depend on any axioms", out, re.M):
        ok[n] = True
    good = [n for n in names if ok.get(n)] if r.returncode == 0 and 'error' not in out else []
    return names, good, '' if len(good) == len(names) else out[:300]


def add(S, filename, assumed=()):
    S.assumptions.extend(a for a in assumed if a not in S.assumptions)

    @S.engine
    def lemmas(tier, seed):
        only = os.environ.get('VC_ONLY')
        if only and 'proved' not in only:
            return []
        t0 = time.time()
        names, good, why = check(os.path.join(HERE, filename))
        case = 'lemmas over the contracts: %s' % ', '.join(names)
        return [dict(case=case, paths=0, evaluations=0, violations=[], notes=[], domains=[], cross_checked=0, vacuous=False, bounded=False,
                     obligations=len(names), discharged=len(good), functions=[], backends={'Lean 4 (Mathlib)': len(good)},
                     undischarged=[dict(case=case, obligation=n, why=why) for n in names if n not in good],
                     wall=time.time() - t0, stats={})]
    return lemmas
