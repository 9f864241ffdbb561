import json
T = "contract-based deductive verification: contracts on the real classes; obligations generated by executing the unmodified /repo code on symbolic scalars over every feasible path; discharged by exact algebra in Q(i)(atoms) and z3; refutations replayed on the real code"
N = ("Obligations are quantified over all parameter values, all driving waves and (through a symbolic key) all frequencies; shapes of the composed circuits and listed option choices are enumerated. "
     "Trusted: CPython, numpy object dispatch, z3, the engine in vc/; machine floats treated as exact numbers; end-to-end cases assume the linear solver's contract (decided by P01).")
def P(id, title, statement, over, text, why, files, mech, technique=T, note=N, level='proof', **k):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]),
             check=dict(technique=technique, level=level, level_note=note))
    assert len(title) <= 80, title
    d['anchors'].update(k)
    json.dump(d, open('/verif/checks/meta/%s.json' % id, 'w'), indent=1)
