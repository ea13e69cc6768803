import importlib, json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    try:
        m = importlib.import_module('mirv.props.' + i.lower())
    except ModuleNotFoundError:
        na.append(dict(property=i, reason=NA[i] if i in (NA := {}) else 'no contract for it has been discharged yet'))
        continue
    whole = getattr(m, 'SCOPE', 'part') == 'whole'
    note = ('Proved for all inputs: %s.' % m.PROVED) if whole else ('Proved for all inputs: %s. Bounded only (executable contract on generated and mined inputs, labelled bounded): %s.' % (m.PROVED, m.BOUNDED))
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
                       technique='contract-based deductive verification: pre/postconditions and invariants discharged by z3/cvc5 over the MIR of the working tree (mirv); counterexamples replayed on the real code' + ('' if whole else '; bounded executable contracts stand in for the rest'),
                       level='proof' if whole else 'other', level_note=note[:1500]))
M = dict(version=1, setup_cmd='true', checks=checks, hooks=dict(guard='none', enable='no hooks: the engine reads the MIR of the unmodified crate', source_commits=[]),
         not_applicable=na, notes='see DESIGN.md; defects repaired in /repo are listed in known_findings.txt')
json.dump(M, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
