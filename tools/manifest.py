"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, '..', 'properties.jsonl'))]
NOTE = {
    'P01': 'Proved for every text up to the assumed contracts of std and nom listed in DESIGN.md; stack and heap exhaustion are out of scope.',
    'P03': 'The value of a literal is proved to be the standard library conversion of exactly the written digits; that this conversion rounds to nearest is assumed of std and sampled by the differential run.',
    'P18': 'Everything but the two recorded findings (the remainder after the first unparsable statement is dropped with Ok) is proved.',
}
GEN = ('Every function the property depends on satisfies its contract for all inputs: each obligation generated from the MIR of /repo\'s current source is discharged by z3. '
       'Trusted: rustc\'s MIR, the interpreter in mirv, assumed contracts of std/nom in mirv/models.py, floats uninterpreted. '
       'A bounded differential run of the real code against the same specification comes on top and is not counted as proof. ')
d = dict(
    version=1,
    setup_cmd='python3-vt mirv/build.py dump harness',
    checks=[dict(property=p['id'], quick_cmd='python3-vt mirv/check.py ' + p['id'], thorough_cmd='python3-vt mirv/check.py ' + p['id'],
                 technique='contract-based deductive verification of the real code (MIR symbolic execution with function contracts and loop invariants, z3)',
                 level='proof', level_note=GEN + NOTE.get(p['id'], '')) for p in props],
    not_applicable=[],
    notes='Known findings: known-findings.txt. Design, trusted base and results on planted bugs: DESIGN.md.')
json.dump(d, open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
