"""Writes MANIFEST.json: python3 tools/make_manifest.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'property-based testing against an extended-precision reference model',
    'C02': 'fuzzing with structured corruption of valid inputs',
    'C03': 'property-based testing: generated selections vs reference Gram matrix',
    'C04': 'stateful model-based testing of access histories',
    'C05': 'stateful model-based testing with a counting kernel',
    'C06': 'fault injection over generated histories',
    'C07': 'fuzzing of index expressions',
    'C08': 'property-based testing: reference and metamorphic relations',
    'C09': 'property-based testing: reference and metamorphic relations',
    'C10': 'property-based testing: reference and metamorphic relations',
    'C11': 'property-based testing on matrices with constructed spectra',
    'C12': 'stateful model-based testing against a list model',
    'C13': 'stateful model-based testing against a dict model',
    'C14': 'property-based testing against element-wise reference',
    'C15': 'property-based testing against a list model of the bucket',
    'C16': 'differential property-based testing against a manual ranking',
    'C17': 'property-based testing: reference and metamorphic relations',
    'C18': 'differential property-based testing against a precomputed-kernel SVM',
    'C19': 'differential property-based testing against manual kernel selection and SVM',
    'C20': 'stateful differential testing of estimator life cycles against fresh estimators',
    'C21': 'property-based testing against the underlying array',
    'C22': 'property-based testing of printable forms over configurations and histories',
    'C23': 'property-based testing against plain-Python reference',
    'C24': 'property-based testing with generated non-finite values',
    'C25': 'stateful metamorphic testing: snapshots of inputs, interleaved vs isolated runs',
    'C26': 'fault injection over generated estimator histories, differential against fresh fits',
    'C27': 'stateful model-based testing of duplicated objects driven apart',
    'C28': 'property-based testing against plain-Python reference',
    'C29': 'metamorphic property-based testing of argument lists against fully explicit calls',
    'C30': 'metamorphic property-based testing over ambient conditions, orders, threads and '
           'processes',
    'C31': 'metamorphic property-based testing under reordered, padded, rescaled and renamed data',
}
props = [json.loads(ln) for ln in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if not os.path.exists(os.path.join(HERE, 'pbt', 'props', pid.lower() + '.py')):
        na.append(dict(property=pid, reason='check not built yet'))
        continue
    checks.append(dict(
        property=pid,
        quick_cmd='/opt/venv/bin/python check.py {} --tier quick'.format(pid),
        thorough_cmd='/opt/venv/bin/python check.py {} --tier thorough'.format(pid),
        technique=TECH[pid], level='exploration',
        level_note='Generated-input search with an explicit oracle (see DESIGN.md); shows no '
                   'violation among the generated cases, deterministic in VERIF_SEED. Trusts '
                   'numpy/scipy/scikit-learn and the reference in pbt/.'))
doc = dict(version=1,
           setup_cmd='/opt/venv/bin/python check.py --self-test',
           checks=checks, not_applicable=na,
           notes='No hooks in /repo. Replay: /opt/venv/bin/python check.py --replay FILE')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(doc, fh, indent=1)
    fh.write('\n')
