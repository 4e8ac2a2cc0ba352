"""Writes MANIFEST.json from properties.jsonl and the specifications that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {
    'C25': 'The firmware is produced by hls4ml and an HLS compiler outside this repository; bit accuracy is a statement about those '
           'generated programs on all inputs, which no analysis of this source tree can decide. The parts decided by this repository '
           'are C01-C03, C08, C10, C12, C13, C19-C21.',
    'C26': 'An empirical correlation between BOPs and synthesis results; there is nothing in the source that makes it true or false. '
           'The formula itself is decided by C15.',
    'C27': 'A statistical property of an optimisation trajectory over runtime data. The gradients it relies on are decided by C05 and C15.',
    'C28': 'Depends on the rounding behaviour of float32 kernels (XLA/Eigen pow, log2) that are not part of the source; the value-flow '
           'domain is the reals.',
}
TECH = ('static analysis: interprocedural value-flow analysis (abstract interpretation of the syntax tree over canonical gated terms, '
        'global value numbering, joins at merges, escape/alias-aware heap) of /repo\'s current source; the term of each observable '
        '(return value, gradient, heap effect, raise condition, emitted layer/config) must equal the term of its specification')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'hgqsa', 'specs', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough', technique=TECH, level='other',
                           level_note='Static value-flow analysis: decided for all runtime values of the symbolic inputs (real arithmetic, library calls as '
                                      'modelled in hgqsa/lib.py and hgqsa/stubs); the enumerated configurations (layer kinds, ranks, flags) are listed in '
                                      f'hgqsa/specs/{i.lower()}.py. A violation is only reported when a valuation separates the two terms; anything the '
                                      'analysis cannot model is reported as undecided in the evidence, not as a violation.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check yet.')))
json.dump(dict(version=1, setup_cmd='python3 -c "import sys; assert sys.version_info >= (3, 10)"', checks=checks, not_applicable=na),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na])
