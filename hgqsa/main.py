"""Command line driver: runs the obligations of a property, writes evidence, prints the verdict."""
from __future__ import annotations

import json
import os
import sys
import resource
import threading
import time
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')

RULE = ('interprocedural value-flow analysis: every expression of the reachable repository code is mapped to a canonical term '
        '(gated SSA / global value numbering, joins at control-flow merges); an obligation holds iff the term of the observable '
        'result (return value, heap effect, raise condition, event) equals the term of its specification')


def known_findings(prop):
    out = {}
    try:
        lines = open(KNOWN, encoding='utf-8').read().splitlines()
    except OSError:
        return out
    for l in lines:
        l = l.strip()
        if not l.startswith('KNOWN'):
            continue
        # KNOWN property=Cxx key=<prefix of obligation key> :: text
        head, _, text = l.partition('::')
        d = dict(x.split('=', 1) for x in head.split(None, 2)[1:] if '=' in x)
        if d.get('property') == prop:
            out[d['key'].strip()] = text.strip()
    return out


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    res = []
    # a construct the analysis cannot digest must not take the machine down: it becomes undecided
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=lambda: res.append(_main(prop, tier, argv[2] if len(argv) > 2 else None)))
    t.start()
    t.join()
    return res[0] if res else 2


def _main(prop, tier, only):
    from .oblig import Run, SPECS
    t0 = time.time()
    specs = sorted(f for f in os.listdir(SPECS) if f.startswith(prop.lower()) and f.endswith('.py'))
    if not specs:
        print(f'ERROR no specification for {prop}')
        return 2
    results, functions, nobl, unmodelled = [], {}, 0, set()
    for s in specs:
        r = Run(prop, s, tier)
        r.run(only)
        results += r.results
        functions.update(r.functions)
        nobl += r.obligations
        unmodelled |= r.it.unmodelled
    cnt = Counter(x.status for x in results)
    known = known_findings(prop)
    fails, knowns = [], {}
    for x in results:
        if x.status != 'fail':
            continue
        k = next((k for k in known if x.key.startswith(k)), None)
        if k is not None:
            knowns.setdefault(k, []).append(x)
        else:
            fails.append(x)
    wall = time.time() - t0
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    files = sorted({f for f, _ in functions.values() if f})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(wall, 3),
        'coverage': {
            'explanation': RULE + '. All counts below were produced by this run from the current source.',
            'obligation_groups': nobl,
            'obligations_checked': len(results),
            'obligations_discharged': cnt['ok'],
            'obligations_undecided': cnt['undecided'],
            'obligations_violated': cnt['fail'],
            'repository_functions_analysed': len(functions),
            'functions': sorted(f'{os.path.basename(f or "?")}:{l} {q}' for q, (f, l) in functions.items()),
            'files': files,
            'unmodelled_library_calls': sorted(unmodelled),
            'undecided': [{'obligation': x.key, 'why': x.detail[:300]} for x in results if x.status == 'undecided'][:40],
        },
        'assumptions': [
            'library functions (tensorflow, numpy, keras, qkeras) behave as modelled in hgqsa/lib.py and hgqsa/stubs',
            'arithmetic is over the reals (float32 rounding is the subject of C28, not of this check)',
        ],
        'violations': [{'obligation': x.key, 'detail': x.detail[:1500], 'witness': x.data, 'functions': x.functions} for x in fails][:50],
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop} [{tier}] analysed {len(functions)} functions in {len(files)} files; {len(results)} obligations in {nobl} groups: '
          f'{cnt["ok"]} discharged, {cnt["fail"]} violated, {cnt["undecided"]} undecided; {wall:.1f}s')
    for x in results:
        if x.status == 'undecided':
            print(f'  undecided {x.key}: {x.detail[:200]}')
    for k, xs in knowns.items():
        print(f'KNOWN-FINDING: property={prop} {known[k]} [{len(xs)} obligation(s) {k}]')
    for k in known:
        if k not in knowns:
            print(f'  note: known finding {k} does not occur any more')
    if fails:
        rp = os.path.join(ROOT, 'evidence', f'replay_{prop}.json')
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'replay': f'python3 {ROOT}/check.py {prop} {tier}', 'violations': ev['violations']}, f, indent=1)
        for x in fails[:25]:
            print(f'  VIOLATED {x.key}\n     at {"; ".join(x.functions[:12])}\n     {x.detail[:700]}\n     witness {str(x.data)[:400]}')
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    if cnt['ok'] == 0:
        print(f'ERROR {prop}: nothing could be decided')
        return 2
    return 0
