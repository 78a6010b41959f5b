#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below (committed output)."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
P, NA = [], []


def prop(id, title, statement, quant, why, files, mech, observe=None, over=('inputs',), note='', state=None, level='proof', technique=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=quant), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append((d, note, level, technique))


def na(id, reason):
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(ROOT, 'gen_props.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d, _, _, _ in P: f.write(json.dumps(d) + '\n')
skip = set(x['property'] for x in NA)
BASE = ('Every obligation generated from the current source of the functions under contract (named clauses, bounds, signed overflow, assertions, callee preconditions, termination) is discharged by Verus/Z3 for all inputs. '
        'Trusted: Verus/Z3, the clang AST, the mechanical C++ to Verus extractor and its library-call table (vq/). The real code is also run against an independent oracle (bounded, not counted as proof). '
        'If the source changes so that the contracts no longer fit, only the bounded search decides and the evidence says so. ')
m = dict(version=1, setup_cmd='python3 setup.py', checks=[], not_applicable=NA,
         notes='Contract-based deductive verification of the C++ functions in /repo: contracts in vq/units/*.vqc, extraction by vq/trans.py, back end Verus. See DESIGN.md.')
for d, note, level, tech in P:
    if d['id'] in skip: continue
    m['checks'].append(dict(property=d['id'], quick_cmd='python3 check.py ' + d['id'], thorough_cmd='python3 check.py %s --thorough' % d['id'],
                            evidence_file='evidence/%s.json' % d['id'], technique=tech or 'contracts on the extracted real functions, discharged by Verus (deductive verification)',
                            level=level, level_note=BASE + note))
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
