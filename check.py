#!/usr/bin/env python3
"""check.py <property> [--repo DIR]

Decides one property from /repo's current source.  Exit 0: no obligation of the
property is refuted.  Exit 1 with a VIOLATION line: at least one is.  Exit 2:
nothing of the property could be analysed at all.
"""
import json
import os
import resource
import signal
import sys
import time
import traceback

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from pv import oblig, lints, known            # noqa: E402
from pv.modules import Program                # noqa: E402

RULE = ('each function is turned into a gated value graph (hash-consed dataflow graph of its '
        'result, effects and raised exceptions) and compared with the graph of a specification '
        'function kept in /verif/specs; equal graphs discharge the obligation, a difference that '
        'lies in constants, operators, known library operations or effects refutes it, and a '
        'difference the analysis cannot judge by form is settled by random interpretation of the two '
        'abstract graphs (nothing of the program runs) or left undecided (reported here, no alarm)')

ASSUME = [
    'third party libraries (hwtypes, ast_tools, magma, mantle, pysmt, fault) behave as their documentation says',
    'operators on library values are pure; attribute reads on library values are pure',
    'assert statements and log calls carry no behaviour',
    'specification functions in /verif/specs state the intended behaviour (reviewed by hand)',
]


def out_of_time(*_):
    raise oblig.Budget('time')


def main():
    t0 = time.time()
    signal.signal(signal.SIGALRM, out_of_time)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    evd = os.environ.get('PV_EVID') or os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    prog = Program()
    obligations, viol, und, missing, functions = [], [], [], [], set()
    held = 0
    notes = []
    for spec in oblig.load_specs(prog):
        if prop not in spec.all_props():
            continue
        try:
            # an obligation may take a share of the time only; one that does not fit is undecided
            signal.alarm(max(2, min(150, int(t0 + 700 - time.time()))))
            try:
                rs = oblig.run_spec(prog, spec, {prop}, tier)
            finally:
                signal.alarm(0)
        except (Exception, RecursionError) as e:      # an engine limit is not a verdict
            rs = [oblig.Result(spec, None, [prop], oblig.UNDECIDED, note=f'engine: {type(e).__name__}')]
        for r in rs:
            if prop not in r.props:
                continue
            name = spec.name + (f'[{r.part}]' if r.part is not None else '')
            o = {'obligation': name, 'anchor': spec.actual, 'verdict': r.verdict, 'graph_nodes': r.terms}
            if r.loc:
                o['at'] = f'{r.loc[0]}:{r.loc[1]}'
            for f in getattr(r, 'funcs', {}) or {}:
                functions.add(str(f))
            if r.note:
                o['note'] = r.note
            if r.verdict == oblig.HOLDS:
                held += 1
            elif r.verdict == oblig.REFUTED:
                ds = [f'{d} at {getattr(d, "where", None)}' for d in r.diffs[:6]]
                o['differences'] = ds
                viol.append({'id': name, 'anchor': spec.actual, 'file': r.loc[0], 'line': r.loc[1],
                             'rule': 'value graph differs from the specification', 'why': spec.why,
                             'detail': ds})
            elif r.verdict == oblig.BROKEN:
                missing.append(name)
            else:
                o['differences'] = [str(d) for d in r.diffs[:4]]
                und.append(name)
            obligations.append(o)
    lint_stats = []
    for ln in lints.ALL:
        if prop not in ln.props:
            continue
        try:
            ok = ln.selftest()
            fs, n = ln.run(prog, prop)
        except (Exception, RecursionError) as e:
            lint_stats.append({'rule': ln.name, 'error': f'{type(e).__name__}: {e}'})
            und.append(ln.name)
            continue
        lint_stats.append({'rule': ln.name, 'what': ln.what, 'sites': n, 'positive_example_matches': ok,
                           'findings': len(fs)})
        if not ok:
            und.append(ln.name + ' (positive example does not match)')
            continue
        held += not fs
        for f in fs:
            viol.append({'id': ln.name, 'anchor': f.where, 'file': f.file, 'line': f.line, 'rule': ln.what,
                         'detail': [f.msg]})
    kf = known.load(HERE)
    real = []
    for v in viol:
        k = known.match(kf, prop, v)
        if k:
            print(f'KNOWN-FINDING: property={prop} {k}')
        else:
            real.append(v)
    analysed = held + len(viol) + len(und)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': f'{len(obligations)} obligations and {len(lint_stats)} rules were decided from the current '
                           f'source of {os.environ.get("PV_REPO", "/repo")}; nothing was executed',
            'rule': RULE,
            'obligations': len(obligations) + len(lint_stats),
            'discharged': held,
            'undecided': und, 'anchors_not_found': missing,
            'functions_analysed': sorted(functions),
            'graph_nodes_compared': sum(o['graph_nodes'] for o in obligations),
            'rules': lint_stats,
            'samples': obligations,
        },
        'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 3), 'violations': len(real),
    }
    with open(os.path.join(evd, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print(f'{prop}: {held} of {len(obligations) + len(lint_stats)} obligations hold, {len(real)} refuted, '
          f'{len(und)} undecided, {len(missing)} anchors not found; {len(functions)} functions analysed')
    for u in und:
        print(f'  undecided: {u}')
    for u in missing:
        print(f'  anchor not found: {u}')
    if real:
        path = os.path.join(evd, prop + '.violation.json')
        with open(path, 'w') as f:
            json.dump(real, f, indent=1)
        for v in real:
            print(f'  {v["file"]}:{v["line"]} {v["anchor"]}: {v["id"]}: {v["rule"]}')
            for d in v['detail']:
                print(f'      {d}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    if not analysed:
        print(f'analysis broken: nothing of {prop} could be analysed', file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
