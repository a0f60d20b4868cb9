#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's current tree statically."""
import json, os, sys, time, threading
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'rules')]
sys.setrecursionlimit(1000000)
threading.stack_size(1024 * 1024 * 1024)


def known(prop):
    """listed findings: obligation key -> text"""
    out = {}
    with open(os.path.join(V, 'known-findings.json')) as f:
        for k in json.load(f)['findings']:
            if k['property'] == prop:
                out[k['obligation']] = k['what']
    return out


def main(prop, tier):
    import dump
    from thir import Prog
    from registry import PROPS, NEEDS
    from lib import Ctx
    t0 = time.time()
    need = NEEDS.get(prop, ('rs',))
    files = []
    if 'rs' in need:
        files += dump.dump(False)
    if 'py' in need:
        # the bindings are analysed against the library's interface
        files += [f for f in dump.dump(True) if 'Cdylib' in f or 'rs' not in need]
    prog = Prog(files)
    cx = Ctx(prog, prop, limit=400 if tier == 'thorough' else 240)
    cx.tier = tier
    for f in PROPS[prop]:
        try:
            f(cx)
        except Exception as ex:
            # a rule that cannot cope with the code decides nothing
            cx.obs.append((f.__name__, 'undecided', None, 'the rule applies to this code', f'{type(ex).__name__}: {str(ex)[:200]}', 0.0))
    k = known(prop)
    rep = dict(property=prop, obligations=[])
    viol = found = 0
    n = dict(ok=0, violation=0, undecided=0)
    lines = []
    for key, st, where, rule, detail, wall in cx.obs:
        n[st] += 1
        rep['obligations'].append(dict(obligation=key, verdict=st, rule=rule, construct=where, detail=detail, wall_s=round(wall, 2)))
        if st == 'violation':
            if key in k:
                lines.append(f'KNOWN-FINDING: property={prop} {k[key]}')
                found += 1
            else:
                viol += 1
                lines.append(f'  {key}: {rule}\n    at {where}\n    {detail}')
        elif st == 'undecided':
            lines.append(f'  undecided {key}: {detail[:300]}')
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    rp = os.path.join(V, 'evidence', prop + '.report.json')
    with open(rp, 'w') as f:
        json.dump(rep, f, indent=1)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level='other', wall_s=round(time.time() - t0, 2), violations=viol,
              coverage=dict(
                  explanation=SCRIPTS if not need else 'static analysis of the typed syntax trees of the current tree; every obligation below is decided for all inputs from the value-flow normal forms of the listed functions, with callees inlined',
                  obligations=len(cx.obs), discharged=n['ok'], undecided=n['undecided'], known_findings=found,
                  functions_analysed=sorted(cx.analysed), loops_summarised=cx.loops, call_sites=cx.callsites, events=sum(len(r.events) for r in cx.cache.values() if hasattr(r, 'events')),
                  rules=[dict(obligation=o['obligation'], verdict=o['verdict'], rule=o['rule'], decided_by=o['detail'][:300]) for o in rep['obligations']]),
              assumptions=ASSUME)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop}: {len(cx.obs)} obligations, {n["ok"]} discharged, {n["undecided"]} undecided, {n["violation"]} violated, {len(cx.analysed)} entry points analysed, {time.time() - t0:.1f}s')
    for l in lines:
        print(l)
    if viol:
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    return 0


SCRIPTS = 'static analysis of the syntax trees of the current scripts; every obligation below is decided on all paths through the loops of the listed functions, with helpers inlined'
ASSUME = ['library models in engine/models.py describe std, rayon, serde_json, rand and the other dependencies',
          'integers do not overflow and casts between index types do not truncate',
          'rustc builds the trees it compiles (THIR) correctly']

if __name__ == '__main__':
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    rc = [2]

    def go():
        import dump
        try:
            rc[0] = main(sys.argv[1], 'thorough' if tier == 'thorough' else 'quick')
        except dump.BuildError as ex:
            print('the tree does not build:\n' + str(ex))
            rc[0] = 2
    # signals need the main thread: run there when the stack allows, python frames live on the heap
    go()
    sys.exit(rc[0])
