#!/usr/bin/env python3
"""Decide one property:  check.py <property id> [quick|thorough]

Runs the analyses registered for the property on /repo's current sources, writes
evidence/<id>.json, prints KNOWN-FINDING / VIOLATION lines, exits 0 / 1 (2: the
analysis itself could not be carried out)."""
import sys, os, json, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import registry


def main():
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else None) or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t0 = time.time()
    reg = registry.CHECKS[prop]
    from report import Report
    total = Report(); parts = []
    for comp in reg['components']:
        t = time.time()
        r = registry.COMPONENTS[comp](tier, prop)
        parts.append({'analysis': comp, 'what': registry.DESCRIBE[comp], 'counts': dict(r.count), 'undecided': len(r.unsup),
                      'undecided_examples': [str(u)[:300] for u in r.unsup[:8]], 'wall_s': round(time.time() - t, 2)})
        total.merge(r)
        if r.count.get('obligations', 0) and len(r.unsup) > 0.95 * r.count['obligations']:
            raise SystemExit('%s: the analysis could not follow the sources (first reason: %s)' % (comp, r.unsup[0]))
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get('findings', []) if k.get('property') == prop]
    mine = [(k, where, msg) for (p, k, where), msg in sorted(total.viol.items(), key=str) if p == prop]
    viol, kn = [], []
    for k, where, msg in mine:
        hit = [f for f in known if f['kind'] == k and f['where'] == where]
        (kn if hit else viol).append({'rule': k, 'construct': where, 'message': msg})
    out = os.path.join(HERE, 'evidence')
    os.makedirs(out, exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {'explanation': reg['explanation'], 'analyses': parts,
                       'undecided': len(total.unsup), 'known_findings': kn},
          'assumptions': reg.get('assumptions', registry.ASSUME), 'wall_s': round(time.time() - t0, 2),
          'violations': [{'description': '%(rule)s at %(construct)s: %(message)s' % v} for v in viol] }
    registry.fit_schema(ev)
    with open(os.path.join(out, prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for p in parts: print('%s: %s%s' % (p['analysis'], ', '.join('%s %s' % (v, k) for k, v in sorted(p['counts'].items())), '; undecided: %d' % p['undecided'] if p['undecided'] else ''))
    for v in kn: print('KNOWN-FINDING: property=%s %s at %s: %s' % (prop, v['rule'], v['construct'], v['message']))
    if viol:
        rp = os.path.join(out, prop + '.violation.txt')
        with open(rp, 'w') as f:
            for v in viol: f.write('%s\n  construct: %s\n  %s\n' % (v['rule'], v['construct'], v['message']))
        for v in viol[:20]: print('  %s: %s: %s' % (v['construct'], v['rule'], v['message']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('property %s: nothing found on what was analysed (%.1f s)' % (prop, time.time() - t0))
    return 0


if __name__ == '__main__':
    try: sys.exit(main())
    except SystemExit as e:
        if isinstance(e.code, str): print(e.code, file=sys.stderr); sys.exit(2)
        raise
    except BaseException:
        traceback.print_exc(); sys.exit(2)
