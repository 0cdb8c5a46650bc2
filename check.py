#!/usr/bin/env python3
"""check.py ID: decides one property for the current tree of /repo. See DESIGN.md."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import base
import cachecheck, speccheck, querycheck, witcheck

PARTS = {}
for p in cachecheck.PROPS:
    PARTS.setdefault(p, []).append(cachecheck.check)
for p in speccheck.PROPS:
    PARTS.setdefault(p, []).append(speccheck.check)
for p in querycheck.RULES:
    PARTS.setdefault(p, []).insert(0, querycheck.check)
for p in witcheck.WHAT:
    PARTS.setdefault(p, []).insert(0, witcheck.check)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = base.Ctx(prop, tier, seed)
    code = 0
    try:
        try:
            base.build_tools()
            for part in PARTS[prop]:
                part(c)
                if any(not c.known('%s @ %s' % (v['msg'], v['loc'])) for v in c.violations):
                    break   # a later part could only add to what is already reported
        except base.Undecided as e:
            c.failed.append(str(e))
        except Exception:
            c.failed.append(traceback.format_exc())
        fresh = []
        for v in c.violations:
            text = '%s @ %s' % (v['msg'], v['loc'])
            if c.known(text):
                print('KNOWN-FINDING: property=%s %s' % (prop, text))
            else:
                fresh.append(v)
        if fresh:
            code = 1
            d = os.path.join(base.VERIF, '.cache', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, prop + '.txt')
            with open(path, 'w') as f:
                for v in fresh:
                    f.write('%s\n  at %s\n' % (v['msg'], v['loc']))
                    for l in v['detail']:
                        f.write('    %s\n' % l)
            for v in fresh[:10]:
                print('%s: %s\n    at %s' % (prop, v['msg'], v['loc']))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        elif c.failed or c.undecided and tier == 'thorough':
            # a quick run reports what it can show; what it cannot decide it lists (below and in the evidence)
            code = 2
        for u in c.failed[:10]:
            print('NO ANSWER: %s' % u)
        for u in c.undecided[:10]:
            print('UNDECIDED: %s' % u)
        for n in c.notes[:20]:
            print('NOTE: %s' % n)
        cov = dict(c.cov)
        cov['samples'] = c.samples[:8]
        ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other', 'coverage': cov,
              'assumptions': c.assumptions, 'wall_s': round(time.time() - c.t0, 2), 'violations': len(fresh)}
        if c.failed:
            cov['no_answer'] = c.failed[:10]
        cov['undecided_count'] = len(c.undecided)
        if c.undecided:
            cov['undecided'] = c.undecided[:10]
        if c.notes:
            cov['notes'] = c.notes[:20]
        os.makedirs(os.path.join(base.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(base.VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if code == 0:
            print('%s holds on everything %s (%.1f s)' % (prop, 'decided' if c.undecided else 'analysed', time.time() - c.t0))
    finally:
        c.clean()
    sys.exit(code)


main()
