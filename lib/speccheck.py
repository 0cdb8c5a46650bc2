"""Method A for single functions: every outcome of a function is compared with its specification (engine/src/spec.rs)."""
import subprocess
from concurrent.futures import ThreadPoolExecutor
import base, json

# Properties and the configurations they apply to (the diagnostics module exists only with that feature).
PROPS = {'C13': 'plain diag tynm all', 'C15': 'plain all', 'C17': 'diag tynm all', 'C18': 'diag tynm all', 'C19': 'plain diag all', 'C20': 'plain diag all', 'C31': 'diag tynm all'}


def check(c):
    configs = [x + r for x in PROPS[c.prop].split() for r in ('', '+release')]
    files = dict(zip(configs, c.dump(configs)))

    def one(cfg):
        try:
            return cfg, subprocess.run([base.ENGINE, files[cfg], 'spec', c.prop], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            return cfg, None
    obl, outcomes, states, fns, unmod, found = {}, 0, 0, set(), {}, {}
    with ThreadPoolExecutor(8) as ex:
        for cfg, r in ex.map(one, configs):
            try:
                o = json.loads(r.stdout)
            except Exception:
                c.failed.append('%s: engine failed: %s' % (cfg, r.stderr[-400:] if r else 'out of time'))
                continue
            if not o['obligations']:
                c.failed.append('%s: no obligation of this property was met' % cfg)
            for k, v in o['obligations'].items():
                obl[k] = obl.get(k, 0) + v
            outcomes += o['outcomes']
            states += o['states']
            fns.update(o['functions'])
            for k, v in o['unmodelled'].items():
                unmod[k] = unmod.get(k, 0) + v
            for f in o['findings']:
                found.setdefault((f['msg'], f['loc']), []).append((cfg, f['undecided']))
    for (msg, loc), l in sorted(found.items()):
        sure = [cfg for cfg, u in l if not u]
        if sure:
            c.violation(msg, loc, ['configuration: ' + x for x in sure])
        else:
            c.undecided.append('%s: %s @ %s (%s)' % (l[0][0], msg, loc, l[0][1]))
    c.cov.setdefault('explanation', '')
    c.cov['explanation'] += ('All outcomes of each function named by an obligation, on symbolic arguments, by abstract interpretation of its MIR, '
                             'compared with its specification (DESIGN.md, method A). ')
    c.cov.update({'spec_configurations': configs, 'spec_obligations': sum(obl.values()), 'spec_obligation_kinds': len(obl), 'spec_outcomes': outcomes,
                  'spec_abstract_states': states, 'spec_functions': sorted(fns)[:200], 'spec_unmodelled': unmod})
    c.samples.extend(sorted(obl)[::max(1, len(obl) // 4)][:4])
    c.assumptions.append('User implementations of Builder, Can, Clone, Debug, Promise and Write behave as their contracts say; the models of std in analyzer/engine.')
