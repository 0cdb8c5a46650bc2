"""Method A: abstract interpretation of the operations of Cache and Resolver (analyzer/engine)."""
import re, subprocess, time
import base

PROPS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C15', 'C16', 'C22', 'C24', 'C25', 'C28', 'C30']

# Operations that must be found in each configuration.
OPS = ['cache::Cache::' + n for n in '''new clear_all clear_artifacts dyn_state dyn_state_mut garbage_collection get get_cloned get_dyn_state get_ref
invalidate is_builder_known lookup lookup_cloned lookup_ref number_of_known_builders purge'''.split()] + \
      ['cache::Resolver::' + n for n in 'my_state resolve resolve_cloned resolve_ref'.split()]
OPS_MUT = ['cache::Cache::get_mut', 'cache::Cache::lookup_mut']

HIST = 'histories of two builders'


def heavy(name):
    return bool(re.search(r'Cache::(get|lookup)_mut.*target another builder \(in no cycle\), w1 may.*w2 may', name))


def middling(name):
    return bool(re.search(r'Cache::(get|lookup)_mut.*target another builder', name))


def check(c):
    thorough = c.tier == 'thorough'
    configs = ['plain', 'plain+release', 'diag', 'diag+release', 'tynm', 'tynm+release', 'all', 'all+release']
    if not thorough:
        configs = ['all', 'plain', 'plain+release', 'all+release']
    files = dict(zip(configs, c.dump(configs)))
    tasks = []
    for cfg, f in files.items():
        ls = base.sh([base.ENGINE, f, 'list']).stdout.splitlines()
        ops = set()
        for l in ls:
            fn, op, i, name = l.split('\t')
            ops.add(fn)
            full = '%s [%s]' % (fn, name)
            if not thorough and (heavy(full) or cfg == 'all+release' and middling(full)) or heavy(full) and cfg != 'all':
                continue
            tasks.append(((cfg, full), [base.ENGINE, f, 'task', fn, i, c.prop, '20000000' if thorough else '4000000']))
        tasks.append(((cfg, HIST), [base.ENGINE, f, 'hist', c.prop, '3000' if thorough else '400', '200000' if thorough else '20000']))
        missing = [o for o in OPS + (OPS_MUT if cfg.startswith('all') else []) if o not in ops]
        if missing:
            raise base.Undecided('operations not found in configuration %s: %s' % (cfg, ', '.join(missing)))

    def mine(o):
        return any(c.prop == f['prop'] and not f['undecided'] and f['confirmed'] and not c.known('%s @ %s' % (f['msg'], f['loc'])) for f in o['findings'])
    budget = 720 if not thorough else 6 * 3600
    res = base.run_tasks(tasks, c.t0 + budget, heavy=lambda t: heavy(t[0][1]), stop=mine)
    obl = states = exits = panics = blocks = 0
    fns, calls, unmod = set(), {}, {}
    found = {}
    skipped = []
    hist = {}
    for (cfg, name), o in sorted(res.items()):
        if o is None:
            skipped.append('%s %s' % (cfg, name))
            continue
        if isinstance(o, str):
            c.failed.append('%s %s: %s' % (cfg, name, o))
            continue
        if name == HIST:
            hist[cfg] = {k: o[k] for k in ('states', 'steps', 'complete', 'extra', 'notes')}
            obl += o['obligations'].get(c.prop, 0)
            states += o['machine']
            c.notes.extend('%s: histories: %s' % (cfg, x) for x in o['notes'])
            for f in o['findings']:
                if f['prop'] == c.prop:
                    found[f['msg'], f['loc']] = ('v', cfg, f)
            continue
        obl += o['obligations'].get(c.prop, 0)
        states += o['states']
        exits += o['exits']
        panics += o['panics']
        blocks = max(blocks, o['blocks'])
        fns.update(o['functions'])
        for k, v in o['calls'].items():
            calls[k] = calls.get(k, 0) + v
        for k, v in o['unmodelled'].items():
            unmod[k] = unmod.get(k, 0) + v
        for f in o['findings']:
            if f['prop'] == '*':
                c.undecided.append('%s %s: %s' % (cfg, name, f['msg']))
            elif c.prop == f['prop']:
                k = (f['msg'], f['loc'])
                if f['undecided'] or not f['confirmed']:
                    found.setdefault(k, ('u', '%s: %s @ %s (%s)' % (cfg, f['msg'], f['loc'], f['undecided'] or 'not confirmed'), f))
                else:
                    if k not in found or found[k][0] == 'u':
                        found[k] = ('v', cfg, f)
    for (msg, loc), (kind, x, f) in sorted(found.items()):
        if kind == 'v':
            c.violation(msg, loc, ['configuration: ' + x, 'operation: ' + f['entry']] + f['trace'])
        else:
            c.undecided.append(x)
    if skipped and not c.violations:
        hv = [s for s in skipped if heavy(s)]
        c.notes.append('not completed in time: ' + '; '.join(skipped))
        if len(hv) != len(skipped):
            c.undecided.append('not completed in time: ' + '; '.join(s for s in skipped if s not in hv)[:500])
    if obl == 0:
        c.failed.append('no obligation of this property was met')
    c.cov.update({
        'explanation': 'Abstract interpretation of the MIR of every public operation of Cache and Resolver, from every state satisfying the '
                       'bookkeeping invariant, for two arbitrary witness builders and any others; obligations of the property are evaluated on '
                       'every abstract path (see DESIGN.md, method A).',
        'configurations': configs, 'operations_and_scenarios': len(tasks), 'scenarios_completed': len(tasks) - len(skipped),
        'obligations': obl, 'abstract_states': states, 'paths_to_return': exits, 'paths_to_panic': panics,
        'functions_analysed': len(fns), 'call_sites': len(calls), 'unmodelled': unmod,
        'histories': hist,
    })
    c.samples.extend(sorted('%s: %s' % k for k in res)[:: max(1, len(res) // 6)][:6])
    c.assumptions.extend([
        'User implementations of Can, Clone, Debug, Hash and Promise behave as their contracts say; builders do not resolve themselves.',
        'The models of std collections and smart pointers in analyzer/engine/src/models.rs.',
    ])
