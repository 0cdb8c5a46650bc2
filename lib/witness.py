"""Method B: programs that must, or must not, type-check against the crate (never run).

Every witness is a small program. `//~` marks the one line that must be rejected; the same program with that line replaced by
its twin (the text after `//~ twin:`; by nothing if there is none) must be accepted, which shows that nothing else is wrong with it."""
import json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import base

# The kinds of rejections that count, by what the witness claims.
CODES = {
    # not nameable or not accessible: privacy, unknown item, field or method, no constructor, trait not implemented
    'access': {'E0616', 'E0603', 'E0624', 'E0451', 'E0423', 'E0425', 'E0433', 'E0432', 'E0412', 'E0405', 'E0609', 'E0610', 'E0599', 'E0560', 'E0532', 'E0277', 'E0308', 'E0614', 'E0369', 'E0605', 'E0604', 'E0606', 'E0607', 'E0107', 'E0061', 'E0618', 'E0740', 'E0639', 'E0026', 'E0027'},
    # not implemented for these types
    'bound': {'E0277', 'E0599', 'E0271', 'E0276', 'E0195', 'E0053', 'E0310'},
    # borrow checker
    'borrow': {'E0499', 'E0502', 'E0505', 'E0506', 'E0597', 'E0521', 'E0515', 'E0716', 'E0503', 'E0382', 'E0594', 'E0596', 'E0507', 'E0621', None},
    'type': {'E0308', 'E0271', 'E0277', 'E0631', 'E0053', 'E0599'},
}


def build(c, cfg):
    """Type-checks the crate; returns its metadata file and the directory of its dependencies."""
    f, _, rel = cfg.partition('+')
    target = os.path.join(c.tmp, 'w-' + cfg)
    if not os.path.exists(os.path.join(base.REPO, 'Cargo.lock')) and os.path.exists('/opt/vp/Cargo.lock'):
        shutil.copy('/opt/vp/Cargo.lock', os.path.join(base.REPO, 'Cargo.lock'))
    env = dict(os.environ, CARGO_TERM_COLOR='never')
    env.pop('RUSTFLAGS', None)
    r = subprocess.run(['cargo', '+nightly', 'check', '--lib', '--offline', '--message-format=json', '--manifest-path', os.path.join(base.REPO, 'Cargo.toml'), '--target-dir', target]
                       + base.FEATURES[f] + (['--release'] if rel else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
    meta, dirs = None, set()
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-artifact':
            dirs.update(os.path.dirname(x) for x in m['filenames'])
        if m.get('reason') == 'compiler-artifact' and m['target']['name'] == 'daab':
            meta = [x for x in m['filenames'] if x.endswith('.rmeta')]
    if r.returncode != 0 or not meta:
        raise base.Undecided('configuration %s of the crate does not type-check:\n%s' % (cfg, r.stderr[-2000:]))
    return meta[0], sorted(dirs)


def rustc(c, src, name, meta, deps):
    p = os.path.join(c.tmp, 'wit', name + '.rs')
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        f.write(src)
    r = subprocess.run(['rustc', '+nightly', '--edition', '2018', '--crate-type', 'lib', '--crate-name', 'w', '--emit', 'metadata=' + p + '.out', '--error-format=json', '-Awarnings', '-Zwrite-long-types-to-disk=no',
                        '--extern', 'daab=' + meta] + [y for x in deps for y in ('-L', 'dependency=' + x)] + [p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=os.path.dirname(p))
    errs = []
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('level') == 'error' and m['message'] and not m['message'].startswith('aborting'):
            lines = {n for s in m['spans'] if s['is_primary'] for n in range(s['line_start'], s['line_end'] + 1)}
            errs.append(((m.get('code') or {}).get('code'), lines, m['message']))
    for x in (p, p + '.out'):
        if os.path.exists(x):
            os.remove(x)
    return r.returncode, errs


def parse(text, prelude):
    """Yields (name, kind, configs, anchor, source, twin source, marked line)."""
    for part in re.split(r'^=== ', text, flags=re.M)[1:]:
        head, _, body = part.partition('\n')
        name, kind, cfgs, anchor = [x.strip() for x in head.split('|')]
        src = (prelude + '\n' + body).splitlines()
        mark = None
        twin = []
        for i, l in enumerate(src):
            m = re.search(r'^(.*?)//~(?: twin:(.*))?$', l)
            if m:
                mark = i + 1
                twin.append(m.group(2) or '')
                src[i] = m.group(1)
            else:
                twin.append(l)
        yield name, kind, cfgs.split(), anchor, '\n'.join(src) + '\n', '\n'.join(twin) + '\n', mark


def run(c, text, prelude, what):
    tasks = []
    cfgs = []
    ws = list(parse(text, prelude))
    for w in ws:
        for x in w[2]:
            if x not in cfgs:
                cfgs.append(x)
    with ThreadPoolExecutor(8) as ex:
        built = dict(zip(cfgs, ex.map(lambda x: build(c, x), cfgs)))
        for w in ws:
            for x in w[2]:
                tasks.append((w, x))

        def one(t):
            (name, kind, _, anchor, src, twin, mark), cfg = t
            n = re.sub(r'\W+', '-', name + '-' + cfg)
            if kind == 'ok':
                return t, rustc(c, src, n, *built[cfg]), None
            return t, rustc(c, src, n, *built[cfg]), rustc(c, twin, n + '-twin', *built[cfg])
        acc = rej = 0
        seen = set()
        for ((name, kind, _, anchor, src, twin, mark), cfg), (rc, errs), tw in ex.map(one, tasks):
            if kind == 'ok':
                if rc != 0:
                    if name not in seen:
                        seen.add(name)
                        soft = any(e[0] in ('E0463', 'E0460', 'E0514') for e in errs) or all(e[0] in ('E0432', 'E0433', 'E0412', 'E0425', 'E0405') for e in errs)
                        m = 'a program that must type-check is rejected: %s: %s' % (name, '; '.join('%s %s' % (e[0], e[2].splitlines()[0]) for e in errs[:3]))
                        if soft:
                            c.undecided.append(m)
                        else:
                            c.violation(m, anchor, ['configuration: ' + cfg, 'witness program:'] + src.splitlines())
                else:
                    acc += 1
                continue
            if tw[0] != 0:
                c.undecided.append('the accepted twin of %s is rejected in configuration %s: %s' % (name, cfg, '; '.join('%s %s' % (e[0], e[2].splitlines()[0]) for e in tw[1][:2])))
                continue
            if rc == 0:
                if name not in seen:
                    seen.add(name)
                    c.violation('a program that must not type-check is accepted: ' + name, anchor, ['configuration: ' + cfg, 'witness program (line %d must be rejected):' % (mark or 0)] + src.splitlines())
                continue
            off = [e for e in errs if mark is not None and mark not in e[1]]
            bad = [e for e in errs if e[0] not in set().union(*(CODES[k] for k in kind.split('+')))]
            if bad or (off and len(off) == len(errs)):
                c.undecided.append('%s is rejected for another reason in configuration %s: %s' % (name, cfg, '; '.join('%s %s' % (e[0], e[2].splitlines()[0]) for e in (bad or off)[:2])))
            else:
                rej += 1
    c.cov.setdefault('explanation', '')
    c.cov['explanation'] += 'Programs type-checked against the crate as a dependency: %s. ' % what
    c.cov.update({'witness_programs': len(ws), 'witness_configurations': cfgs, 'witnesses_rejected_as_they_must': rej, 'witnesses_accepted_as_they_must': acc})
    c.samples.extend(w[0] for w in ws[:3])
