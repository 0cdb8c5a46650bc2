"""Method C: queries over the type-checked program (items, types, bodies) for C14, C20, C21, C24."""
import re
import base
from items import Dump

CONFIGS = ['plain', 'diag', 'tynm', 'all', 'all+release']
LOCAL_BLUEPRINTS = ('Blueprint', 'BlueprintUnsized', 'BlueprintDyn')


class Q:
    """Type queries over one dump."""
    def __init__(self, c, cfg, file):
        self.c, self.cfg, self.D = c, cfg, Dump(file)
        d = self.D.d
        self.tys = d['tys']
        self.adts = {a['path']: a for a in d['adts']}
        self.impls = d['impls']
        self.fns = d['fns']

    def node(self, t):
        x = self.tys[t]
        if isinstance(x, dict):
            (k, v), = x.items()
            return k, v
        return x, None

    def kids(self, t):
        k, v = self.node(t)
        if k == 'Adt' or k == 'Dyn' or k == 'Closure':
            return list(v[1])
        if k in ('Ref', 'Ptr'):
            return [v[1]]
        if k == 'Tuple':
            return list(v)
        if k == 'Array':
            return [v[0]]
        if k == 'Slice':
            return [v]
        if k == 'Proj':
            return list(v[2])
        return []

    def walk(self, t, seen=None):
        """The type and everything it mentions."""
        seen = set() if seen is None else seen
        if t in seen:
            return seen
        seen.add(t)
        for k in self.kids(t):
            self.walk(k, seen)
        return seen

    def pointee(self, t):
        """What a (smart) pointer points to."""
        k, v = self.node(t)
        while k in ('Ref', 'Ptr') or k == 'Adt' and v[0].split('::')[-1] in ('Box', 'Rc', 'Arc', 'Pin'):
            t = self.kids(t)[0]
            k, v = self.node(t)
        return t

    def cache_parts(self):
        """The cache and the structs it directly consists of."""
        if not hasattr(self, '_parts'):
            self._parts, todo = set(), ['cache::Cache']
            while todo:
                p = todo.pop()
                if p in self._parts or p not in self.adts:
                    continue
                self._parts.add(p)
                todo.extend(self.head(f['ty']) for v in self.adts[p]['variants'] for f in v['fields'])
        return self._parts

    def head(self, t):
        """Path of the outermost nominal type behind references."""
        k, v = self.node(t)
        while k in ('Ref', 'Ptr'):
            t = v[1]
            k, v = self.node(t)
        return v[0] if k == 'Adt' else None

    # Structural values: nested tuples, so that substituted types need no id.
    def tree(self, t, sub=None):
        k, v = self.node(t)
        if k == 'Param':
            return sub[v] if sub and v in sub else ('Param', v)
        r = lambda l: tuple(self.tree(x, sub) for x in l)
        if k == 'Adt':
            return ('Adt', v[0], r(v[1]))
        if k == 'Dyn':
            return ('Dyn', v[0], r(v[1]))
        if k in ('Ref', 'Ptr'):
            return (k, v[0], self.tree(v[1], sub))
        if k == 'Tuple':
            return ('Tuple', '', r(v))
        if k == 'Proj':
            return self.norm(('Proj', v[0] + '::' + v[1], r(v[2])))
        if k == 'Array':
            return ('Array', '', (self.tree(v[0], sub),))
        if k == 'Slice':
            return ('Array', '', (self.tree(v, sub),))
        return (k, str(v))

    def norm(self, p):
        """Resolves a projection through the impls of the crate where the self type is a nominal type of it."""
        tr, _, name = p[1].rpartition('::')
        s = p[2][0]
        if s[0] != 'Adt':
            return p
        for i in self.impls:
            if not i['trait_'] or i['trait_'][0] != tr:
                continue
            it = self.tree(i['self_ty'])
            if it[0] != 'Adt' or it[1] != s[1]:
                continue
            sub = self.match(it, s)
            if sub is None:
                continue
            sub.setdefault('Self', s)
            for n, t in i['assoc_tys']:
                if n == name:
                    r = self.tree(t, sub)
                    return r
        return p

    def match(self, pat, t, sub=None):
        sub = {} if sub is None else sub
        if pat[0] == 'Param':
            if sub.setdefault(pat[1], t) != t:
                return None
            return sub
        if pat[0] != t[0] or len(pat) != len(t):
            return None
        if pat[0] in ('Adt', 'Dyn', 'Tuple', 'Proj', 'Array'):
            if pat[1] != t[1] or len(pat[2]) != len(t[2]):
                return None
            for a, b in zip(pat[2], t[2]):
                if self.match(a, b, sub) is None:
                    return None
            return sub
        if pat[0] in ('Ref', 'Ptr'):
            return self.match(pat[2], t[2], sub) if pat[1] == t[1] else None
        return sub if pat == t else None

    def local(self, t):
        return t[0] == 'Adt' and t[1] in self.adts

    def exposed(self, t, out=None):
        """What code holding a value of the type can reach through std types and exported fields."""
        out = set() if out is None else out
        if t in out:
            return out
        out.add(t)
        if t[0] == 'Adt':
            if t[1] in self.adts:
                a = self.adts[t[1]]
                for f in self.fields(t):
                    if f[1] == 'pub' and a['exported']:
                        self.exposed(f[2], out)
            elif not t[1].endswith('PhantomData'):
                for x in t[2]:
                    self.exposed(x, out)
        elif t[0] in ('Tuple', 'Array'):
            for x in t[2]:
                self.exposed(x, out)
        elif t[0] in ('Ref', 'Ptr'):
            self.exposed(t[2], out)
        return out

    def fields(self, t):
        a = self.adts[t[1]]
        gens = [g for g in a['generics'] if not g.startswith("'")]
        sub = dict(zip(gens, t[2])) if len(gens) == len(t[2]) else {}
        for v in a['variants']:
            for f in v['fields']:
                yield f['name'], f['vis'], self.tree(f['ty'], sub)

    def hidden(self, t, out=None, seen=None):
        """What values of the type hold behind non-exported fields of the crate's types: (content, holder)."""
        out = set() if out is None else out
        seen = set() if seen is None else seen
        if t in seen:
            return out
        seen.add(t)
        if self.local(t):
            for n, vis, ft in self.fields(t):
                if vis != 'pub':
                    for e in self.exposed(ft):
                        out.add((e, t[1], n))
                self.hidden(ft, out, seen)
        elif t[0] in ('Adt', 'Tuple', 'Array'):
            if not (t[0] == 'Adt' and t[1].endswith('PhantomData')):
                for x in t[2]:
                    self.hidden(x, out, seen)
        elif t[0] in ('Ref', 'Ptr'):
            self.hidden(t[2], out, seen)
        return out

    def sig(self, f):
        """Inputs and output, and what generic closures among the inputs get and give."""
        ins = [self.tree(t) for t in f['sig_inputs']]
        o = self.tree(f['sig_output']) if f['sig_output'] is not None else ('Tuple', '', ())
        return ins, o

    def loc(self, f):
        return '%s (%s:%s)' % (f['path'], f['file'], f['line'])

    def name(self, t):
        if t[0] == 'Adt':
            return t[1].split('::')[-1] + ('<%s>' % ', '.join(self.name(x) for x in t[2]) if t[2] else '')
        if t[0] == 'Ref':
            return '&' + ('mut ' if t[1] else '') + self.name(t[2])
        if t[0] == 'Proj':
            return '<%s as %s>' % (self.name(t[2][0]), '::'.join(t[1].split('::')[-2:]))
        if t[0] == 'Dyn':
            return 'dyn ' + t[1][:40]
        if t[0] == 'Tuple':
            return '(%s)' % ', '.join(self.name(x) for x in t[2])
        return str(t[1])

    def calls(self, inst_ix, seen=None):
        """All callees (Callee dict, inst path) reachable through local bodies from a body."""
        seen = set() if seen is None else seen
        if inst_ix in seen:
            return
        seen.add(inst_ix)
        b = self.D.d['insts'][inst_ix]
        for cal, line in callees(b):
            yield cal, b, line
            if cal.get('inst') is not None:
                yield from self.calls(cal['inst'], seen)
        for j in closures(b):
            yield from self.calls(j, seen)


def operands(x):
    """All Const operands and aggregates in a statement or terminator (by structure)."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k == 'Const' and isinstance(v, dict):
                yield v
            yield from operands(v)
    elif isinstance(x, list):
        for v in x:
            yield from operands(v)


def bodies(b):
    yield b
    for p in b['promoted']:
        yield from bodies(p)


def callees(b):
    for bb in bodies(b):
        for bl in bb['blocks']:
            for s in bl['stmts']:
                for k in operands(s['kind']):
                    if isinstance(k['val'], dict) and 'Fn' in k['val']:
                        yield k['val']['Fn'], s['line']
            for k in operands(bl['term']):
                if isinstance(k['val'], dict) and 'Fn' in k['val']:
                    yield k['val']['Fn'], bl['term_span']['line']


def closures(x):
    if isinstance(x, dict):
        for k, v in x.items():
            if k == 'Closure' and isinstance(v, list) and len(v) == 2 and isinstance(v[0], int) and isinstance(v[1], int):
                yield v[0]
            else:
                yield from closures(v)
    elif isinstance(x, list):
        for v in x:
            yield from closures(v)


def exported(f):
    return f['exported'] and not f['trait_default']


def trait_of(f):
    return f['impl_trait'][0] if f['impl_trait'] else None


# ---------------------------------------------------------------------------------------------------------------- C14
def c14(q, viol, count):
    accessors = ('BuilderAccessor', 'CannedAccessor')
    # 1. Exported functions give nothing that the crate's types hide from their holder.
    for f in q.fns:
        if not exported(f):
            continue
        ins, out = q.sig(f)
        given = set()
        hidden = set()
        for t in ins:
            given |= q.exposed(t)
            hidden |= q.hidden(t)
        builderish = {h for h, holder, n in hidden if holder.split('::')[-1] in LOCAL_BLUEPRINTS + accessors + ('BuilderHandle', 'BuilderEntry', 'BuilderArtifact', 'RawCache')
                      and builder_content(q, h, holder, n)}
        count('exported function gives no hidden builder')
        outs = [out] + [x for t in ins if t[0] == 'Ref' and t[1] for x in []]
        for o in outs:
            for e in q.exposed(o):
                if e in builderish and e not in given:
                    viol('an exported function hands out what its blueprint or handle encapsulates: %s' % q.name(e), q.loc(f))
                    break
                if q.local(e) and not q.adts[e[1]]['exported']:
                    viol('an exported function hands out the internal type %s' % q.name(e), q.loc(f))
        # callbacks: closures among the parameters must not be given hidden contents either
        for cal in fn_bounds(f, q):
            for e in q.exposed(cal):
                if e in builderish and e not in given:
                    viol('an exported function passes what its blueprint encapsulates to a callback: %s' % q.name(e), q.loc(f))
        # 2. identities and blueprints come from builders moved in, or from other blueprints
        if any(q.local(e) and e[1].split('::')[-1] == 'BuilderId' for e in q.exposed(out)):
            count('exported function yields only existing identities')
            if not any(holds_id(q, t) for t in ins):
                viol('an exported function makes a builder identity from something else than a blueprint or handle', q.loc(f))
        bps = [e for e in q.exposed(out) if q.local(e) and e[1].split('::')[-1] in LOCAL_BLUEPRINTS]
        if bps:
            count('exported function makes blueprints of builders moved in, or of other blueprints')
            for e in bps:
                if any(has_local(q, t, LOCAL_BLUEPRINTS) or has_local(q, t, ('BuilderArtifact',)) or promise_param(q, f, t) or bin_of_blueprint(q, t) for t in ins):
                    continue
                # what of the inputs can become the builder: owned values that are no canned builder
                bad = [t for t in ins if t[0] != 'Param' and not (q.local(t)) or t[0] == 'Param' and can_param(q, e, t)]
                if bad or not ins:
                    viol('an exported function makes a blueprint from %s, i.e. not from a builder moved in or another blueprint' % ', '.join(q.name(b) for b in bad or ins), q.loc(f))
    # 3. the fields are not exported
    for a in q.adts.values():
        n = a['path'].split('::')[-1]
        if n in LOCAL_BLUEPRINTS + accessors + ('BuilderId', 'BuilderArtifact', 'BuilderHandle', 'Cache', 'Resolver'):
            for v in a['variants']:
                for fl in v['fields']:
                    count('field of an encapsulating type is not exported')
                    if fl['vis'] == 'pub' and not (n == 'BuilderHandle' and fl['name'] in ('id', 'type_name', 'dbg_text')):
                        viol('field `%s` of %s is public' % (fl['name'], a['path']), '%s (%s:%s)' % (a['path'], a['file'], a['line']))
    for n in ('BuilderEntry', 'RawCache'):
        for a in q.adts.values():
            if a['path'].split('::')[-1] == n:
                count('internal type is not exported')
                if a['exported']:
                    viol('internal type %s is exported' % a['path'], '%s (%s:%s)' % (a['path'], a['file'], a['line']))
    # 4. build is called by the cache only
    ok_types = ('Cache', 'Resolver')
    n = 0
    for f in q.fns:
        if not exported(f) or f['inst'] is None:
            continue
        tr = trait_of(f)
        if tr and tr.split('::')[-1] in ('Builder', 'SimpleBuilder'):
            continue
        h = q.head(f['impl_self']) if f['impl_self'] is not None else None
        if h and h.split('::')[-1] in ok_types:
            continue
        count('exported function reaches no build method')
        for cal, b, line in q.calls(f['inst']):
            if cal['trait_'] and cal['trait_'].split('::')[-1] in ('Builder', 'SimpleBuilder') and cal['name'] in ('build', 'init_dyn_state'):
                n += 1
                viol('%s of a builder is called without a cache' % cal['name'], '%s, called at %s:%s' % (q.loc(f), b['file'], line))
                break


def builder_content(q, h, holder, field):
    """Hidden contents that give access to a builder: the builder, its Bin or Can (not identities, text, markers)."""
    if h[0] == 'Adt' and h[1] in q.adts:
        return h[1].split('::')[-1] in ('BuilderAccessor', 'CannedAccessor', 'BuilderEntry', 'RawCache') and False
    if h[0] in ('Prim', 'Tuple', 'Never'):
        return False
    if h[0] == 'Adt' and (h[1].startswith('std::collections') or h[1].endswith('PhantomData') or h[1].endswith('String') or h[1].endswith('RandomState') or h[1].endswith('Global')):
        return False
    last = holder.split('::')[-1]
    if last == 'RawCache':
        return field in ('known_builders',) and h[0] in ('Proj', 'Param')
    return True


def has_local(q, t, names):
    return any(q.local(e) and e[1].split('::')[-1] in names for e in q.exposed(t))


def holds_id(q, t):
    if t[0] in ('Ref',) and t[2][0] == 'Param' or t[0] == 'Param':
        return True   # a generic promise or blueprint-like parameter: its own id() supplies it
    return has_local(q, t, LOCAL_BLUEPRINTS + ('BuilderHandle', 'BuilderId', 'BuilderEntry', 'Cache', 'Resolver'))


def promise_param(q, f, t):
    return any(e[0] == 'Param' and e[1] in ('AP',) for e in q.exposed(t))


def bin_of_blueprint(q, t):
    """`<BuilderArtifact as Can<Blueprint<..>>>::Bin`, a blueprint stored as artifact."""
    return t[0] == 'Proj' and any(x[0] == 'Adt' and x[1].split('::')[-1] in LOCAL_BLUEPRINTS for x in t[2])


def can_param(q, bp, t):
    """Whether the parameter is the blueprint's can (its last type argument)."""
    return bp[1].split('::')[-1] != 'BlueprintDyn' and bp[2] and bp[2][-1] == t or bp[1].split('::')[-1] == 'BlueprintDyn' and len(bp[2]) > 1 and bp[2][1] == t


def fn_bounds(f, q):
    """Argument types of closure parameters, from Fn* bounds (none on record when the function has none)."""
    return [q.tree(t) for t in f.get('callback_args', [])]


# ---------------------------------------------------------------------------------------------------------------- C20
def c20(q, viol, count):
    al = {a['path']: a for a in q.D.d['aliases']}
    feats = q.D.d['features']
    diag = any('diagnostics' in x for x in feats)
    uns = any('unsized' in x for x in feats)
    any_ = "dyn (dyn std::any::Any + 'static)"
    anys = "dyn (dyn std::any::Any + std::marker::Send + std::marker::Sync + 'static)"
    G = ', std::alloc::Global'
    mods = {'rc': (('Rc', any_), ('Rc', any_)), 'arc': (('Arc', anys), ('Arc', anys)), 'boxed': (('Box', any_), ('Rc', any_))}
    never = 'Never'

    def short(s):
        """Crate types by their last segment."""
        s = s.replace(G, '')
        s = re.sub(r'\(dyn [^()]*?Doctor<.*?> \+ \'static\)(?=<)', 'Doctor', s)
        s = re.sub(r'dyn \(dyn std::any::Any( \+ std::marker::Send \+ std::marker::Sync)? \+ \'static\)', lambda m: 'Any+' if m.group(1) else 'Any', s)
        return re.sub(r'\b([a-z_]+::)+(?=[A-Z])', '', s)
    names = {}
    for m, ((ac, aa), (bc, ba)) in mods.items():
        can = lambda c, a: '%s<%s>' % (c, 'Any+' if a == anys else 'Any')
        A, B = can(ac, aa), can(bc, ba)
        doc = 'dyn Doctor<%s, %s>' % (A, B)
        exp = {
            'BinType': (['T'], {}, '%s<T>' % ac), 'CanType': ([], {}, A), 'BuilderBinType': (['T'], {}, '%s<T>' % bc), 'BuilderCan': ([], {}, B),
            'Blueprint': (['B'], {}, 'Blueprint<B, %s>' % B),
            'DynamicBlueprint': (['Artifact', 'Err', 'DynState'], {'Err': never, 'DynState': '()'}, 'BlueprintDyn<%s, %s, Artifact, Err, DynState>' % (A, B)),
            'ConstBuilder': (['T'], {}, 'ConstBuilder<%s, %s, %s<T>, T>' % (A, B, ac)),
            'ConfigurableBuilder': (['T'], {}, 'ConfigurableBuilder<%s, %s, T>' % (A, B)),
            'Resolver': (['T'], {'T': '()'}, 'Resolver<%s, %s, T>' % (A, B)),
            'FunctionalBuilder': (['F', 'T', 'S'], {'T': '()', 'S': '()'}, 'FunctionalBuilder<%s, %s, F, T, S>' % (A, B)),
        }
        if diag:
            exp['Cache'] = (['T'], {'T': doc}, 'Cache<%s, %s, T>' % (A, B))
            exp['CacheOwned'] = ([], {}, 'Cache<%s, %s, NoopDoctor>' % (A, B))
        else:
            exp['Cache'] = ([], {}, None)
            exp['CacheOwned'] = ([], {}, None)
        if uns:
            exp['BlueprintUnsized'] = (['B'], {}, 'BlueprintUnsized<B, %s>' % B)
        got = {p.split('::')[1]: a for p, a in al.items() if p.startswith(m + '::') and p.count('::') == 1 and a['exported']}
        names[m] = set(got) | {t['path'].split('::')[-1] for t in q.D.d['traits'] if t['path'].startswith(m + '::') and t['exported']} \
            | {a['path'].split('::')[-1] for a in q.D.d['adts'] if a['path'].startswith(m + '::') and a['exported']}
        for n, (gens, defs, ty) in exp.items():
            count('alias denotes the generic type with the containers of its module')
            if n not in got:
                if n in names[m]:
                    raise base.Undecided('%s::%s is no alias' % (m, n))
                viol('%s::%s is missing' % (m, n), 'module %s' % m)
                continue
            a = got[n]
            loc = '%s (%s:%s)' % (a['path'], a['file'], a['line'])
            gg = [g for g, _ in a['generics']]
            # the names of the parameters do not matter, their places do
            real = short(q.D.ty(a['ty']))
            for i, (g, w) in enumerate(zip(gg, gens)):
                real = re.sub(r'\b%s\b(?!::|<)' % re.escape(g), '\0%d' % i, real)
            want = ty
            if ty is None:
                h, (A2, B2) = real.split('<')[0], (A, B)
                want = real if real.startswith('Cache<%s, %s' % (A, B)) or real.startswith('%s<%s, %s' % (h, A, B)) else 'Cache<%s, %s>' % (A, B)
            else:
                for i, w in enumerate(gens):
                    want = re.sub(r'\b%s\b(?!::|<)' % re.escape(w), '\0%d' % i, want)
            if len(gg) != len(gens):
                viol('%s has the parameters %s' % (a['path'], ', '.join(gg) or 'none'), loc)
                continue
            if real != want:
                pr = lambda s: re.sub('\0(\\d)', lambda k: gens[int(k.group(1))], s)
                viol('%s denotes %s instead of %s' % (a['path'], pr(real), pr(want)), loc)
            for (g, dt), w in zip(a['generics'], gens):
                dd = short(q.D.ty(dt)) if dt is not None else None
                if dd is not None and w in defs and re.sub(r'<.*', '', dd) != re.sub(r'<.*', '', defs[w]) or (dd is None) != (w not in defs):
                    viol('parameter %s of %s defaults to %s' % (g, a['path'], dd), loc)
                elif dd is not None and dd.startswith('dyn') and defs[w].startswith('dyn') and not dd.endswith(defs[w].replace('dyn Doctor', '')):
                    viol('parameter %s of %s defaults to %s' % (g, a['path'], dd), loc)
    for m in mods:
        count('modules offer the same items')
        for n in sorted(names['rc'] ^ names[m]):
            viol('%s::%s has no counterpart in module %s' % ((m, n, 'rc') if n in names[m] else ('rc', n, m)), 'module %s' % m)
    # associated types of the adaptors
    for i in q.impls:
        if i['trait_'] is None or i['module'] not in mods:
            continue
        tr, args = i['trait_'][0], i['trait_'][1]
        at = {n: short(q.D.ty(t)) for n, t in i['assoc_tys']}
        slf = q.tree(i['self_ty'])
        if slf[0] != 'Param':
            continue
        loc = 'impl of %s in %s (%s:%s)' % (tr, i['module'], i['file'], i['line'])
        m = i['module']
        (ac, aa), (bc, ba) = mods[m]
        if tr == m + '::Builder':
            count('associated types of the adaptor')
            want = {'Artifact': '<%s as SimpleBuilder<>>::Artifact' % slf[1], 'DynState': '()', 'Err': never}
        elif tr == 'Builder':
            count('associated types of the adaptor')
            want = {k: '<%s as Builder<>>::%s' % (slf[1], k) for k in ('Artifact', 'DynState', 'Err')}
            got = [short(q.D.ty(t)) for t in args[1:]]
            exp = ['%s<%s>' % (ac, 'Any+' if aa == anys else 'Any'), '%s<%s>' % (bc, 'Any+' if ba == anys else 'Any')]
            if got != exp:
                viol('adaptor of module %s is for the containers %s' % (m, ', '.join(got)), loc)
        else:
            continue
        for k, w in want.items():
            if at.get(k) != w and not same_assoc(at.get(k), w, k):
                viol('adaptor of module %s has %s = %s instead of %s' % (m, k, at.get(k), w), loc)
        for p in ('Artifact', 'DynState'):
            pass


def same_assoc(a, b, k):
    """Projections are compared by item and trait name."""
    n = lambda s: re.sub(r'<(\w+) as (?:\w+::)*(\w+)<>>::(\w+)', r'\1.\2.\3', s or '')
    return n(a) == n(b)


# ---------------------------------------------------------------------------------------------------------------- C21
INTERIOR = re.compile(r'^(std|core|alloc)::(cell::|sync::(Mutex|RwLock|Once|Lazy|atomic|mpsc|Condvar|Barrier|poison|ReentrantLock|nonpoison)|thread::(LocalKey|local))')
DENY = re.compile(r'^(std|core|alloc)::(env|fs|net|process|thread(?!::panicking)|time|cell|intrinsics|arch|alloc::(?!Global|handle)|sync::(?!Arc|Weak)|ptr::(write|read|swap|replace|copy|drop_in_place|NonNull)|mem::(transmute|zeroed|forget|MaybeUninit|ManuallyDrop)|panic::(set_hook|take_hook|update_hook)|io::(stdin|set_|copy))')
DENY_NAMES = re.compile(r'^(leak|into_raw|from_raw|get_mut_unchecked|downcast_unchecked\w*|set_hook|take_hook)$')


def c21(q, viol, count):
    d = q.D.d
    for s in d['statics']:
        count('statics: immutable, without interior mutability')
        t = q.D.ty(s['ty'])
        if s['mutable'] or not s['freeze'] or s['thread_local'] or any(INTERIOR.match(q.D.ty(x)) for x in q.walk(s['ty'])):
            viol('%s state: %s%s' % ('thread-local' if s['thread_local'] or 'LocalKey' in t else 'global', 'mutable ' if s['mutable'] else '', t), '%s (%s:%s)' % (s['path'], s['file'], s['line']))
    count('crate without statics' if not d['statics'] else 'crate with statics')
    for u in d['unsafes']:
        viol('unsafe code', u)
    count('crate without unsafe code')
    for f in d['fns']:
        if f['unsafe_fn']:
            viol('unsafe function', q.loc(f))
    for a in d['adts']:
        for v in a['variants']:
            for fl in v['fields']:
                count('field without interior mutability')
                for x in q.walk(fl['ty']):
                    k, val = q.node(x)
                    if k == 'Adt' and INTERIOR.match(val[0]):
                        viol('field `%s` of %s has interior mutability: %s' % (fl['name'], a['path'], q.D.ty(fl['ty'])), '%s (%s:%s)' % (a['path'], a['file'], a['line']))
                        break
                    if k == 'Ptr' and val[0]:
                        viol('field `%s` of %s is a mutable pointer' % (fl['name'], a['path']), '%s (%s:%s)' % (a['path'], a['file'], a['line']))
                        break
    # constants of interior mutable type and everything the bodies use
    for b in d['insts']:
        if not b['local']:
            continue
        for bb in bodies(b):
            count('bodies use no shared mutable state')
            for l in bb['locals']:
                for x in q.walk(l['ty']):
                    k, val = q.node(x)
                    if k == 'Adt' and INTERIOR.match(val[0]):
                        viol('use of interior mutability: %s' % q.D.ty(x)[:80], '%s (%s:%s)' % (b['path'], b['file'], b['line']))
                        break
            for st in statics_of(bb):
                if st.split('::')[0] in ('std', 'core', 'alloc'):
                    viol('use of the static %s' % st, '%s (%s:%s)' % (b['path'], b['file'], b['line']))
        for cal, line in callees(b):
            count('calls into std touch no shared state')
            p = cal['path']
            if (DENY.match(p) or DENY_NAMES.match(cal['name']) and not cal['local'] and re.match('(std|core|alloc)::', p)) and not benign(cal):
                viol('call of %s' % p, '%s (%s:%s)' % (b['path'], b['file'], line))


def benign(cal):
    return cal['path'] in ('std::mem::forget',)


def statics_of(x):
    if isinstance(x, dict):
        for k, v in x.items():
            if k == 'Static' and isinstance(v, str):
                yield v
            else:
                yield from statics_of(v)
    elif isinstance(x, list):
        for v in x:
            yield from statics_of(v)


# ---------------------------------------------------------------------------------------------------------------- C24
def c24(q, viol, count):
    for f in q.fns:
        if not exported(f):
            continue
        ins, out = q.sig(f)
        count('exported function hands out no resolver')
        for e in q.exposed(out):
            if q.local(e) and e[1].split('::')[-1] == 'Resolver':
                viol('an exported function hands out a resolver', q.loc(f))
        res = [t for t in ins if any(q.local(e) and e[1].split('::')[-1] == 'Resolver' for e in q.exposed(t))]
        if not res:
            continue
        if trait_of(f) and trait_of(f).split('::')[-1] in ('Builder', 'SimpleBuilder'):
            continue
        count('what an operation of the resolver gives to a builder')
        own = set()
        for t in res:
            for e in q.exposed(t):
                if q.local(e) and e[1].split('::')[-1] == 'Resolver':
                    own.add(e[2][-1])
        for e in q.exposed(out):
            if q.local(e) and e[1].split('::')[-1] in ('Cache', 'RawCache'):
                viol('an operation of the resolver gives access to the whole cache', q.loc(f))
            if e[0] in ('Ref', 'Ptr') and e[1] and e[2] not in own:
                viol('an operation of the resolver gives mutable access to %s' % q.name(e[2]), q.loc(f))
            if e[0] == 'Proj' and e[1].endswith('::DynState'):
                viol("an operation of the resolver gives access to another builder's dynamic state", q.loc(f))
    for i in q.impls:
        if i['trait_'] and q.head(i['self_ty']) and q.head(i['self_ty']).split('::')[-1] == 'Resolver':
            count('traits of the resolver')
            n = i['trait_'][0].split('::')[-1]
            if n in ('Clone', 'Copy', 'Deref', 'DerefMut', 'Default', 'AsRef', 'AsMut', 'Borrow', 'BorrowMut', 'From'):
                viol('the resolver implements %s' % n, 'impl %s for %s (%s:%s)' % (i['trait_'][0], q.D.ty(i['self_ty'])[:60], i['file'], i['line']))


# ---------------------------------------------------------------------------------------------------------------- C26
def c26(q, viol, count):
    insts = q.D.d['insts']
    edges, consts = {}, {}
    for i, b in enumerate(insts):
        if not b['local']:
            continue
        out = set()
        for bb in bodies(b):
            for bl in bb['blocks']:
                for st in bl['stmts']:
                    for k in operands(st['kind']):
                        if isinstance(k['val'], dict) and 'Fn' in k['val'] and k['val']['Fn'].get('inst') is not None:
                            out.add(k['val']['Fn']['inst'])
                for k in operands(bl['term']):
                    if isinstance(k['val'], dict) and 'Fn' in k['val'] and k['val']['Fn'].get('inst') is not None:
                        j = k['val']['Fn']['inst']
                        out.add(j)
                        t = bl['term'].get('Call') if isinstance(bl['term'], dict) else None
                        if t and any('Const' in a and isinstance(a['Const']['val'], dict) and ('Bool' in a['Const']['val'] or 'Int' in a['Const']['val']) for a in t['args']):
                            consts[i, j] = True
                        else:
                            consts.setdefault((i, j), False)
        out.update(closures(b))
        edges[i] = out
        count('functions and closures whose calls are resolved')
        count('calls of known functions') if out else None
    for comp in sccs(edges):
        if len(comp) == 1 and comp[0] not in edges.get(comp[0], ()):
            continue
        b = insts[min(comp)]
        names = ' -> '.join(sorted({insts[i]['path'] for i in comp}))
        loc = '%s (%s:%s)' % (b['path'], b['file'], b['line'])
        if any(consts.get((i, j)) for i in comp for j in edges[i] if j in comp):
            q.c.undecided.append('recursion with a constant argument, which may bound it: %s' % loc)
        else:
            viol('recursion that does not pass through user code: %s' % names, loc)
    # a trait object wrapped into another one of the same trait, again and again, is recursive when it is used or dropped
    for b in insts:
        if not b['local']:
            continue
        for bb in bodies(b):
            nested_objects(q, b, bb, viol, count)
    # dropping a value of a type that owns values of its own type is recursive, too
    owns = {}
    for path, a in q.adts.items():
        count('types whose values do not own values of the same type')
        out, todo = set(), [x['ty'] for v in a['variants'] for x in v['fields']]
        todo = [q.tree(t) for t in todo]
        while todo:
            t = todo.pop()
            if t[0] == 'Adt':
                if t[1] in q.adts:
                    out.add(t[1])
                if not t[1].endswith('PhantomData') and t[1].split('::')[-1] != 'Weak':
                    todo.extend(t[2])
            elif t[0] in ('Tuple', 'Array', 'Slice'):
                todo.extend(x for x in (t[2] if isinstance(t[2], (list, tuple)) else []) if isinstance(x, tuple))
        owns[path] = out
    for comp in sccs(owns):
        if len(comp) == 1 and comp[0] not in owns[comp[0]]:
            continue
        a = q.adts[min(comp)]
        if any(q.adts[x]['has_drop'] for x in comp):
            q.c.undecided.append('a type owning values of the same type, with a Drop of its own: %s' % min(comp))
        else:
            viol('values of %s own values of the same type: dropping them is recursive' % ' and '.join(sorted(comp)), '%s (%s:%s)' % (min(comp), a['file'], a['line']))


def places(x):
    """The locals read in a statement or terminator (by structure)."""
    if isinstance(x, dict):
        if 'local' in x and 'proj' in x:
            yield x['local']
        for v in x.values():
            yield from places(v)
    elif isinstance(x, list):
        for v in x:
            yield from places(v)


def succs(t):
    """The blocks a terminator may go to."""
    if not isinstance(t, dict):
        return []
    (k, v), = t.items()
    if k == 'Goto':
        return [v]
    if k == 'Switch':
        return [w for _, w in v[1]] + [v[2]]
    if k == 'Drop':
        return [v[1]]
    if isinstance(v, dict) and isinstance(v.get('target'), int):
        return [v['target']]
    return [x for x in v if isinstance(x, int)] if isinstance(v, list) else []


def nested_objects(q, b, bb, viol, count):
    flow, casts = {}, []
    for n, bl in enumerate(bb['blocks']):
        for st in bl['stmts']:
            a = st['kind'].get('Assign') if isinstance(st['kind'], dict) else None
            if not a:
                continue
            for l in places(a[1]):
                flow.setdefault(l, set()).add(a[0]['local'])
            c = a[1].get('Cast') if isinstance(a[1], dict) else None
            if c and c[0].startswith('PointerCoercion(Unsize'):
                count('values made trait objects')
                src = next(iter(places(c[1])), None)
                if src is None:
                    continue
                into, inner = q.pointee(c[2]), q.pointee(bb['locals'][src]['ty'])
                if q.node(into)[0] == 'Dyn' and inner != into and into in q.walk(inner):
                    casts.append((n, src, a[0]['local'], st['line']))
        t = bl['term'].get('Call') if isinstance(bl['term'], dict) else None
        if t:
            dest = t.get('dest')
            for l in places(t['args']):
                if dest:
                    flow.setdefault(l, set()).add(dest['local'])
    if not casts:
        return
    cyc = {n for comp in sccs({n: set(succs(bl['term'])) for n, bl in enumerate(bb['blocks'])}) for n in comp
           if len(comp) > 1 or n in set(succs(bb['blocks'][n]['term']))}
    for n, src, dst, line in casts:
        seen, todo = set(), [dst]
        while todo:
            l = todo.pop()
            if l not in seen:
                seen.add(l)
                todo.extend(flow.get(l, ()))
        where = '%s (%s:%s)' % (b['path'], b['file'], line)
        if src in seen and n in cyc:
            viol('a loop wraps a trait object into another one of the same trait: using or dropping it is recursive', where)
        elif 0 in seen:
            q.c.undecided.append('a trait object wrapped into another one of the same trait is returned: %s' % where)


def sccs(edges):
    """Strongly connected components (Tarjan, iterative)."""
    idx, low, on, stack, out, n = {}, {}, set(), [], [], 0
    for root in edges:
        if root in idx:
            continue
        work = [(root, iter(edges[root]))]
        idx[root] = low[root] = n
        n += 1
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in edges:
                    continue
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(edges[w])))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
    return out


# ---------------------------------------------------------------------------------------------------------------- C29
LEAKS = re.compile(r'.*(::mem::forget|ManuallyDrop.*::new|::into_raw|::leak|::increment_strong_count|::into_raw_with_allocator|::into_raw_parts)$')


def c29(q, viol, count):
    cache = [a for a in q.D.d['adts'] if a['path'].split('::')[-1] == 'Cache' and a['exported'] and len(a['generics']) >= 2]
    if not cache:
        q.c.failed.append('the cache type was not found')
        return
    arts = set()

    def holds(t, sub, keyed, loc, seen):
        k, v = q.node(t)
        if k == 'Param':
            s = sub.get(v)
            if isinstance(s, tuple):
                return holds(s[0], s[1], keyed, loc, seen)
            if s == 'builder':
                viol('the cache holds builders strongly', loc)
            elif s == 'artifact':
                arts.add(loc)
                if not keyed:
                    viol('the cache holds artifacts outside of a map by builder', loc)
            return
        if k == 'Adt':
            h = v[0].split('::')[-1]
            if h in ('PhantomData', 'Weak'):
                return
            adt = q.adts.get(v[0])
            if adt is not None:
                if (v[0], t, keyed) in seen:
                    return
                seen = seen | {(v[0], t, keyed)}
                s2 = {p: (a, sub) for p, a in zip(adt['generics'], v[1])}
                for var in adt['variants']:
                    for fl in var['fields']:
                        count('fields of what the cache consists of')
                        holds(fl['ty'], s2, keyed, '%s::%s (%s:%s)' % (adt['path'], fl['name'], adt['file'], adt['line']), seen)
                return
            if h in ('HashMap', 'BTreeMap') and len(v[1]) >= 2 and any(q.node(x)[0] == 'Adt' and q.node(x)[1][0].split('::')[-1] == 'BuilderId' for x in q.walk(v[1][0])):
                holds(v[1][0], sub, False, loc, seen)
                holds(v[1][1], sub, True, loc, seen)
                return
            keyed = keyed and h in ('Option', 'Box', 'Rc', 'Arc')
            for a in v[1]:
                holds(a, sub, keyed, loc, seen)
            return
        if k in ('Proj', 'Dyn', 'FnDef', 'FnPtr', 'Closure'):
            # (the weak form of a can; Doctors)
            if k == 'Proj' and v[1] in ('Bin',):
                for a in v[2]:
                    holds(a, sub, False, loc, seen)
            return
        for a in q.kids(t):
            holds(a, sub, keyed if k != 'Slice' and k != 'Array' else False, loc, seen)

    for a in cache:
        count('types of the cache')
        for var in a['variants']:
            for fl in var['fields']:
                count('fields of what the cache consists of')
                # (by the public interface, the first parameter contains artifacts, the second one builders)
                holds(fl['ty'], dict(zip(a['generics'], ('artifact', 'builder'))), False, '%s::%s (%s:%s)' % (a['path'], fl['name'], a['file'], a['line']), frozenset())
    if len({x.split(' ')[0] for x in arts}) > 1:
        q.c.undecided.append('artifacts are held in several places: %s' % ', '.join(sorted(arts)))
    for b in q.D.d['insts']:
        if not b['local']:
            continue
        for cal, line in callees(b):
            count('calls that do not leak')
            if LEAKS.match(cal['path']) and not cal['local']:
                viol('values are leaked by %s' % cal['path'], '%s (%s:%s)' % (b['path'], b['file'], line))


# ---------------------------------------------------------------------------------------------------------------- C27
COLLECTIONS = ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'Vec', 'VecDeque', 'LinkedList', 'BinaryHeap')
LISTS = ('Vec', 'VecDeque', 'LinkedList')
TRAVERSALS = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'into_keys', 'into_values', 'drain', 'retain', 'retain_mut', 'clone', 'to_vec', 'to_owned', 'shrink_to_fit', 'extract_if'}
SAME = {'deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut', 'borrow', 'borrow_mut'}
USED_UP = {'clear', 'drain', 'take', 'replace', 'swap', 'append', 'truncate', 'split_off'}
WHOLE_OK = ('garbage_collection', 'clear_artifacts', 'clear_all', 'number_of_known_builders')


class Body:
    """Where the values of one body come from, and which of its blocks are in a loop."""
    def __init__(self, q, b):
        self.q, self.b, self.defs = q, b, {}
        succ = {}
        for n, bl in enumerate(b['blocks']):
            for st in bl['stmts']:
                a = st['kind'].get('Assign') if isinstance(st['kind'], dict) else None
                if a and not a[0]['proj']:
                    self.defs.setdefault(a[0]['local'], []).append((n, 'rv', a[1]))
            t = bl['term'].get('Call') if isinstance(bl['term'], dict) else None
            if t and t.get('dest') and not t['dest']['proj']:
                self.defs.setdefault(t['dest']['local'], []).append((n, 'call', t))
            succ[n] = list(succs(bl['term']))
            sw = bl['term'].get('Switch') if isinstance(bl['term'], dict) else None
            if sw:
                v = self.constant(sw[0], bl)
                if v is not None:
                    succ[n] = [dict((x, w) for x, w in sw[1]).get(v, sw[2])]
        self.live, todo = set(), [0]
        while todo:
            n = todo.pop()
            if n not in self.live:
                self.live.add(n)
                todo.extend(succ[n])
        self.comp = {}
        for comp in sccs({n: [w for w in succ[n]] for n in self.live}):
            if len(comp) > 1 or comp[0] in succ[comp[0]]:
                for n in comp:
                    self.comp[n] = frozenset(comp)

    def constant(self, op, bl):
        if 'Const' in op:
            v = op['Const']['val']
            return int(v['Bool']) if isinstance(v, dict) and 'Bool' in v else None
        (_, pl), = op.items()
        for st in reversed(bl['stmts']):
            a = st['kind'].get('Assign') if isinstance(st['kind'], dict) else None
            if a and a[0] == pl:
                return self.constant(a[1]['Use'], bl) if isinstance(a[1], dict) and 'Use' in a[1] else None
        return None

    def coll(self, t):
        k, v = self.q.node(t)
        while k in ('Ref', 'Ptr') or k == 'Adt' and v[0].split('::')[-1] in ('Box', 'Rc', 'Arc'):
            t = self.q.kids(t)[0]
            k, v = self.q.node(t)
        if k == 'Slice':
            return 'Vec'
        n = v[0].split('::')[-1] if k == 'Adt' else None
        return n if n in COLLECTIONS and v[0].startswith(('std::', 'alloc::', 'core::')) else None

    def origin(self, pl, depth=0):
        """('whole', field), ('local', l), ('outer',), ('part',) or None"""
        l, proj = pl['local'], pl['proj']
        fields = [x['Field'] for x in proj if isinstance(x, dict) and 'Field' in x]
        if fields:
            if self.b.get('closure') and l == 1 and len(fields) == 1:
                return ('outer', 'captured')
            if any(isinstance(x, dict) and 'Field' not in x for x in proj) or not self.coll(fields[-1][1]):
                return None
            # the cache, or a struct that is a field of it
            heads = [self.q.head(self.b['locals'][l]['ty'])] + [self.q.head(f[1]) for f in fields[:-1]]
            return ('whole', fields[-1][0]) if heads[-1] in self.q.cache_parts() else None
        if depth > 12:
            return None
        if 0 < l <= self.b['argc']:
            return ('outer', 'parameter')
        ds = self.defs.get(l, [])
        outs = set()
        for n, k, d in ds:
            if k == 'rv' and isinstance(d, dict):
                (kind, v), = d.items()
                if kind in ('Ref', 'RawPtr'):
                    src = v[1]
                elif kind == 'Cast':
                    src = next(iter(v[1].values())) if 'Const' not in v[1] else None
                elif kind == 'Use':
                    src = next(iter(v.values())) if 'Const' not in v else None
                    # (moved: the same collection under another name)
                else:
                    src = None
                if src is None:
                    outs.add(('local', l))
                elif src['local'] != l:
                    o = self.origin(src, depth + 1)
                    outs.add(o if o else ('part',))
            elif k == 'call':
                name = d['func']['Const']['val']['Fn']['name'] if 'Const' in d['func'] and isinstance(d['func']['Const']['val'], dict) and 'Fn' in d['func']['Const']['val'] else ''
                a = d['args'][0] if d['args'] else None
                if name in SAME and a and 'Const' not in a:
                    outs.add(self.origin(next(iter(a.values())), depth + 1) or ('part',))
                elif self.coll(self.b['locals'][l]['ty']) and self.q.node(self.b['locals'][l]['ty'])[0] not in ('Ref', 'Ptr') and name in ('new', 'default', 'with_capacity', 'collect', 'from', 'into_vec', 'box_new', 'from_iter', 'clone', 'take', 'from_elem'):
                    outs.add(('local', l))
                else:
                    outs.add(('part',))
        return outs.pop() if len(outs) == 1 else (('local', l) if ('local', l) in outs else None)


def c27(q, viol, count):
    if not q.cfg.endswith('release'):
        return      # (assertions of debug builds may search)
    insts = q.D.d['insts']
    cache = {}
    todo, seen = [], set()
    for f in q.fns:
        if f['path'].startswith(('cache::Cache::', 'cache::Resolver::')) and exported(f) and f.get('inst') is not None:
            todo.append((f['inst'], False, f['path'].split('::')[-1] not in WHOLE_OK, f['path']))
    while todo:
        i, loop, strict, root = todo.pop()
        if (i, loop, strict) in seen:
            continue
        seen.add((i, loop, strict))
        b = insts[i]
        if not b['local']:
            # (the code of std that calls closures is looked at through these)
            continue
        count('functions and closures reached, in or out of loops')
        B = cache.get(i)
        if B is None:
            B = cache[i] = Body(q, b)
        for n in B.live:
            bl = b['blocks'][n]
            here = loop or n in B.comp
            where = lambda line: '%s (%s:%s)' % (b['path'], b['file'], line)
            t = bl['term'].get('Call') if isinstance(bl['term'], dict) else None
            if not t or 'Const' not in t['func'] or not isinstance(t['func']['Const']['val'], dict) or 'Fn' not in t['func']['Const']['val']:
                continue
            fn = t['func']['Const']['val']['Fn']
            line = bl['term_span']['line']
            if bl.get('cleanup'):
                continue
            # closures given to traversals run in a loop
            per_element = re.search(r'(^|::)(iter|Iterator|IntoIterator|Extend)\b', fn['path']) or fn['name'] in ('retain', 'retain_mut', 'sort_by', 'sort_by_key', 'extract_if', 'map_while')
            for a in t['args']:
                if 'Const' in a:
                    continue
                for cl in made_of(B, next(iter(a.values()))['local']):
                    todo.append((cl, here or bool(per_element), strict, root))
            if fn['local'] and fn.get('inst') is not None:
                todo.append((fn['inst'], here, strict, root))
                continue
            if not t['args'] or 'Const' in t['args'][0]:
                continue
            recv = next(iter(t['args'][0].values()))
            ty = b['locals'][recv['local']]['ty']
            kind = B.coll(ty) if not recv['proj'] else None
            if kind is None:
                continue
            o = B.origin(recv)
            count('operations on collections')
            if o is None:
                continue
            name = fn['name']
            if o[0] == 'whole' and name in TRAVERSALS and (here or strict):
                viol('a whole collection of the cache is traversed (%s)%s' % (name, ' for each of several builders' if here else ''), where(line))
                continue
            if not here:
                continue
            outside = o[0] == 'outer' or o[0] == 'whole' or o[0] == 'local' and n in B.comp and not any(d[0] in B.comp[n] for d in B.defs.get(o[1], []))
            if not outside:
                continue
            if kind in LISTS and name in ('contains', 'retain', 'retain_mut', 'dedup') or name == 'remove' and kind == 'Vec' and len(t['args']) == 2 or name == 'insert' and kind == 'Vec' and len(t['args']) == 3:
                viol('a list is searched or shifted (%s) for each of several builders' % name, where(line))
            elif o[0] == 'local' and name in ('iter', 'iter_mut', 'keys', 'values', 'clone', 'retain', 'into_iter') and q.node(ty)[0] == 'Ref':
                used_up = False
                for m in B.comp[n]:
                    u = b['blocks'][m]['term'].get('Call') if isinstance(b['blocks'][m]['term'], dict) else None
                    if u and 'Const' in u['func'] and isinstance(u['func']['Const']['val'], dict) and 'Fn' in u['func']['Const']['val'] and u['func']['Const']['val']['Fn']['name'] in USED_UP:
                        used_up |= any(B.origin(next(iter(a.values()))) == o for a in u['args'] if 'Const' not in a)
                if not used_up:
                    viol('a collection that grows with the cache is traversed (%s) for each of several builders' % name, where(line))


def made_of(B, l, seen=None):
    """Closures that a local is."""
    seen = set() if seen is None else seen
    if l in seen:
        return
    seen.add(l)
    for _, k, d in B.defs.get(l, []):
        if k == 'rv':
            yield from closures(d)
            if isinstance(d, dict) and 'Use' in d and 'Const' not in d['Use']:
                yield from made_of(B, next(iter(d['Use'].values()))['local'], seen)


RULES = {
    'C14': (c14, 'no exported function, field or trait gives code outside the crate what blueprints, handles and the cache hide; identities and blueprints are made only from builders moved in or from blueprints; build is reached through the cache only'),
    'C20': (c20, 'each alias, expanded by the type checker, is the generic type applied to the containers of its module with each parameter in its place; same items in each module; associated types of the adaptors'),
    'C21': (c21, 'no mutable, interior mutable or thread-local static, no interior mutability in fields or bodies, no unsafe code, no call into process-wide state'),
    'C24': (c24, 'no exported operation of a resolver gives mutable access to anything but its own state, nor the cache, nor another resolver'),
    'C26': (c26, 'no function of the crate calls itself, directly or through others, except through user code'),
    'C27': (c27, 'in release builds, whole collections of the cache are traversed by garbage_collection and the clear functions only, and never per builder; no list is searched or shifted, and no growing collection traversed, per builder'),
    'C29': (c29, 'the fields of the cache mention the container of builders only in its weak form, that of artifacts only in a map by builder; nothing is leaked'),
}


def check(c):
    fn, rule = RULES[c.prop]
    n, fns, bs, cs = {}, 0, 0, 0
    found = {}
    for cfg, file in zip(CONFIGS, c.dump(CONFIGS)):
        q = Q(c, cfg, file)
        fns += len(q.fns)
        bs += sum(1 for b in q.D.d['insts'] if b['local'])

        def viol(msg, loc):
            found.setdefault((msg, loc), []).append(cfg)

        def count(k):
            n[k] = n.get(k, 0) + 1
        fn(q, viol, count)
    for (msg, loc), cfgs in sorted(found.items()):
        c.violation(msg, loc, ['rule: ' + rule, 'configurations: ' + ', '.join(cfgs)])
    if not n:
        c.failed.append('no obligation of this property was met')
    c.cov.setdefault('explanation', '')
    c.cov['explanation'] += 'Queries over the type-checked program: %s. ' % rule
    c.cov.update({'query_configurations': CONFIGS, 'query_obligations': n, 'query_functions': fns, 'query_bodies': bs})
    c.samples.extend('%s: %d' % x for x in sorted(n.items())[:4])
