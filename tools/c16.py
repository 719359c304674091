"""C16: what the generator of clients writes, judged against the schemas it is given."""
import multiprocessing, os, random, re, shutil, sys, traceback
import vlib, client, csinterp, csparse, zoo
from csinterp import N, Obj, CsEx, Unsupported, CompileError

LIBRARY = ['Steit.Builtins', 'Steit.Codec', 'Steit.Collections', 'Steit.State', 'Steit.State.Event']
CONFIGS = {'quick': 14, 'thorough': 60}
LOG_ENTRY = {  # The schema of the log, by hand: variant, tag, fields.
    'Update': (0, [('FlattenPath', 0, 'Vector<UInt32>'), ('Value', 1, 'Bytes')]),
    'ListPush': (8, [('FlattenPath', 0, 'Vector<UInt32>'), ('Item', 1, 'Bytes')]),
    'ListPop': (9, [('FlattenPath', 0, 'Vector<UInt32>')]),
    'MapRemove': (12, [('FlattenPath', 0, 'Vector<UInt32>'), ('Key', 1, 'UInt32')])}


def show(t):
    """A type of the syntax tree."""
    if t is None:       # `X<>`
        return ''
    if t[0] == 'TT':
        return '(%s)' % ', '.join(show(x) for x, _ in t[1])
    _, parts, rank, nullable = t
    return '.'.join(n + ('<%s>' % ', '.join(show(x) for x in a) if a else '') for n, a in parts) + '[]' * rank + ('?' if nullable else '')


class Wrong(Exception):
    pass


class Judge:
    """The schemas, and what follows from them."""
    def __init__(self, zseed, tier):
        self.s = client.Schema(zseed, tier)
        self.z = self.s.z

    def messages(self, t, seen=None):
        """Names (Rust, C#, built in) of all messages reachable from a type."""
        seen = seen if seen is not None else set()
        out = set()
        todo = [t]
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            todo += t[1]
            b = self.s.body(t)
            if t[0] == 'LogEntry':
                out.add(('LogEntry', 'LogEntry', True))
                todo.append(('Bytes', ()))
            elif t[0] == 'Maybe':
                out.add(('Maybe', 'Maybe', True))
            elif b is not None:
                d = self.z.types[t[0]]
                out.add((d.name, zoo.cs_name(d), False))
                for fs in [b[1]] if b[0] == 'S' else [v[2] for v in b[1]]:
                    todo += [f[2] for f in fs]
        return out

    def expect(self, d):
        """What the class of a definition must declare: (generics, fields) or (generics, [(variant, tag, fields)]), with C# types."""
        def fields(b):
            return [(zoo.cs_field(b, i), f.tag, self.s.cs(client.parse(f.ty))) for i, f in enumerate(b.fields)]
        if isinstance(d, zoo.S):
            return 'S', d.generics, fields(d.body)
        return 'E', d.generics, [(zoo.cs_name(v), v.tag, fields(v.body)) for v in d.variants]


def eq(what, got, want):
    if got != want:
        raise Wrong('%s: %s rather than %s' % (what, got, want))


def member(c, kind, name):
    ms = [m for m in c.members if m.kind in kind.split('|') and m.name == name]
    if len(ms) != 1:
        raise Wrong('%s declares %d members %s' % (c.full(), len(ms), name))
    return ms[0]


def check_fields(c, self_type, fields):
    props = {m.name: show(m.type) for m in c.members if m.kind == 'prop'}
    eq('properties of ' + c.full(), props, dict([('Path', 'Path')] + [(n, t) for n, _, t in fields]))
    for m in c.members:
        if m.kind == 'prop' and not ('public' in m.mods and 'static' not in m.mods):
            raise Wrong('%s.%s is not public' % (c.full(), m.name))
    events = {m.name: show(m.type) for m in c.members if m.kind == 'event'}
    eq('events of ' + c.full(), events, {'On%sUpdate' % n: 'EventHandler<FieldUpdateEventArgs<%s, %s>>' % (t, self_type) for n, _, t in fields})
    for n, _, _ in fields:
        member(c, 'method', 'Clear%sUpdateHandlers' % n)
    member(c, 'method', 'ClearUpdateHandlers')


def declared(text, name):
    """The only class of a file."""
    u = csparse.parse(text, name)
    if len(u.types) != 1:
        raise Wrong('%s declares %d types' % (name, len(u.types)))
    return u.types[0]


def check_class(c, ns, using, cs, kind, generics, parts):
    """The declarations of a class against the schema."""
    eq('name', c.name, cs)
    eq('namespace of ' + cs, c.ns, ns)
    eq('type parameters of ' + cs, list(c.tparams), list(generics))
    for u in ['System'] + LIBRARY + list(using):
        if u not in c.usings:
            raise Wrong('%s does not import %s' % (cs, u))
    if not {'public', 'sealed', 'partial'} <= set(c.mods) or c.kind != 'class':
        raise Wrong('%s is %s %s' % (cs, c.mods, c.kind))
    self_type = cs + ('<%s>' % ', '.join(generics) if generics else '')
    if kind == 'S':
        eq('bases of ' + cs, [show(b) for b in c.bases], ['IState'])
        eq('nested classes of ' + cs, [n.name for n in c.nested], [])
        check_fields(c, self_type, parts)
        return
    eq('bases of ' + cs, [show(b) for b in c.bases], ['IEnumState'])
    consts = {m.name: m.init for m in c.members if m.kind == 'field' and 'const' in m.mods}
    eq('constants of ' + cs, sorted(consts), sorted(cap(v[0]) + 'Tag' for v in parts))
    props = {m.name: show(m.type) for m in c.members if m.kind == 'prop'}
    eq('properties of ' + cs, props, dict([('Path', 'Path'), ('Tag', 'UInt32'), ('Variant', 'IState')] + [(v[0] + 'Variant', v[0]) for v in parts]))
    eq('nested classes of ' + cs, sorted(n.name for n in c.nested), sorted(v[0] for v in parts))
    eq('events of ' + cs, {m.name: show(m.type) for m in c.members if m.kind == 'event'},
       {'OnUpdate': 'EventHandler<VariantUpdateEventArgs<%s>>' % self_type})
    for v in parts:
        n = next(n for n in c.nested if n.name == v[0])
        eq('bases of %s.%s' % (cs, v[0]), [show(b) for b in n.bases], ['IState'])
        member(c, 'method', 'New' + cap(v[0]))
        check_fields(n, v[0], v[2])


def cap(s):
    return ''.join(w[:1].upper() + w[1:] for w in s.split('_'))


def compile_all(w, c, rt, known):
    """Compiles everything in a class, so that every type it names is looked up."""
    n = 0
    for m in c.members:
        static_new = m.kind == 'method' and 'static' in m.mods and m.name.startswith('New') and m.type is not None
        try:
            tps = {t: w.nat('Byte') for t in m.tparams or []}
            for t in [m.type] + [p.type for p in m.params or []]:
                if t is not None:
                    w.resolve(t, rt, tps)
                    n += 1
            for key in [None] if m.kind not in ('prop', 'indexer') else ['get', 'set']:
                body = m.body if key is None else (m.get if key == 'get' else m.set)
                if body and body != 'auto':
                    w.body(rt, m, key)
                    n += 1
        except CompileError as e:
            # F27: the static constructors of a generic enum leave out all type arguments.
            if static_new and c.outer is None and c.tparams and show(m.type) == c.name:
                known.append('%s: %s' % (c.full(), e))
                continue
            raise
    for b in c.bases:
        w.resolve(b, rt)
    for x in c.nested:
        n += compile_all(w, x, w.inst(x, rt.args), known)
    return n


def behaviour(w, j, t, rt, path):
    """An instance: wire types and addresses of its fields, default variant and variants on demand."""
    kind, parts = j.s.body(t)
    addr = [N('UInt32', x) for x in path]
    p = mkpath(w, path)
    x = w.construct(rt, [(None, None, p)])
    eq('%s: path' % client.show(t), path_of(w, x), list(path))
    n = 1
    if kind == 'S':
        n += fields(w, j, t, x, parts, path)
    else:
        default = next(q for q in parts if q[1] == 0)
        eq('%s: default tag' % client.show(t), w.get(x, 'Tag').v, default[1])
        tags = [q[1] for q in parts]
        for name, tag, fs in parts:
            eq('%s.%sTag' % (client.show(t), cap(name)), w.get_static(rt, cap(name) + 'Tag').v, tag)
            v = w.construct(rt, [(None, None, mkpath(w, path)), (None, None, N('UInt32', tag))])
            if not rt.d.tparams:
                v2 = w.invoke(rt, None, 'New' + cap(name), [(None, None, mkpath(w, path))])
                eq('tag made by New%s' % name, w.get(v2, 'Tag').v, tag)
                eq('variant made by New%s' % name, w.get(v2, 'Variant').rt.d.name, name)
            eq('tag of variant %s' % name, w.get(v, 'Tag').v, tag)
            var = w.get(v, 'Variant')
            eq('class of variant %s' % name, var.rt.d.name, name)
            eq('path of variant %s' % name, path_of(w, var), list(path) + [tag])
            for other in parts:
                eq('%sVariant of variant %s' % (other[0], name), w.get(v, other[0] + 'Variant') is var, other[1] == tag)
            for k in tags + [max(tags) + 1]:
                wt = wire(w, v, k)
                eq('%s: wire type of variant %d' % (client.show(t), k), wt, 2 if k in tags else None)
                nested = w.invoke(rt, v, 'GetNested', [(None, None, N('UInt32', k))])
                eq('%s: nested %d' % (client.show(t), k), nested is var, k == tag)
            n += 3 + fields(w, j, t, var, fs, list(path) + [tag])
    return n


def mkpath(w, path):
    p = w.get_static(w.inst(w.by_name[('Steit.State', 'Path', 0)]), 'Root')
    for k in path:
        p = w.invoke(p.rt, p, 'GetNested', [(None, None, N('UInt32', k))])
    return p


def path_of(w, x):
    p, out = w.get(x, 'Path'), []
    while w.get(p, 'Parent') is not None:
        out.append(w.get(p, 'Tag').v)
        p = w.get(p, 'Parent')
    return out[::-1]


def wire(w, x, tag):
    r = w.invoke(x.rt, x, 'GetWireType', [(None, None, N('UInt32', tag))])
    return None if r is None else r.v


VARINT = {'Byte', 'UInt16', 'UInt32', 'UInt64', 'SByte', 'Int16', 'Int32', 'Int64', 'Boolean'}


def fields(w, j, t, x, fs, path):
    n = 0
    at = client.show(t)
    tags = [f[1] for f in fs]
    for name, tag, ft, no_state in fs:
        cs = j.s.cs(ft)
        eq('%s.%s: wire type of %d' % (at, name, tag), wire(w, x, tag), 0 if cs in VARINT else 2)
        nested = w.invoke(x.rt, x, 'GetNested', [(None, None, N('UInt32', tag))])
        v = w.get(x, name)
        if cs in VARINT or cs == 'String':
            eq('%s.%s: nested %d' % (at, name, tag), nested, None)
        else:
            if not isinstance(v, Obj) or nested is not v:
                raise Wrong('%s.%s: nested %d is %r and not the field, %r' % (at, name, tag, nested, v))
            eq('%s.%s: path' % (at, name), path_of(w, v), list(path) + [tag])
        n += 2
    for k in range(max(tags + [0]) + 2 if max(tags + [0]) < 100 else 3):
        if k not in tags:
            eq('%s: wire type of %d, which no field has' % (at, k), wire(w, x, k), None)
    return n


# ---------------------------------------------------------------- runs of the generator

def snapshot(d):
    return {f: open(os.path.join(d, f), 'rb').read() for f in sorted(os.listdir(d))}


def worker(a):
    binary, zseed, seed, tier, roots, d = a
    sys.setrecursionlimit(20000)
    os.makedirs(d, exist_ok=True)
    try:
        return dict(run_roots(binary, zseed, seed, tier, roots, d))
    except Exception:
        return dict(broken=traceback.format_exc()[-3000:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_roots(binary, zseed, seed, tier, roots, d):
    j = Judge(zseed, tier)
    svs = [client.Server(binary), client.Server(binary)]
    files = {}
    st = dict(runs=0, files=0, faults=0, distinct=set(), bytes=0)

    def fresh(name):
        p = os.path.join(d, name)
        shutil.rmtree(p, ignore_errors=True)
        os.makedirs(p)
        return p

    def fail(root, conf, msg):
        return dict(failure=dict(root=root, config=conf, message='%s %s: %s' % (root, conf, msg)))
    for root in roots:
        r = random.Random('%s %d' % (root, seed))
        msgs = j.messages(client.parse(root))
        plain = None
        for k in range(CONFIGS[tier]):
            if k == 0:
                conf = dict(ns=client.NS, using=[], skip=[], flags=[])
            else:
                names = sorted({x for m in msgs for x in m[:2]})
                conf = dict(ns=r.choice([client.NS, 'A', 'My.Game.State', 'Steit.Builtins', 'X_1.Y2']),
                            using=r.sample(['Zeta', 'Alpha.Beta', 'Some.Thing', 'Steit.State.Other', 'System.Linq'], r.randrange(4)),
                            skip=r.sample(names, r.randrange(min(4, len(names)) + 1)) + r.choice([[], ['Nothing']]),
                            flags=r.choice([[], ['builtins'], ['no-builtins'], ['builtins', 'no-builtins']]) + r.choice([[], ['rust'], ['csharp'], ['rust', 'csharp']]))
                r.shuffle(conf['skip'])
            builtins = 'builtins' in conf['flags'] and 'no-builtins' not in conf['flags']
            rust = 'rust' in conf['flags'] and 'csharp' not in conf['flags']
            want = {(m[0] if rust else m[1]): m for m in msgs if builtins or not m[2]}
            want = {n: m for n, m in want.items() if n not in conf['skip']}
            seen = []
            for i, sv in enumerate(svs):
                out = fresh('out')
                other = {}
                if k % 3 == 1:
                    # Left over from before: longer files of the same names, and others.
                    for n in list(want)[:3]:
                        open(os.path.join(out, n + '.cs'), 'wb').write(b'// old\n' * 20000)
                    other = {'Unrelated.cs': b'// keep\n', 'note.txt': b'keep'}
                    for f, b in other.items():
                        open(os.path.join(out, f), 'wb').write(b)
                got = sv.generate(out, root, **conf)
                st['runs'] += 1
                if got[0] != 'ok':
                    return fail(root, conf, '%s %s' % got)
                if sorted(got[1]) != sorted(want):
                    return fail(root, conf, 'returns %s rather than %s' % (sorted(got[1]), sorted(want)))
                snap = snapshot(out)
                for f, b in other.items():
                    if f[:-3] not in want and snap.pop(f, None) != b:
                        return fail(root, conf, 'touched %s' % f)
                if sorted(snap) != sorted(n + '.cs' for n in want):
                    return fail(root, conf, 'wrote %s rather than %s' % (sorted(snap), sorted(n + '.cs' for n in want)))
                seen.append(snap)
            if seen[0] != seen[1]:
                bad = [f for f in seen[0] if seen[0][f] != seen[1][f]]
                return fail(root, conf, 'two runs write different bytes to %s' % bad)
            st['distinct'].add(hash((root, str(conf))))
            st['files'] += len(want)
            for n, m in want.items():
                text = seen[0][n + '.cs'].decode()
                st['bytes'] += len(text)
                key = (m[1], conf['ns'], tuple(sorted(conf['using'])))
                if files.setdefault(key, text) != text:
                    return fail(root, conf, '%s differs from what another root gives' % n)
                try:
                    c = declared(text, n)
                    eq('namespace of ' + n, c.ns, conf['ns'])
                    eq('name of ' + n, c.name, m[1])
                    for u in ['System'] + LIBRARY + conf['using']:
                        if u not in c.usings:
                            raise Wrong('%s does not import %s' % (n, u))
                    extra = set(c.usings) - set(['System'] + LIBRARY + conf['using'])
                    if extra:
                        raise Wrong('%s imports %s' % (n, sorted(extra)))
                except (Wrong, csparse.ParseError) as e:
                    return fail(root, conf, str(e))
                body = text[text.index('{'):]
                if files.setdefault((m[1],), body) != body:
                    return fail(root, conf, 'the settings change more than the opening of %s' % n)
        # Faults: a full disk, no directory, a directory in the way.
        if msgs and not all(m[2] for m in msgs):
            n = r.choice(sorted(m[1] for m in msgs if not m[2]))
            for fault in ('full', 'missing', 'directory'):
                out = fresh('out')
                if fault == 'full':
                    os.symlink('/dev/full', os.path.join(out, n + '.cs'))
                elif fault == 'directory':
                    os.mkdir(os.path.join(out, n + '.cs'))
                else:
                    out = os.path.join(out, 'not', 'there')
                got = svs[0].generate(out, root)
                st['faults'] += 1
                if got[0] != 'error':
                    return fail(root, fault, '%s cannot be written, and generating says %s %s' % (n, *got))
    for sv in svs:
        sv.close()
    return dict(stats=st, classes={k[0]: v for k, v in files.items() if len(k) == 3 and k[1] == client.NS and not k[2]})


def one(run, zseed, seed):
    binary = client.build(zseed, run.tier)
    j = Judge(zseed, run.tier)
    roots = list(dict.fromkeys(j.s.roots + [x for e in j.s.evo for x in e] + zoo.CLIENT_PLAIN))
    base = os.path.join(vlib.BUILD, 'c16-%d' % os.getpid())
    jobs = [(binary, zseed, seed, run.tier, roots[i::24], os.path.join(base, str(i))) for i in range(24)]
    classes, distinct = {}, set()
    with multiprocessing.Pool(8) as pool:
        for got in pool.imap(worker, jobs):
            if 'broken' in got:
                raise vlib.Harness(got['broken'])
            if 'failure' in got:
                f = got['failure']
                run.violation(f.pop('message'), dict(zoo_seed=zseed, **f))
                pool.terminate()
                shutil.rmtree(base, ignore_errors=True)
                return
            s = got['stats']
            distinct |= s.pop('distinct')
            for k, n in s.items():
                run.count(k, n)
            run.evaluations += s['runs'] + s['faults']
            for k, text in got['classes'].items():
                if classes.setdefault(k, text) != text:
                    run.violation('%s differs from what another root gives' % k, dict(zoo_seed=zseed))
                    return
    shutil.rmtree(base, ignore_errors=True)
    run.distinct += len(distinct)
    judge_classes(run, j, zseed, classes)


def judge_classes(run, j, zseed, classes):
    by_cs = {zoo.cs_name(d): d for d in j.z.types.values()}
    at = ''
    try:
        for cs, text in sorted(classes.items()):
            at = cs
            if cs in ('Maybe', 'LogEntry'):
                continue
            kind, generics, parts = j.expect(by_cs[cs])
            check_class(declared(text, cs), client.NS, [], cs, kind, generics, parts)
            run.count('classes compared with the schema')
            run.evaluations += 1
        for cs, kind, generics, parts in (
                ('Maybe', 'E', ['T'], [('None', 0, []), ('Some', 1, [('Value', 0, 'T')])]),
                ('LogEntry', 'E', [], [(n, t, fs) for n, (t, fs) in LOG_ENTRY.items()])):
            if cs in classes:
                at = cs
                check_class(declared(classes[cs], cs), client.NS, [], cs, kind, generics, parts)
                run.evaluations += 1
        w = csinterp.World(client.library() + [(k + '.cs', v) for k, v in classes.items() if k not in ('Maybe', 'LogEntry')])
        w.limit = 1 << 62
        known = []
        for cs, text in sorted(classes.items()):
            at = cs
            if cs in ('Maybe', 'LogEntry'):
                continue
            c = w.by_name[(client.NS, cs, len(j.expect(by_cs[cs])[1]))]
            run.count('declarations and bodies resolved', compile_all(w, c, w.inst(c, tuple(w.nat('Byte') for _ in c.tparams)), known))
        for c in list(w.all):
            if c.ns.startswith('Steit') and c.outer is None and c.file != 'prelude':
                at = c.full()
                compile_all(w, c, w.inst(c, tuple(w.nat('Byte') for _ in c.tparams)), known)
        if known:
            run.finding('F27', known[0])
        types = set()
        for root in j.s.roots + [x for e in j.s.evo for x in e]:
            todo = [client.parse(root)]
            while todo:
                t = todo.pop()
                if t in types:
                    continue
                types.add(t)
                todo += t[1]
                b = j.s.body(t)
                if b:
                    for fs in [b[1]] if b[0] == 'S' else [v[2] for v in b[1]]:
                        todo += [f[2] for f in fs]
        import c15
        cl = c15.Client.__new__(c15.Client)
        cl.w, cl.s, cl.types = w, j.s, {}
        for t in sorted(types, key=str):
            at = client.show(t)
            if j.s.body(t) is None or t[0] == 'CPGen' and t[1] == (('String', ()),):
                continue
            for path in ((), (3, 70000)):
                run.evaluations += behaviour(w, j, t, cl.rt(t), path)
                run.count('instances observed')
    except (Wrong, csparse.ParseError, CompileError) as e:
        run.violation('%s: %s' % (at, e), dict(zoo_seed=zseed, of=at, text=classes.get(at)))
    except CsEx as e:
        run.violation('%s: throws %s' % (at, c15.describe(w, e)), dict(zoo_seed=zseed, of=at, text=classes.get(at)))
    except Unsupported as e:
        raise vlib.Harness('%s: the interpreter of C# cannot run this: %s' % (at, e))


def check(run):
    run.rule = ('the generator run for a root type with some settings, twice, in separate processes; names, files and bytes compared with the messages '
                'reachable in the model of the schemas; each class parsed, compared with the schema, its names resolved and its instances questioned; '
                'distinct: root and settings')
    run.assumptions = ['the parser and interpreter of C# (tools/csparse.py, tools/csinterp.py) read the sources as a compiler would',
                       'messages have distinct names']
    for k in range(3 if run.thorough else 1):
        if run.violations:
            break
        z = run.seed * 1000 + k if run.thorough else run.seed
        one(run, z, z)
        run.count('zoos')
