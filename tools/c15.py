"""C15: a generated client, run by the interpreter of C#, follows the log of the server."""
import glob, json, multiprocessing, os, shutil, subprocess, sys, time, traceback
import vlib, client, csinterp
from csinterp import N, Obj, Ref, CsArr, CsEx, Unsupported, CompileError

CASES = {'quick': 6000, 'thorough': 30000}
MAX_STEPS = 30_000_000


class Diverged(Exception):
    pass


class Client:
    def __init__(self, sources, schema):
        self.w = csinterp.World(sources)
        self.w.limit = 1 << 62
        self.s = schema
        self.types = {}
        self.reader_t = self.w.inst(self.w.by_name[('Steit.Codec', 'ByteReader', 0)])
        self.factory = self.w.inst(self.w.by_name[('Steit.State', 'StateFactory', 0)])
        self.replayer = self.w.inst(self.w.by_name[('Steit.State', 'StateReplayer', 0)])

    def rt(self, t):
        """Runtime type."""
        r = self.types.get(t)
        if r is None:
            n, args = t[0], t[1]
            if n in client.CS_PRIM:
                r = self.w.nat(client.CS_PRIM[n])
            else:
                ns = {'Vec': ('Steit.Collections', 'Vector'), 'Arr': ('Steit.Collections', 'Vector'), 'List': ('Steit.Collections', 'StateList'),
                      'Map': ('Steit.Collections', 'StateMap'), 'Bytes': ('Steit.Builtins', 'Bytes'), 'Maybe': ('Steit.Builtins', 'Maybe'),
                      'Option': ('Steit.Builtins', 'Option')}.get(n)
                if ns is None:
                    ns = (client.NS, client.zoo.cs_name(self.s.z.types[n]))
                if n == 'Map':
                    args = args[1:]
                d = self.w.by_name.get(ns + (len(args),))
                if d is None:
                    raise CompileError('there is no class %s.%s with %d type arguments' % (ns + (len(args),)))
                r = self.w.inst(d, tuple(self.rt(a) for a in args))
            self.types[t] = r
        return r

    def reader(self, data):
        b = CsArr(self.w.nat('Byte'), [N('Byte', x) for x in data])
        return self.w.construct(self.reader_t, [(None, None, b)])

    def deserialize(self, t, data):
        self.w.steps = 0
        self.w.limit = MAX_STEPS
        return self.w.invoke(self.factory, None, 'Deserialize', [(None, None, self.reader(data)), (None, None, None)], (self.rt(t),))

    def replay(self, t, root, data):
        self.w.steps = 0
        cell = [root]

        def put(v):
            cell[0] = v
        self.w.invoke(self.replayer, None, 'Replay', [(None, 'ref', Ref(lambda: cell[0], put)), (None, None, self.reader(data))], (self.rt(t),))
        return cell[0]

    # ------------------------------------------------------------ comparison

    def same(self, t, u, x, v, hidden, at):
        """Whether the client's object `x` of type `t` holds the server's value `v` of type `u`, which may have more fields."""
        n = t[0]
        if n in client.CS_PRIM:
            if n == 'bool':
                if x is not v:
                    self.differ(at, x, v)
            elif n == 'String':
                if (x or '') != v:
                    self.differ(at, x, v)
            elif not isinstance(x, N) or x.v != v or x.k != client.CS_PRIM[n]:
                self.differ(at, x, v)
            return 1
        if not isinstance(x, Obj):
            self.differ(at, x, v)
        k = 1
        if n == 'Bytes':
            if [b.v for b in self.w.iterate(x)] != v:
                self.differ(at, [b.v for b in self.w.iterate(x)], v)
        elif n in ('Vec', 'Arr', 'List'):
            items = list(self.w.iterate(x))
            if len(items) != len(v):
                self.differ(at, '%d items' % len(items), '%d items' % len(v))
            for i, (a, b) in enumerate(zip(items, v)):
                k += self.same(t[1][0], u[1][0], a, b, hidden, at + (i,))
        elif n == 'Map':
            items = {p.get('Key').v: p.get('Value') for p in self.w.iterate(x)}
            if sorted(items) != sorted(e[0] for e in v['m']):
                self.differ(at, 'keys %s' % sorted(items), 'keys %s' % [e[0] for e in v['m']])
            for key, b in v['m']:
                k += self.same(t[1][1], u[1][1], items[key], b, hidden, at + (key,))
        elif n == 'Option':
            some = self.w.get(x, 'IsSome')
            if some is not bool(v['o']) or self.w.get(x, 'IsNone') is some:
                self.differ(at, 'IsSome %s' % some, 'Some' if v['o'] else 'None')
            for b in v['o']:
                k += self.same(t[1][0], u[1][0], self.w.get(x, 'ValueOrDefault'), b, hidden, at + ('?',))
        else:
            kind, parts = self.s.body(t)
            _, sparts = self.s.body(u)
            if kind == 'E':
                j, xs = v['e']
                tag = self.w.get(x, 'Tag')
                if tag.v != sparts[j][1]:
                    self.differ(at, 'variant %d' % tag.v, 'variant %d' % sparts[j][1])
                name, _, fields = next(p for p in parts if p[1] == tag.v)
                var = self.w.get(x, 'Variant')
                if self.w.get(x, name + 'Variant') is not var or not isinstance(var, Obj):
                    self.differ(at + (name,), '%sVariant is %r' % (name, self.w.get(x, name + 'Variant')), 'the variant')
                for p in parts:
                    if p[1] != tag.v and self.w.get(x, p[0] + 'Variant') is not None:
                        self.differ(at + (p[0],), '%sVariant is set' % p[0], 'null')
                x, sfields, v, at = var, sparts[j][2], xs, at + (name,)
            else:
                fields, sfields = parts, sparts
            by_tag = {f[1]: (f, b) for f, b in zip(sfields, v)}
            for name, tag, ft, no_state in fields:
                if tag not in by_tag:
                    continue  # Only the older client has it.
                sf, b = by_tag[tag]
                if no_state and not hidden:
                    continue
                k += self.same(ft, sf[2], self.w.get(x, name), b, hidden, at + (name,))
        return k

    def differ(self, at, x, v):
        raise Diverged('at %s the client holds %s and the server %s' % ('/'.join(map(str, at)) or 'the root', str(x)[:200], str(v)[:200]))


def play(cl, t, u, ep, stats):
    """One history; a message if the client diverges."""
    what = 'reading the snapshot %s' % ep['snapshot'][:400]
    values = 0
    try:
        root = cl.deserialize(t, bytes.fromhex(ep['snapshot']))
        what = 'after the snapshot %s' % ep['snapshot'][:400]
        values += cl.same(t, u, root, ep['start'], True, ())
        # A client which lags behind replays the entries of several steps at once.
        lag = ep['case'] % 3 == 0
        if lag:
            late, pending, waits = cl.deserialize(t, bytes.fromhex(ep['snapshot'])), [], 0
        for i, s in enumerate(ep['steps']):
            entries = [bytes.fromhex(e) for e in s['entries']]
            what = 'replaying step %d, %s: %s' % (i, s['op'], s['entries'])
            if len(entries) > 1 and i % 2:
                entries = [b''.join(entries)]
            for e in entries:
                root = cl.replay(t, root, e)
                stats['entries'] += 1
            what = 'after step %d, %s: %s' % (i, s['op'], s['entries'])
            values += cl.same(t, u, root, s['value'], False, ())
            stats['comparisons'] += 1
            if lag:
                pending += s['entries']
                if waits == 0 or s is ep['steps'][-1]:
                    what = 'replaying the entries of some steps up to step %d at once: %s' % (i, pending)
                    late = cl.replay(t, late, bytes.fromhex(''.join(pending)))
                    values += cl.same(t, u, late, s['value'], False, ())
                    stats['batches'] += 1
                    waits, pending = (ep['case'] // 3 + i) % 7, []
                else:
                    waits -= 1
    except Diverged as e:
        return '%s, %s' % (what, e)
    except CsEx as e:
        return '%s, the client throws %s' % (what, describe(cl.w, e))
    except CompileError as e:
        return '%s, the client does not compile: %s' % (what, e)
    except RecursionError:
        return '%s, the client recurses without end' % what
    except Unsupported as e:
        if 'too many steps' in str(e):
            return '%s, the client does not end' % what
        raise
    stats['values'] += values
    return None


def describe(w, e):
    try:
        return '%s: %s' % (e.obj.rt, w.get(e.obj, 'Message'))
    except Exception:
        return repr(e)


def worker(a):
    binary, zseed, seed, tier, lo, hi, gdir = a
    sys.setrecursionlimit(30000)
    try:
        schema = client.Schema(zseed, tier)
        sources = client.library() + [(os.path.basename(f), open(f).read()) for f in sorted(glob.glob(gdir + '/*.cs'))]
        cl = Client(sources, schema)
        older = {}
        for x, y in schema.evo:
            older.setdefault(y, []).append(x)
        stats = dict(episodes=0, entries=0, batches=0, comparisons=0, values=0, evolved=0, panics=0, distinct=set(), samples=[])
        p = subprocess.run([binary, 'episodes', str(seed), tier, str(lo), str(hi)], stdout=subprocess.PIPE, env=vlib.env(), timeout=600)
        if p.returncode != 0:
            return dict(broken='episodes: exit %d' % p.returncode)
        for line in p.stdout.decode().splitlines():
            ep = json.loads(line)
            if 'panic' in ep:
                stats['panics'] += 1
                continue
            u = client.parse(ep['type'])
            for t in [ep['type']] + older.get(ep['type'], []):
                msg = play(cl, client.parse(t), u, ep, stats)
                if msg:
                    return dict(failure=dict(case=ep['case'], message='%s%s: %s' % (
                        ep['type'], ' followed by a client of ' + t if t != ep['type'] else '', msg), episode=ep))
                stats['episodes'] += 1
                stats['evolved'] += t != ep['type']
                if len(ep['steps']) and any(s['entries'] for s in ep['steps']):
                    stats['distinct'].add(hash((t, line)))
            if len(stats['samples']) < 2:
                stats['samples'].append('%s: snapshot of %d bytes, %d steps, the last %s' % (
                    ep['type'], len(ep['snapshot']) // 2, len(ep['steps']), ep['steps'][-1]['op']))
        return dict(stats=stats)
    except (Unsupported, csinterp.csparse.ParseError) as e:
        return dict(broken='the interpreter of C# cannot run this: %s' % e)
    except Exception:
        return dict(broken=traceback.format_exc()[-3000:])


def probe(run, gdir, schema):
    """F26: a String as a type argument of a message is not read."""
    sources = client.library() + [(os.path.basename(f), open(f).read()) for f in sorted(glob.glob(gdir + '/*.cs'))]
    cl = Client(sources, schema)
    x = cl.deserialize(client.parse('CPGen<String>'), b'\x02\x02ab')
    if cl.w.get(x, 'First') != 'ab':
        run.finding('F26', 'CPGen<String> { first: "ab" } is read as %r' % cl.w.get(x, 'First'))


def one(run, zseed, seed, cases, first, worker=worker):
    binary = client.build(zseed, run.tier)
    gdir = os.path.join(vlib.BUILD, 'classes-%d' % os.getpid())
    os.makedirs(gdir, exist_ok=True)
    try:
        schema = client.Schema(zseed, run.tier)
        sv = client.Server(binary)
        roots = list(dict.fromkeys(schema.roots + [x for e in schema.evo for x in e] + ['CPGen<u8>']))
        for r in roots:
            kind, got = sv.generate(gdir, r)
            if kind != 'ok':
                run.violation('no client is generated for %s: %s' % (r, got), dict(root=r, zoo_seed=zseed))
                return
        sv.close()
        run.count('classes generated', len(glob.glob(gdir + '/*.cs')))
        if first:
            try:
                probe(run, gdir, schema)
            except (CsEx, CompileError):
                run.finding('F26', 'CPGen<String> cannot be read')
            except (Unsupported, csinterp.csparse.ParseError) as e:
                raise vlib.Harness('the interpreter of C# cannot run this: %s' % e)
        per = 60
        jobs = [(binary, zseed, seed, run.tier, i, min(i + per, cases), gdir) for i in range(0, cases, per)]
        distinct = set()
        fails, broken = [], []
        with multiprocessing.Pool(8) as pool:
            for r in pool.imap_unordered(worker, jobs):
                if 'broken' in r:
                    broken.append(r['broken'])
                    break
                if 'failure' in r:
                    fails.append(r['failure'])
                    # Work under way may hold an earlier one; that does not matter.
                    break
                s = r['stats']
                distinct |= s.pop('distinct')
                run.samples += s.pop('samples')[:1]
                run.evaluations += s.get('comparisons', s['entries']) + s['episodes']
                for k, n in s.items():
                    run.count(k, n)
                if not run.thorough and time.time() - run.begin > 620:
                    # The machine is busy; what has been played must do.
                    run.count('stopped for lack of time')
                    break
            pool.terminate()
        run.distinct += len(distinct)
        if fails:
            f = fails[0]
            run.violation('case %d: %s' % (f['case'], f['message']), dict(zoo_seed=zseed, case_seed=seed, case=f['case'], episode=f['episode']))
        elif broken:
            raise vlib.Harness(broken[0])
    finally:
        shutil.rmtree(gdir, ignore_errors=True)


def check(run):
    run.rule = ('a random history on a random state whose classes were generated, replayed entry by entry by the shipped client library under an '
                'interpreter of C#; all synchronised fields compared after each step, also by clients of older schemas; distinct: client type and history, at least one entry')
    run.assumptions = ['the interpreter of C# (tools/csinterp.py) runs the generated and shipped sources as .NET would',
                       'null and the empty string are the same string', 'schemas are those of the generated zoo']
    if run.thorough:
        for k in range(4):
            if run.violations:
                break
            one(run, run.seed * 1000 + k, run.seed * 1000 + k, CASES[run.tier], k == 0)
            run.count('zoos')
    else:
        one(run, run.seed, run.seed, CASES[run.tier], True)


def replay(r, worker=worker):
    """Plays the case of a replay file again, on /repo's present tree."""
    if 'case' not in r:
        print(r['message'])
        return 0
    run = vlib.Run(r['property'], r['tier'], r['seed'])
    binary = client.build(r['zoo_seed'], r['tier'])
    gdir = os.path.join(vlib.BUILD, 'classes-%d' % os.getpid())
    os.makedirs(gdir, exist_ok=True)
    try:
        schema, sv = client.Schema(r['zoo_seed'], r['tier']), client.Server(binary)
        for root in dict.fromkeys(schema.roots + [x for e in schema.evo for x in e]):
            sv.generate(gdir, root)
        sv.close()
        got = worker((binary, r['zoo_seed'], r['case_seed'], r['tier'], r['case'], r['case'] + 1, gdir))
    finally:
        shutil.rmtree(gdir, ignore_errors=True)
    if 'broken' in got:
        raise vlib.Harness(got['broken'])
    if 'failure' in got:
        print(got['failure']['message'])
        return 1
    return 0
