"""C21: a generated client, run by the interpreter of C#, reports every change once, where it happened."""
import glob, json, multiprocessing, os, shutil, subprocess, sys, traceback
import vlib, client, csinterp, c15
from csinterp import N, Obj, Delegate, CsEx, Unsupported, CompileError
from c15 import Client, Diverged, describe

CASES = {'quick': 1500, 'thorough': 9000}
KINDS = {0: 'update', 8: 'push', 9: 'pop', 12: 'remove'}


# ---------------------------------------------------------------- entries

def varint(b, i):
    v = s = 0
    while True:
        v |= (b[i] & 0x7f) << s
        i += 1
        if b[i - 1] < 0x80:
            return v, i
        s += 7


def entries(b):
    """The framed entries of a log: (bytes with the frame, kind, path, key)."""
    out, i = [], 0
    while i < len(b):
        start = i
        n, i = varint(b, i)
        e, i = b[i:i + n], i + n
        tag, j = varint(e, 0)
        path, key = [], 0
        while j < len(e):
            k, j = varint(e, j)
            if k & 7 == 0:
                v, j = varint(e, j)
                if k >> 3 == 1:
                    key = v
            else:
                n, j = varint(e, j)
                v, j = e[j:j + n], j + n
                if k >> 3 == 0:
                    m = 0
                    while m < len(v):
                        x, m = varint(v, m)
                        path.append(x)
        out.append((b[start:i], KINDS[tag], path, key))
    return out


def enc(n):
    out = bytearray()
    while n > 0x7f:
        out.append(n & 0x7f | 0x80)
        n >>= 7
    out.append(n)
    return bytes(out)


def sized(b):
    return enc(len(b)) + b


def as_variant(wt, t, root, e):
    """The update of an enum as one of its variant: an entry with the same effect, or None."""
    framed, kind, path, _ = e
    if kind != 'update' or not path:
        return None
    found = wt.find(t, root, path)
    if found is None or isinstance(found[0][0], tuple):
        return None
    body = wt.s.body(found[0])
    if body is None or body[0] != 'E':
        return None
    _, i = varint(framed, 0)
    _, i = varint(framed, i)
    value = b''
    while i < len(framed):
        k, i = varint(framed, i)
        n, i = varint(framed, i)
        if k & 7:
            if k >> 3 == 1:
                value = framed[i:i + n]
            i += n
    if not value:
        return None
    tag, i = varint(value, 0)
    if all(p[1] != tag for p in body[1]):
        return None
    out = b'\0\x02' + sized(b''.join(map(enc, path + [tag])))
    if value[i:]:
        out += b'\x0a' + sized(value[i:])
    return sized(out)


# ---------------------------------------------------------------- walking a client's state

class Watch:
    """Hooks the events of a client's state and knows what is where."""
    def __init__(self, cl):
        self.cl, self.w, self.s = cl, cl.w, cl.s
        self.seen, self.static, self.hooked = [], {}, {}
        self.now = lambda: None

    def handler(self, name):
        def f(sender, args):
            self.seen.append((name, sender, args, self.now()))
        return Delegate([f])

    def variant_type(self, t, name):
        rt = self.cl.rt(t)
        for d in rt.d.nested:
            if d.name == name:
                return self.w.inst(d, rt.args)
        raise CompileError('%s has no class %s' % (rt, name), rt)

    def hook_static(self, t, done):
        """The events of all classes that states of type `t` can be made of."""
        if t in done:
            return
        done.add(t)
        body = self.s.body(t)
        if body is None:
            for a in t[1]:
                self.hook_static(a, done)
            return
        kind, parts = body
        classes = [(self.cl.rt(t), parts)] if kind == 'S' else [(self.variant_type(t, n), fs) for n, _, fs in parts]
        if kind == 'E':
            self.hook_class(self.cl.rt(t), 'OnUpdate')
        for rt, fields in classes:
            for name, _, ft, _ in fields:
                self.hook_class(rt, 'On%sUpdate' % name)
                self.hook_static(ft, done)

    def hook_class(self, rt, event):
        self.static.setdefault(rt, [])
        if event not in self.static[rt]:
            self.static[rt].append(event)
        f = self.w.find(rt, event)
        if f is None or f[1][0].kind != 'event':
            raise CompileError('%s has no event %s' % (rt, event), rt)
        self.w.put_static(rt, event, self.handler((rt, event)))

    def parts(self, t, x, hidden):
        """What a state holds: (step, type, value), where steps are those of an address."""
        n = t[0]
        if n in client.CS_PRIM or n == 'Bytes' or x is None:
            return []
        if n in ('Vec', 'Arr', 'List'):
            return [(i, t[1][0], y) for i, y in enumerate(self.w.iterate(x))]
        if n == 'Map':
            return [(p.get('Key').v, t[1][1], p.get('Value')) for p in self.w.iterate(x)]
        if n == 'Option':
            return [(0, t[1][0], self.w.get(x, 'ValueOrDefault'))] if self.w.get(x, 'IsSome') else []
        kind, fields = self.s.body(t)
        return [(f[1], f[2], self.w.get(x, f[0])) for f in fields if hidden or not f[3]]

    def walk(self, t, x, at, out):
        """Checks all paths and hooks the collections; `out` counts."""
        if t[0] in client.CS_PRIM:
            return
        if not isinstance(x, Obj):
            raise Diverged('there is no %s at %s but %r' % (client.show(t), show(at), x))
        self.path(x, at)
        out['paths'] += 1
        body = self.s.body(t)
        if body is not None and body[0] == 'E':
            tag = self.w.get(x, 'Tag').v
            name, _, fields = next(p for p in body[1] if p[1] == tag)
            x, at = self.w.get(x, 'Variant'), at + (tag,)
            self.path(x, at)
            for f in fields:
                self.walk(f[2], self.w.get(x, f[0]), at + (f[1],), out)
            return
        if t[0] in ('List', 'Map'):
            if id(x) not in self.hooked:
                self.hooked[id(x)] = x
                for e in ('OnUpdate', 'OnPush', 'OnPop') if t[0] == 'List' else ('OnUpdate', 'OnInsert', 'OnRemove'):
                    self.w.put(x, e, self.handler((x, e)))
        for step, pt, y in self.parts(t, x, True):
            self.walk(pt, y, at + (step,), out)

    def path(self, x, at):
        p = self.w.text(self.w.get(x, 'Path'))
        if p != ''.join('/%d' % a for a in at):
            raise Diverged('the object at %s says that it is at "%s"' % (show(at), p))

    def find(self, t, x, path):
        """What is at an address: (type, value), where the type of a variant is (enum type, tag); None if nothing is."""
        for step in path:
            if isinstance(t[0], tuple):
                fields = next(p[2] for p in self.s.body(t[0])[1] if p[1] == t[1])
                f = next((f for f in fields if f[1] == step), None)
                if f is None:
                    return None
                t, x = f[2], self.w.get(x, f[0])
            elif t[0] not in ('List', 'Map') and self.s.body(t) is not None and self.s.body(t)[0] == 'E':
                if self.w.get(x, 'Tag').v != step:
                    return None
                t, x = (t, step), self.w.get(x, 'Variant')
            elif t[0] in ('Vec', 'Arr', 'Option'):
                return None
            else:
                p = next((p for p in self.parts(t, x, False) if p[0] == step), None)
                if p is None:
                    return None
                t, x = p[1], p[2]
        return t, x


def show(at):
    return ''.join('/%s' % a for a in at) or 'the root'


# ---------------------------------------------------------------- the oracle

def expected(wt, t, root, entry):
    """The event an entry has to raise on a client's state as it is: None, or a function which checks it."""
    _, kind, path, key = entry
    if kind == 'update' and not path:
        return None
    at = path[:-1] if kind == 'update' else path
    found = wt.find(t, root, at)
    if found is None:
        return None
    ct, c = found
    w = wt.w
    variant = isinstance(ct[0], tuple)
    body = None if variant else wt.s.body(ct)
    if kind == 'update':
        step = path[-1]
        if body is not None and body[0] == 'E':
            if all(p[1] != step for p in body[1]):
                return None
            old = (w.get(c, 'Tag').v, w.get(c, 'Variant'))
            return dict(event='OnUpdate', cls=True, container=c, who='Container', step=step, old=old, at=path, place=at)
        if ct[0] == 'List':
            if step >= len(list(w.iterate(c))):
                raise Diverged('an entry updates item %d of a shorter list' % step)
            return dict(event='OnUpdate', cls=False, container=c, who='Container', tag=step, names=('NewValue', 'OldValue'), at=path,
                        old=list(w.iterate(c))[step])
        if ct[0] == 'Map':
            old = [p.get('Value') for p in w.iterate(c) if p.get('Key').v == step]
            if old:
                return dict(event='OnUpdate', cls=False, container=c, who='Container', tag=step, names=('NewValue', 'OldValue'), at=path, old=old[0])
            return dict(event='OnInsert', cls=False, container=c, who='Map', tag=step, names=('Value', None), at=path)
        fields = next(p[2] for p in wt.s.body(ct[0])[1] if p[1] == ct[1]) if variant else body[1] if body else []
        f = next((f for f in fields if f[1] == step), None)
        if f is None:
            return None
        return dict(event='On%sUpdate' % f[0], cls=True, container=c, who='Container', tag=step, names=('NewValue', 'OldValue'), at=path,
                    old=w.get(c, f[0]))
    items = list(w.iterate(c))
    if kind == 'push':
        return dict(event='OnPush', cls=False, container=c, who='List', tag=len(items), names=('Item', None), at=path + [len(items)])
    if kind == 'pop':
        return dict(event='OnPop', cls=False, container=c, who='List', tag=len(items) - 1, names=(None, 'Item'), at=path + [len(items) - 1],
                    old=items[-1])
    return dict(event='OnRemove', cls=False, container=c, who='Map', tag=key, names=(None, 'Value'), at=path + [key],
                old=next(p.get('Value') for p in items if p.get('Key').v == key))


GONE = object()


def same(w, a, b):
    if isinstance(a, Obj) or isinstance(b, Obj):
        return a is b
    if isinstance(a, N) and isinstance(b, N):
        return a.v == b.v and a.k == b.k
    return type(a) is type(b) and a == b or a in (None, '') and b in (None, '')


def judge(wt, t, root, want, seen):
    """Compares what was raised with what had to be."""
    w = wt.w
    if want is None:
        if seen:
            raise Diverged('%s is raised, about nothing that changed' % name(seen[0]))
        return
    what = '%s of the %s at %s' % (want['event'], want['who'].lower(), show(want['at'][:-1]))
    if len(seen) != 1:
        raise Diverged('%s has to be raised once, but these are raised: %s' % (what, ', '.join(map(name, seen)) or 'none'))
    (owner, event), sender, args, before = seen[0]
    if event != want['event'] or (owner is not want['container'] and not (want['cls'] and owner is want['container'].rt)):
        raise Diverged('%s has to be raised, but %s is' % (what, name(seen[0])))
    if sender is not want['container'] or w.get(args, want['who']) is not want['container']:
        raise Diverged('%s: the sender or container is another object' % what)
    found = wt.find(t, root, want['at'])
    if 'step' in want:
        got = (w.get(args, 'NewTag').v, w.get(args, 'NewVariant'), w.get(args, 'OldTag').v, w.get(args, 'OldVariant'))
        if got[0] != want['step'] or found is None or got[1] is not found[1]:
            raise Diverged('%s: the new variant is %r, the enum then has %r' % (what, got[:2], (want['step'], found and found[1])))
        if got[2] != want['old'][0] or got[3] is not want['old'][1]:
            raise Diverged('%s: the old variant is %r, the enum had %r' % (what, got[2:], want['old']))
        if before is GONE or before != want['old']:
            raise Diverged('%s: the handler finds %r, not the old variant' % (what, before))
        return
    if w.get(args, 'Tag').v != want['tag']:
        raise Diverged('%s: the tag is %d instead of %d' % (what, w.get(args, 'Tag').v, want['tag']))
    new, old = want['names']
    if new:
        if found is None or not same(w, w.get(args, new), found[1]):
            raise Diverged('%s: the new value is %r, then there is %r' % (what, w.get(args, new), found))
    elif found is not None:
        raise Diverged('%s: what was removed is there still' % what)
    if old:
        if not same(w, w.get(args, old), want['old']):
            raise Diverged('%s: the old value is %r, there was %r' % (what, w.get(args, old), want['old']))
        if before is GONE or not same(w, before, want['old']):
            raise Diverged('%s: the handler finds %r and not the old value %r' % (what, before, want['old']))
    elif before is not GONE:
        raise Diverged('%s: the handler finds %r where nothing is yet' % (what, before))


def name(seen):
    (owner, event), sender, args, _ = seen
    return '%s.%s' % (owner.rt if isinstance(owner, Obj) else owner, event)


def play(cl, t, u, ep, stats):
    w = cl.w
    wt = Watch(cl)
    what = 'reading the snapshot %s' % ep['snapshot'][:400]
    try:
        wt.hook_static(t, set())
        root = cl.deserialize(t, bytes.fromhex(ep['snapshot']))
        if wt.seen:
            raise Diverged('%s is raised' % name(wt.seen[0]))
        wt.walk(t, root, (), stats)
        for i, s in enumerate(ep['steps']):
            for raw in s['entries']:
                for entry in entries(bytes.fromhex(raw)):
                    if (ep['case'] + stats['entries']) % 2:
                        b = as_variant(wt, t, root, entry)
                        if b:
                            entry = entries(b)[0]
                    what = 'replaying %s of step %d, %s' % (entry[0].hex()[:400], i, s['op'])
                    want = expected(wt, t, root, entry)
                    wt.seen.clear()

                    def now(root=root, want=want):
                        if want is None:
                            return None
                        if 'step' in want:
                            f = wt.find(t, root, want['place'])
                            return (w.get(f[1], 'Tag').v, w.get(f[1], 'Variant')) if f else GONE
                        f = wt.find(t, root, want['at'])
                        return f[1] if f else GONE
                    wt.now = now
                    # Now and then nobody listens to the one event that is to come.
                    deaf = want is not None and (ep['case'] + stats['entries']) % 11 == 3
                    if deaf:
                        c, e = want['container'], want['event']
                        every = want['cls'] and stats['entries'] % 3 == 0
                        if want['cls']:
                            w.invoke(c.rt, None, 'Clear%sHandlers' % ('Update' if every else e[2:]), [])
                        else:
                            w.invoke(c.rt, c, 'Clear%sHandlers' % e[2:], [])
                    root = cl.replay(t, root, entry[0])
                    stats['entries'] += 1
                    if deaf:
                        if wt.seen:
                            raise Diverged('%s is raised, but the handlers were cleared' % name(wt.seen[0]))
                        for x in wt.static[c.rt] if every else [e] if want['cls'] else []:
                            wt.hook_class(c.rt, x)
                        if not want['cls']:
                            w.put(c, e, wt.handler((c, e)))
                        stats['events to nobody'] += 1
                    else:
                        judge(wt, t, root, want, wt.seen)
                        stats['silent entries'] += want is None
                        if want is not None:
                            k = 'variant updates' if 'step' in want else want['event'] if not want['cls'] else 'field updates'
                            stats['events: ' + k] = stats.get('events: ' + k, 0) + 1
                    wt.seen.clear()
                    wt.walk(t, root, (), stats)
    except Diverged as e:
        return '%s: %s' % (what, e)
    except CsEx as e:
        return '%s, the client throws %s' % (what, describe(w, e))
    except CompileError as e:
        return '%s, the client does not compile: %s' % (what, e)
    except RecursionError:
        return '%s, the client recurses without end' % what
    except Unsupported as e:
        if 'too many steps' in str(e):
            return '%s, the client does not end' % what
        raise
    return None


STATS = dict(episodes=0, entries=0, paths=0, evolved=0, panics=0)
STATS.update({'silent entries': 0, 'events to nobody': 0})


def worker(a):
    binary, zseed, seed, tier, lo, hi, gdir = a
    sys.setrecursionlimit(30000)
    try:
        schema = client.Schema(zseed, tier)
        sources = client.library() + [(os.path.basename(f), open(f).read()) for f in sorted(glob.glob(gdir + '/*.cs'))]
        cl = Client(sources, schema)
        older = {}
        for x, y in schema.evo:
            older.setdefault(y, []).append(x)
        stats = dict(STATS, distinct=set(), samples=[])
        p = subprocess.run([binary, 'episodes', str(seed + 7919), tier, str(lo), str(hi)], stdout=subprocess.PIPE, env=vlib.env(), timeout=600)
        if p.returncode != 0:
            return dict(broken='episodes: exit %d' % p.returncode)
        for line in p.stdout.decode().splitlines():
            ep = json.loads(line)
            if 'panic' in ep:
                stats['panics'] += 1
                continue
            if len(line) > 60000:
                continue
            for t in [ep['type']] + older.get(ep['type'], []):
                msg = play(cl, client.parse(t), client.parse(ep['type']), ep, stats)
                if msg:
                    return dict(failure=dict(case=ep['case'], message='%s%s: %s' % (
                        ep['type'], ' followed by a client of ' + t if t != ep['type'] else '', msg), episode=ep))
                stats['episodes'] += 1
                stats['evolved'] += t != ep['type']
                if any(s['entries'] for s in ep['steps']):
                    stats['distinct'].add(hash((t, line)))
            if len(stats['samples']) < 2:
                stats['samples'].append('%s: %d steps, the last %s' % (ep['type'], len(ep['steps']), ep['steps'][-1]['op']))
        return dict(stats=stats)
    except (Unsupported, csinterp.csparse.ParseError) as e:
        return dict(broken='the interpreter of C# cannot run this: %s' % e)
    except Exception:
        return dict(broken=traceback.format_exc()[-3000:])


def check(run):
    run.rule = ('one evaluation per entry replayed by a client with handlers on every event of every class and collection: exactly the event the entry calls for, '
                'its arguments, what the handler finds, and the paths of all objects afterwards; distinct: client type and history, at least one entry')
    run.assumptions = ['the interpreter of C# (tools/csinterp.py) runs the generated and shipped sources as .NET would',
                       'schemas are those of the generated zoo']
    for k in range(3 if run.thorough else 1):
        if run.violations:
            break
        s = run.seed * 1000 + 500 + k if run.thorough else run.seed
        c15.one(run, s, s, CASES[run.tier], False, worker)


def replay(r):
    return c15.replay(r, worker)
