"""C25: a generated client, run by the interpreter of C#, stands whatever its handlers do."""
import vlib, client, csinterp, c15, c21, c22
from csinterp import Obj, Delegate, CsEx, CompileError, N
from c15 import Diverged, describe
from c21 import Watch, show

CASES = {'quick': 800, 'thorough': 7000}


class Handlers(c22.Player):
    """A client whose handlers misbehave, next to a twin that has none which do."""

    @staticmethod
    def evaluations(stats):
        return stats['throws'] + stats['looks'] + stats['fresh replicas'] + stats['cleared']

    def dump(self, t, x, ids=False):
        """The whole of a state, or also which objects it is made of."""
        w = self.w
        if t[0] in client.CS_PRIM:
            return x.v if isinstance(x, N) else x or '' if t[0] == 'String' else x
        if not isinstance(x, Obj):
            raise Diverged('there is %r' % x)
        me = id(x) if ids else None
        if t[0] == 'Bytes':
            return me, tuple(b.v for b in w.iterate(x))
        path = w.text(w.get(x, 'Path'))
        body = self.cl.s.body(t)
        if body is not None and body[0] == 'E':
            tag = w.get(x, 'Tag').v
            v = w.get(x, 'Variant')
            fields = next(p[2] for p in body[1] if p[1] == tag)
            return me, path, tag, id(v) if ids else None, w.text(w.get(v, 'Path')), tuple(self.dump(f[2], w.get(v, f[0]), ids) for f in fields)
        parts = sorted(self.wt.parts(t, x, True), key=lambda p: p[0])
        return me, path, tuple((s, self.dump(pt, y, ids)) for s, pt, y in parts)

    def hooks(self, x):
        """The handlers of all classes and of everything in `x`."""
        for rt, events in self.wt.static.items():
            for e in list(events):
                self.wt.hook_class(rt, e)
        self.hook(self.t, x)

    def hook(self, t, x):
        """The handlers of the collections in `x`."""
        if t[0] in client.CS_PRIM or not isinstance(x, Obj):
            return
        body = self.cl.s.body(t)
        if body is not None and body[0] == 'E':
            tag = self.w.get(x, 'Tag').v
            x = self.w.get(x, 'Variant')
            for f in next(p[2] for p in body[1] if p[1] == tag):
                self.hook(f[2], self.w.get(x, f[0]))
            return
        if t[0] in ('List', 'Map'):
            for e in ('OnUpdate', 'OnPush', 'OnPop') if t[0] == 'List' else ('OnUpdate', 'OnInsert', 'OnRemove'):
                self.w.put(x, e, self.wt.handler((x, e, t)))
        for _, pt, y in self.wt.parts(t, x, True):
            self.hook(pt, y)

    def arrives(self, name, args):
        """Listens to the collections in a new value, too."""
        owner, event = name[:2]
        if isinstance(owner, Obj):
            t = name[2]
            what = {'OnUpdate': 'NewValue', 'OnPush': 'Item', 'OnInsert': 'Value'}.get(event)
            if what:
                self.hook(t[1][-1], self.w.get(args, what))
            return
        if event == 'OnUpdate' and owner in self.enums:
            x = self.w.get(args, 'NewVariant')
            fields = next(p[2] for p in self.enums[owner] if p[1] == self.w.get(args, 'NewTag').v)
            for f in fields:
                self.hook(f[2], self.w.get(x, f[0]))
            return
        self.hook(self.fields[owner, event], self.w.get(args, 'NewValue'))

    def types_of(self, t, done):
        """The types of all fields."""
        if t in done:
            return
        done.add(t)
        body = self.cl.s.body(t)
        if body is None:
            for a in t[1]:
                self.types_of(a, done)
            return
        kind, parts = body
        if kind == 'E':
            self.enums[self.cl.rt(t)] = parts
        for rt, fields in [(self.cl.rt(t), parts)] if kind == 'S' else [(self.wt.variant_type(t, n), fs) for n, _, fs in parts]:
            for name, _, ft, _ in fields:
                self.fields[rt, 'On%sUpdate' % name] = ft
                self.types_of(ft, done)

    def batch(self, root, b):
        """Replays `b`; the exception, if any, and the root afterwards."""
        cl, w = self.cl, self.w
        w.steps = 0
        cell = [root]

        def put(v):
            cell[0] = v
        try:
            w.invoke(cl.replayer, None, 'Replay', [(None, 'ref', csinterp.Ref(lambda: cell[0], put)), (None, None, cl.reader(b))], (cl.rt(self.t),))
        except CsEx as e:
            return e, cell[0]
        return None, cell[0]

    def play_all(self):
        cl, t, u, ep, r, w = self.cl, self.t, self.u, self.ep, self.r, self.w
        snapshot = bytes.fromhex(ep['snapshot'])
        self.wt.hook_static(t, set())
        self.fields, self.enums = {}, {}
        self.types_of(t, set())
        self.depth, self.act, self.count = 0, None, 0

        def handler(name):
            def f(sender, args):
                if self.depth:
                    return
                self.depth += 1
                try:
                    self.count += 1
                    self.arrives(name, args)
                    if self.act:
                        self.act(name, sender, args)
                finally:
                    self.depth -= 1
            return Delegate([f])
        self.wt.handler = handler
        self.what = 'reading the snapshot'
        root, twin = cl.deserialize(t, snapshot), cl.deserialize(t, snapshot)
        # Some updates of enums reach the client as updates of their variants.
        logs, x = {}, cl.deserialize(t, snapshot)
        for i, s in enumerate(ep['steps']):
            logs[i] = []
            for e in c21.entries(b''.join(bytes.fromhex(b) for b in s['entries'])):
                b = c21.as_variant(self.wt, t, x, e) if r.random() < .5 else None
                if b:
                    e = c21.entries(b)[0]
                    self.stats['variant updates'] += 1
                logs[i].append(e)
                x = cl.replay(t, x, e[0])
        played = []
        steps = [dict(s, log=logs[i]) for i, s in enumerate(ep['steps'])]
        while steps:
            some = [steps.pop(0) for _ in range(min(len(steps), r.choice([1, 1, 2, 3])))]
            log = [e for s in some for e in s['log']]
            value = some[-1]['value']
            if not log:
                continue
            # Nobody can listen to the collections of a new root before the log ends.
            cut = next((i + 1 for i, e in enumerate(log) if e[1] == 'update' and not e[2]), 0)
            if 0 < cut < len(log):
                for e in log[:cut]:
                    root, twin = cl.replay(t, root, e[0]), cl.replay(t, twin, e[0])
                played.append(b''.join(e[0] for e in log[:cut]))
                log = log[cut:]
                if any(e[1] == 'update' and not e[2] for e in log):
                    for e in log:
                        root, twin = cl.replay(t, root, e[0]), cl.replay(t, twin, e[0])
                    played.append(b''.join(e[0] for e in log))
                    continue
            whole = b''.join(e[0] for e in log)
            how = r.choice(['throw', 'throw', 'throw', 'look', 'fresh', 'clear', 'self'])
            self.what = 'replaying %s (%s)' % (whole.hex()[:600], '; '.join(s['op'] for s in some)[:300])
            # The entry whose event it is all about, with the twin just before it.
            first, k = r.randrange(len(log)), 0
            at = None
            self.act = None
            for i, e in enumerate(log):
                if i >= first and c21.expected(self.wt, t, twin, e) is not None:
                    at = i
                    break
                k += c21.expected(self.wt, t, twin, e) is not None
                twin = cl.replay(t, twin, e[0])
            self.hooks(root)
            self.count = 0
            rest = b''.join(e[0] for e in log[at:]) if at is not None else b''
            if at is None:
                ex, root = self.batch(root, whole)
                if ex:
                    raise Diverged('the client throws %s' % describe(w, ex))
            elif how == 'throw':
                root = self.throwing(root, twin, whole, k, at)
                twin = cl.replay(t, twin, rest)
                if r.random() < .3:
                    # It may well throw again.
                    self.hooks(root)
                    root = self.throwing(root, None, rest, 0, 0)
                self.act = None
                self.what += ', and once more from the entry of which the handler threw'
                ex, root = self.batch(root, rest)
                if ex:
                    raise Diverged('the client throws %s' % describe(w, ex))
            else:
                before = self.dump(t, twin)
                done = played + [e[0] for e in log[:at]]
                root = self.calm(how, root, whole, k, before, snapshot, done)
                self.act = None
                twin = cl.replay(t, twin, rest)
            played.append(whole)
            cl.same(t, u, root, value, False, ())
            if self.dump(t, root) != self.dump(t, twin):
                raise Diverged('the client is not what one is whose handlers do nothing')
            self.stats['batches'] += 1

    def throwing(self, root, twin, log, k, at):
        """The handler of event `k` throws."""
        w = self.w
        mine = []

        def act(name, sender, args):
            if self.count == k + 1:
                try:
                    w.throw(self.r.choice(['InvalidOperationException', 'NotSupportedException', 'KeyNotFoundException', 'IndexOutOfRangeException', 'ArgumentException']), 'of the handler')
                except CsEx as e:
                    mine.append(e)
                    raise
        self.act, self.count = act, 0
        before = self.dump(self.t, root, True) if at == 0 else None
        what, self.what = self.what, self.what + ', where the handler of event %d throws' % k
        ex, root = self.batch(root, log)
        self.act = None
        if not mine:
            raise Diverged('event %d is not raised' % k)
        if ex is None:
            raise Diverged('the caller does not learn that the handler threw')
        if self.count != k + 1:
            raise Diverged('entries are replayed after the one of which the handler threw')
        if before is not None and self.dump(self.t, root, True) != before:
            raise Diverged('the entry of which the handler threw has changed the state')
        if twin is not None and self.dump(self.t, root) != self.dump(self.t, twin):
            raise Diverged('the client is not as it was before the entry of which the handler threw')
        self.stats['throws'] += 1
        self.stats['throws in a batch'] += at > 0
        self.what = what
        return root

    def calm(self, how, root, log, k, before, snapshot, played):
        """The handlers do something harmless."""
        cl, t, w = self.cl, self.t, self.w
        bad = []

        def act(name, sender, args):
            owner, event = name[:2]
            if how == 'look':
                if self.count == k + 1:
                    if self.dump(t, root) != before:
                        bad.append('the handler of event %d does not find the state as it was before' % k)
                    self.stats['looks'] += 1
            elif how == 'fresh':
                if self.count == k + 1:
                    steps = w.steps
                    x = cl.deserialize(t, snapshot)
                    for b in played:
                        ex, x = self.batch(x, b)
                        if ex:
                            bad.append('another replica throws %s' % describe(w, ex))
                            return
                    if self.dump(t, x) != before:
                        bad.append('another replica, made in a handler, differs')
                    w.steps = steps
                    self.stats['fresh replicas'] += 1
            elif how == 'clear':
                # Nobody listens any more.
                if isinstance(owner, Obj):
                    w.invoke(owner.rt, owner, 'Clear%sHandlers' % event[2:], [])
                else:
                    w.invoke(owner, None, 'ClearUpdateHandlers' if self.count % 2 else 'Clear%sHandlers' % event[2:], [])
                self.stats['cleared'] += 1
            elif isinstance(owner, Obj):
                w.put(owner, event, None)
                self.stats['cleared'] += 1
            else:
                w.put_static(owner, event, None)
                self.stats['cleared'] += 1
        self.act, self.count = act, 0
        self.what += ', where handlers %s' % {'look': 'read the state', 'fresh': 'make another replica', 'clear': 'clear the handlers', 'self': 'remove themselves'}[how]
        ex, root = self.batch(root, log)
        if ex:
            raise Diverged('the client throws %s' % describe(w, ex))
        if bad:
            raise Diverged(bad[0])
        return root


STATS = {'episodes': 0, 'batches': 0, 'throws': 0, 'throws in a batch': 0, 'looks': 0, 'fresh replicas': 0, 'cleared': 0, 'variant updates': 0, 'evolved': 0, 'panics': 0}


def worker(a):
    return c22.work(a, Handlers, dict(STATS), 15485863)


def check(run):
    run.rule = ('one evaluation per handler that throws, reads the whole state, makes another replica or removes handlers while a log is replayed: whether the caller learns of it, '
                'and the whole state afterwards next to a twin without such handlers and to the server; distinct: client type and history, at least one entry')
    run.assumptions = ['the interpreter of C# (tools/csinterp.py) runs the generated and shipped sources as .NET would',
                       'schemas are those of the generated zoo']
    for k in range(3 if run.thorough else 1):
        if run.violations:
            break
        s = run.seed * 1000 + 900 + k if run.thorough else run.seed
        c15.one(run, s, s, CASES[run.tier], False, worker)


def replay(r):
    return c15.replay(r, worker)
