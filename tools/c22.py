"""C22: a generated client, run by the interpreter of C#, is never left half updated."""
import glob, json, os, random, subprocess, sys, traceback
import vlib, client, csinterp, c15, c21
from csinterp import Obj, CsEx, Unsupported, CompileError
from c15 import Client, Diverged, describe
from c21 import Watch, varint, show, name, enc, sized

CASES = {'quick': 1100, 'thorough': 6000}
KINDS = {'update': 0, 'push': 8, 'pop': 9, 'remove': 12}


def entry(kind, path, value=b'', key=0):
    b = enc(kind if isinstance(kind, int) else KINDS[kind])
    if path:
        b += b'\x02' + sized(b''.join(map(enc, path)))
    if value:
        b += b'\x0a' + sized(value)
    if key:
        b += b'\x08' + enc(key)
    return sized(b)


def sized_type(cl, t):
    return t[0] not in client.CS_PRIM or t[0] == 'String'


def boundaries(cl, t, b):
    """Where the encoding of a value may end: offset -> tags of the fields (or number of items) before it."""
    out, i, seen = {}, 0, []
    elements = t[0] in ('List', 'Vec', 'Arr', 'Option')
    body = cl.s.body(t)
    if body is not None and body[0] == 'E':
        _, i = varint(b, 0)
    out[i] = []
    while i < len(b):
        if elements:
            k = 2 if sized_type(cl, t[1][0]) else 0
            seen = seen + [len(seen)]
        else:
            k, i = varint(b, i)
            seen = seen + [k >> 3]
        n, i = varint(b, i)
        if k & 7:
            i += n
        out[i] = seen
    return out


def part(cl, t, v, tags):
    """The server's value of which only some fields arrived; None where a field has to be its default."""
    if t[0] == 'List':
        return v[:len(tags)]
    if t[0] == 'Map':
        return {'m': [e for e in v['m'] if e[0] in tags]}
    return v


def targets(wt, t, x, at, out):
    """All containers: (address, 'S', 'E', 'L' or 'M', type, object)."""
    if t[0] in client.CS_PRIM or not isinstance(x, Obj):
        return
    if t[0] in ('List', 'Map'):
        out.append((at, t[0][0], t, x))
    elif t[0] in ('Vec', 'Arr', 'Option', 'Bytes'):
        out.append((at, 'N', t, x))
        return
    else:
        kind, parts = wt.s.body(t)
        out.append((at, kind, t, x))
        if kind == 'E':
            tag = wt.w.get(x, 'Tag').v
            fields = next(p[2] for p in parts if p[1] == tag)
            x, at = wt.w.get(x, 'Variant'), at + (tag,)
            out.append((at, 'S', (t, tag), x))
            for f in fields:
                if not f[3]:
                    targets(wt, f[2], wt.w.get(x, f[0]), at + (f[1],), out)
            return
    for step, pt, y in wt.parts(t, x, False):
        targets(wt, pt, y, at + (step,), out)


def misfit(wt, r, t, root):
    """An entry which cannot be applied: (what, bytes)."""
    out = []
    targets(wt, t, root, (), out)
    at, kind, ct, c = r.choice(out)
    at = list(at)
    value = r.choice([b'', b'\0', b'\1', b'\x00\x07', b'\x08\x01'])
    choices = ['kind', 'nowhere']
    if kind != 'L':
        choices += ['push', 'pop']
    if kind != 'M':
        choices.append('remove')
    if kind == 'L':
        choices += ['beyond', 'beyond', 'below beyond']
        if not list(wt.w.iterate(c)):
            choices += ['pop', 'pop', 'pop']
    if kind == 'M':
        choices += ['absent'] * 3 + ['below absent']
    if kind == 'E':
        choices += ['variant', 'other variant']
    if kind == 'S':
        choices += ['field', 'below field']
    how = r.choice(choices)
    n = len(list(wt.w.iterate(c))) if kind == 'L' else 0
    keys = {p.get('Key').v for p in wt.w.iterate(c)} if kind == 'M' else set()
    free = next(k for k in (r.randrange(256), 77, 78, *range(1000)) if k not in keys)
    big = r.choice([0, 1, 2, 100, 1 << 20, (1 << 29) - 1, (1 << 31) - 1, (1 << 32) - 1])
    if how == 'kind':
        b = entry(r.choice([1, 2, 7, 10, 11, 13, 500, 1 << 28]), at, value)
    elif how in ('push', 'pop', 'remove'):
        b = entry(how, at, value if how == 'push' else b'', r.randrange(4) if how == 'remove' else 0)
    elif how == 'beyond':
        b = entry('update', at + [min(n + big, (1 << 32) - 1)], value or b'\0')
    elif how == 'below beyond':
        b = entry(r.choice(['update', 'push', 'pop', 'remove']), at + [min(n + big, (1 << 32) - 1), 0], value)
    elif how == 'absent':
        b = entry('remove', at, key=free)
    elif how == 'below absent':
        b = entry(r.choice(['update', 'push', 'pop', 'remove']), at + [free, 0], value)
    elif how in ('variant', 'other variant'):
        tags = [p[1] for p in wt.s.body(ct)[1]]
        tag = wt.w.get(c, 'Tag').v
        if how == 'variant':
            new = next(k for k in (r.randrange(64), *range(64, 200)) if k not in tags)
            b = entry('update', at + [new], value)
        else:
            new = r.choice([k for k in tags if k != tag] or [max(tags) + 1])
            b = entry(r.choice(['update', 'push', 'pop', 'remove']), at + [new, 0], value)
    elif how in ('field', 'below field'):
        fields = next(p[2] for p in wt.s.body(ct[0])[1] if p[1] == ct[1]) if isinstance(ct[0], tuple) else wt.s.body(ct)[1]
        new = next(k for k in (r.randrange(64), *range(64, 200)) if k not in [f[1] for f in fields])
        b = entry('update', at + [new], value) if how == 'field' else entry(r.choice(['update', 'push', 'pop', 'remove']), at + [new, 0], value)
    else:
        # Below something that has nothing below.
        deep = [new for new in range(40)]
        leaf = None
        if kind == 'S':
            fields = next(p[2] for p in wt.s.body(ct[0])[1] if p[1] == ct[1]) if isinstance(ct[0], tuple) else wt.s.body(ct)[1]
            leaf = [f[1] for f in fields if f[2][0] in client.CS_PRIM or f[2][0] in ('Vec', 'Arr', 'Option', 'Bytes')]
        at += [r.choice(leaf)] if leaf else [r.choice(deep), r.choice(deep)] if kind == 'N' else [free if kind == 'M' else 1 << 30]
        b = entry(r.choice(['update', 'push', 'pop', 'remove']), at + [r.choice([0, 1, 5])], value)
    return '%s at %s' % (how, show(at)), b


def short(r, framed):
    """An entry whose value is cut."""
    _, i = varint(framed, 0)
    begin = i
    _, i = varint(framed, i)
    out = framed[begin:i]
    while i < len(framed):
        begin = i
        k, i = varint(framed, i)
        n, i = varint(framed, i)
        if k & 7:
            v, i = framed[i:i + n], i + n
            if k >> 3 == 1:
                out += enc(k) + sized(v[:r.randrange(len(v))] if v else v)
                continue
        out += framed[begin:i]
    return sized(out)


class Player:
    def __init__(self, cl, t, u, ep, stats, seed):
        self.cl, self.w, self.t, self.u, self.ep, self.stats = cl, cl.w, t, u, ep, stats
        self.r = random.Random('%s/%s/%s' % (seed, ep['case'], client.show(t)))
        self.wt = Watch(cl)

    @staticmethod
    def evaluations(stats):
        return stats['cuts'] + stats['misfits refused'] + stats['misfits ignored'] + stats['spoiled entries']

    def throws(self, f):
        """Runs `f`; whether it throws, and what it returns."""
        try:
            return False, f()
        except CsEx as e:
            return True, describe(self.w, e)
        except csinterp.CompileError:
            raise
        except Unsupported as e:
            if 'too many steps' in str(e):
                raise Diverged('the client does not end')
            raise
        except RecursionError:
            raise Diverged('the client recurses without end')

    def snapshots(self):
        """The snapshot cut at any byte."""
        t, b = self.t, bytes.fromhex(self.ep['snapshot'])
        if not b or self.t != self.u:
            return
        ends = boundaries(self.cl, t, b)
        body = self.cl.s.body(t)
        cuts = list(range(len(b)))
        if len(cuts) > 24:
            cuts = sorted(self.r.sample(cuts, 16) + self.r.sample([e for e in ends if e < len(b)], min(8, len(ends) - 1)))
        for cut in cuts:
            self.what = 'reading the first %d of the %d bytes of the snapshot %s' % (cut, len(b), b.hex()[:400])
            threw, x = self.throws(lambda: self.cl.deserialize(t, b[:cut]))
            self.stats['cuts'] += 1
            if cut not in ends:
                if not threw and not (cut == 0 and body is not None and body[0] == 'E'):
                    raise Diverged('the client takes a torn snapshot for a whole one')
                continue
            if threw:
                raise Diverged('the client throws %s at the end of a field' % x)
            tags, v = ends[cut], self.ep['start']
            if t[0] in ('List', 'Map'):
                self.cl.same(t, self.u, x, part(self.cl, t, v, tags), True, ())
                continue
            fields, sv = (body[1], v) if body[0] == 'S' else (next(p[2] for p in body[1] if p[1] == self.w.get(x, 'Tag').v), v['e'][1])
            if body[0] == 'E':
                x = self.w.get(x, 'Variant')
            for f, fv in zip(fields, sv):
                if f[1] in tags:
                    self.cl.same(f[2], f[2], self.w.get(x, f[0]), fv, True, (f[0],))

    def steps(self):
        """Histories of which the client gets a torn log or entries that do not fit in between."""
        cl, t, u, ep, r = self.cl, self.t, self.u, self.ep, self.r
        snapshot = bytes.fromhex(ep['snapshot'])
        self.wt.hook_static(t, set())
        self.what = 'reading the snapshot'
        root = cl.deserialize(t, snapshot)
        value, hidden = ep['start'], True
        played = []
        for i, s in enumerate(ep['steps']):
            log = b''.join(bytes.fromhex(e) for e in s['entries'])
            for _ in range(r.choice([0, 1, 2, 2])):
                what, b = misfit(self.wt, r, t, root)
                self.what = 'before step %d, replaying %s, which does not fit: %s' % (i, b.hex(), what)
                threw, x = self.play(root, b)
                if self.wt.seen:
                    raise Diverged('%s is raised' % name(self.wt.seen[0]))
                if not threw and x is not root:
                    raise Diverged('the root is replaced')
                cl.same(t, u, root, value, hidden, ())
                self.stats['misfits refused' if threw else 'misfits ignored'] += 1
            if log and r.random() < .7:
                root = self.spoiled(root, i, log, value, hidden, played, snapshot)
            self.what = 'replaying step %d, %s: %s' % (i, s['op'], s['entries'])
            threw, x = self.play(root, log)
            if threw:
                raise Diverged('the client throws %s' % x)
            root, value, hidden = x, s['value'], False
            played.append(log)
            cl.same(t, u, root, value, hidden, ())

    def play(self, root, b):
        out = {'paths': 0}
        self.wt.walk(self.t, root, (), out)
        self.wt.seen.clear()
        return self.throws(lambda: self.cl.replay(self.t, root, b))

    def spoiled(self, root, i, log, value, hidden, played, snapshot):
        """The log of a step, cut or changed; returns a client as it was before."""
        cl, t, u, r = self.cl, self.t, self.u, self.r
        parts = c21.entries(log)
        how = r.choice(['cut', 'torn value', 'short value', 'short value', 'bytes'])
        if how == 'cut':
            # Only the first entry, as its effect is not known.
            b = parts[0][0]
            b = b[:r.randrange(1, len(b))]
            self.what = 'replaying %s, the torn beginning of %s of step %d' % (b.hex()[:400], parts[0][0].hex()[:400], i)
        elif how == 'torn value':
            inner = parts[0][0]
            _, j = varint(inner, 0)
            b = inner[j:]
            k = r.randrange(1, len(b) + 1)
            b = sized(b[:k])
            self.what = 'replaying %s, which has lost the end of %s of step %d' % (b.hex()[:400], inner.hex()[:400], i)
        elif how == 'short value':
            b = short(r, parts[0][0])
            self.what = 'replaying %s, in which the value of %s of step %d is cut' % (b.hex()[:400], parts[0][0].hex()[:400], i)
        else:
            b = bytearray(parts[0][0])
            for _ in range(r.choice([1, 1, 2])):
                k = r.randrange(len(b))
                b[k] = r.choice([0, 1, 0x7f, 0x80, 0xff, b[k] ^ 1 << r.randrange(8), r.randrange(256)])
            b = bytes(b)
            self.what = 'replaying %s, made of %s of step %d' % (b.hex()[:400], parts[0][0].hex()[:400], i)
        threw, x = self.play(root, b)
        self.stats['spoiled entries'] += 1
        if how == 'cut' or threw and (how != 'bytes' or len(self.split(b)) < 2):
            # A torn entry may be refused or ignored.
            if self.wt.seen:
                raise Diverged('%s, but %s is raised' % ('it throws %s' % x if threw else 'it is not whole', name(self.wt.seen[0])))
            if not threw and x is not root:
                raise Diverged('the root is replaced')
            cl.same(t, u, root, value, hidden, ())
            self.stats['spoiled entries refused'] += threw
            return root
        # It may have been another entry that fits: begin anew.
        root = cl.deserialize(t, snapshot)
        for b in played:
            root = cl.replay(t, root, b)
        return root

    def split(self, b):
        """The frames of a log that may be torn."""
        out, i = [], 0
        try:
            while i < len(b):
                n, j = varint(b, i)
                out.append((i, j + n))
                i = j + n
        except IndexError:
            out.append((i, len(b)))
        return out

    def play_all(self):
        self.snapshots()
        self.steps()

    def run(self):
        try:
            self.play_all()
        except Diverged as e:
            return '%s: %s' % (self.what, e)
        except CsEx as e:
            return '%s, the client throws %s' % (self.what, describe(self.w, e))
        except CompileError as e:
            return '%s, the client does not compile: %s' % (self.what, e)
        except RecursionError:
            return '%s, the client recurses without end' % self.what
        except Unsupported as e:
            if 'too many steps' in str(e):
                return '%s, the client does not end' % self.what
            raise
        return None


STATS = {'episodes': 0, 'cuts': 0, 'misfits refused': 0, 'misfits ignored': 0, 'spoiled entries': 0, 'spoiled entries refused': 0, 'evolved': 0, 'panics': 0}


def worker(a):
    return work(a, Player, dict(STATS), 104729)


def work(a, player, stats, offset):
    binary, zseed, seed, tier, lo, hi, gdir = a
    sys.setrecursionlimit(30000)
    try:
        schema = client.Schema(zseed, tier)
        sources = client.library() + [(os.path.basename(f), open(f).read()) for f in sorted(glob.glob(gdir + '/*.cs'))]
        cl = Client(sources, schema)
        older = {}
        for x, y in schema.evo:
            older.setdefault(y, []).append(x)
        stats.update(distinct=set(), samples=[])
        p = subprocess.run([binary, 'episodes', str(seed + offset), tier, str(lo), str(hi)], stdout=subprocess.PIPE, env=vlib.env(), timeout=600)
        if p.returncode != 0:
            return dict(broken='episodes: exit %d' % p.returncode)
        for line in p.stdout.decode().splitlines():
            ep = json.loads(line)
            if 'panic' in ep:
                stats['panics'] += 1
                continue
            if len(line) > 30000:
                continue
            for t in [ep['type']] + older.get(ep['type'], []):
                msg = player(cl, client.parse(t), client.parse(ep['type']), ep, stats, seed).run()
                if msg:
                    return dict(failure=dict(case=ep['case'], message='%s%s: %s' % (
                        ep['type'], ' followed by a client of ' + t if t != ep['type'] else '', msg), episode=ep))
                stats['episodes'] += 1
                stats['evolved'] += t != ep['type']
                if any(s['entries'] for s in ep['steps']):
                    stats['distinct'].add(hash((t, line)))
            if len(stats['samples']) < 2:
                stats['samples'].append('%s: snapshot of %d bytes, %d steps' % (ep['type'], len(ep['snapshot']) // 2, len(ep['steps'])))
        stats['entries'] = player.evaluations(stats)
        return dict(stats=stats)
    except (Unsupported, csinterp.csparse.ParseError) as e:
        return dict(broken='the interpreter of C# cannot run this: %s' % e)
    except Exception:
        return dict(broken=traceback.format_exc()[-3000:])


def check(run):
    run.rule = ('one evaluation per torn snapshot, torn or changed entry, or entry that does not fit, given to a client in the middle of a history: whether it '
                'is refused, and the whole state and the events afterwards; distinct: client type and history, at least one entry')
    run.assumptions = ['the interpreter of C# (tools/csinterp.py) runs the generated and shipped sources as .NET would',
                       'schemas are those of the generated zoo']
    for k in range(3 if run.thorough else 1):
        if run.violations:
            break
        s = run.seed * 1000 + 700 + k if run.thorough else run.seed
        c15.one(run, s, s, CASES[run.tier], False, worker)


def replay(r):
    return c15.replay(r, worker)
