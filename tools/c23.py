"""C23: a generated client, run by the interpreter of C#, reads through what it does not know."""
import random
import vlib, client, csinterp, c15, c21, c22
from csinterp import Obj
from c15 import Diverged
from c21 import varint, show
from c22 import enc, sized, sized_type

CASES = {'quick': 2000, 'thorough': 10000}
STATS = {'episodes': 0, 'snapshots': 0, 'log entries': 0, 'unknown fields': 0, 'foreign wire types': 0, 'permuted': 0, 'in log entries': 0, 'evolved': 0, 'panics': 0}
TOP = (1 << 29) - 1


class Player(c22.Player):
    @staticmethod
    def evaluations(stats):
        return stats['snapshots'] + stats['log entries']

    def junk(self, tag, wt):
        """A field with some content."""
        r = self.r
        b = enc(tag << 3 | wt)
        if wt == 0:
            # Longer ones are read as well.
            return b + (enc(r.choice([0, 1, 127, 128, 1 << 32, (1 << 64) - 1, r.getrandbits(64)])) if r.random() < .9 else b'\x80' * r.randrange(1, 10) + b'\0')
        return b + sized(bytes(r.choice([0, 1, 8, 0x80, 0xff, r.randrange(256)]) for _ in range(r.choice([0, 0, 1, 2, 3, 9, 130]))))

    def add(self, fields, known):
        """Adds unknown fields and such with foreign wire types; `known`: tag -> wire type."""
        r = self.r
        while r.random() < self.p:
            if known and r.random() < .45:
                tag = r.choice(sorted(known))
                fields.append(self.junk(tag, 2 - known[tag]))
                self.stats['foreign wire types'] += 1
            else:
                tag = r.choice([r.randrange(5000, 9000), TOP, TOP - 1, 1 << 28, r.randrange(1 << 29)] + ([r.randrange(40)] if self.t == self.u else []))
                if tag in known or tag < 5000 and self.t != self.u:
                    continue
                fields.append(self.junk(tag, r.choice([0, 2])))
                self.stats['unknown fields'] += 1

    def body(self, fields, b):
        """The encoding of some fields."""
        types = {f[1]: f[2] for f in fields}
        out, i = [], 0
        while i < len(b):
            k, i = varint(b, i)
            if k & 7:
                n, i = varint(b, i)
                v, i = b[i:i + n], i + n
                out.append(enc(k) + sized(self.salt(types[k >> 3], v)))
            else:
                j = i
                _, i = varint(b, i)
                out.append(enc(k) + b[j:i])
        n = len(out)
        self.add(out, {f[1]: 2 if sized_type(self.cl, f[2]) else 0 for f in fields})
        if len(out) > n or len(out) > 1 and self.r.random() < .5:
            self.r.shuffle(out)
            self.stats['permuted'] += 1
        return b''.join(out)

    def salt(self, t, b):
        """The encoding of a value as a server with a newer schema might have written it."""
        n = t[0]
        if n in client.CS_PRIM or n == 'Bytes':
            return b
        if n in ('Vec', 'Arr', 'List', 'Option'):
            if not sized_type(self.cl, t[1][0]):
                return b
            out, i = [], 0
            while i < len(b):
                k, i = varint(b, i)
                out.append(sized(self.salt(t[1][0], b[i:i + k])))
                i += k
            return b''.join(out)
        if n == 'Map':
            v, out, i = t[1][1], [], 0
            s = sized_type(self.cl, v)
            while i < len(b):
                k, j = varint(b, i)
                c, j = varint(b, j)
                if s:
                    out.append(enc(k) + sized(self.salt(v, b[j:j + c])))
                    j += c
                else:
                    out.append(b[i:j])
                i = j
            if v[0] != 'String':
                while self.r.random() < self.p:
                    out.insert(self.r.randrange(len(out) + 1), self.junk(self.r.choice([0, 1, 2, 3, self.r.randrange(256), TOP]), 0 if s else 2))
                    self.stats['foreign wire types'] += 1
            return b''.join(out)
        kind, parts = self.cl.s.body(t)
        if kind == 'S':
            return self.body(parts, b)
        if not b:
            return b
        tag, i = varint(b, 0)
        return b[:i] + self.body(next(p[2] for p in parts if p[1] == tag), b[i:])

    def below(self, path):
        """Type at a path, or ('variant', fields); None if it is unknown."""
        t = self.u
        for step in path:
            if t[0] == 'variant':
                t = next((f[2] for f in t[1] if f[1] == step), None)
            elif t[0] in ('List', 'Map'):
                t = t[1][-1]
            else:
                body = self.cl.s.body(t)
                if body is None:
                    return None
                if body[0] == 'S':
                    t = next((f[2] for f in body[1] if f[1] == step), None)
                else:
                    t = next((('variant', p[2]) for p in body[1] if p[1] == step), None)
            if t is None:
                return None
        return t

    def entry(self, framed):
        """A log entry as a newer server might have written it."""
        (_, kind, path, key), = c21.entries(framed)
        n, i = varint(framed, 0)
        tag, j = varint(framed, i)
        b, fields = framed[i:j], []
        while j < len(framed):
            k, j = varint(framed, j)
            begin = j
            n, j = varint(framed, j)
            if k & 7 == 0:
                fields.append(enc(k) + framed[begin:j])
                continue
            v, j = framed[j:j + n], j + n
            if k >> 3 == 1:
                t = self.below(path + [0] if kind == 'push' else path)
                if t is not None:
                    v = self.body(t[1], v) if t[0] == 'variant' else self.salt(t, v)
            fields.append(enc(k) + sized(v))
        known = {'update': {0: 2, 1: 2}, 'push': {0: 2, 1: 2}, 'pop': {0: 2}, 'remove': {0: 2, 1: 0}}[kind]
        n = len(fields)
        self.add(fields, known)
        self.stats['in log entries'] += len(fields) - n
        if self.r.random() < .5:
            self.r.shuffle(fields)
        return sized(b + b''.join(fields))

    def play_all(self):
        cl, t, u, ep, r = self.cl, self.t, self.u, self.ep, self.r
        snapshot = bytes.fromhex(ep['snapshot'])
        self.p = r.choice([.15, .3, .5])
        for _ in range(2):
            b = self.salt(u, snapshot)
            self.what = 'reading the snapshot %s as %s' % (snapshot.hex()[:400], b.hex()[:800])
            root = cl.deserialize(t, b)
            cl.same(t, u, root, ep['start'], True, ())
            self.stats['snapshots'] += 1
        for i, s in enumerate(ep['steps']):
            log = b''
            for e in s['entries']:
                log += self.entry(bytes.fromhex(e))
                self.stats['log entries'] += 1
            self.what = 'replaying step %d, %s: %s as %s' % (i, s['op'], s['entries'], log.hex()[:800])
            root = cl.replay(t, root, log)
            cl.same(t, u, root, s['value'], False, ())


def worker(a):
    return c22.work(a, Player, dict(STATS), 1299709)


def check(run):
    run.rule = ('one evaluation per snapshot or log entry with unknown fields, known fields of foreign wire types and known fields in another order at any level, compared '
                'with the value of the server; distinct: client type and history, at least one entry')
    run.assumptions = ['the interpreter of C# (tools/csinterp.py) runs the generated and shipped sources as .NET would',
                       'schemas are those of the generated zoo']
    for k in range(3 if run.thorough else 1):
        if run.violations:
            break
        s = run.seed * 1000 + 800 + k if run.thorough else run.seed
        c15.one(run, s, s, CASES[run.tier], False, worker)


def replay(r):
    return c15.replay(r, worker)
