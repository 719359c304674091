"""What the checks of generated clients share: the schemas, the server's binary, type expressions."""
import hashlib, os, re, shutil, subprocess, sys
import vlib, zoo

NS = 'Verif.Client'
CS_PRIM = {'u8': 'Byte', 'u16': 'UInt16', 'u32': 'UInt32', 'u64': 'UInt64', 'i8': 'SByte', 'i16': 'Int16', 'i32': 'Int32',
           'i64': 'Int64', 'bool': 'Boolean', 'String': 'String', 'CKey': 'UInt32'}


def nrand(tier):
    return 24 if tier == 'thorough' else 12


def build(zseed, tier):
    """Generates the schemas and builds the server's side; returns the path of the binary."""
    with vlib.locked('client'):
        h = os.path.join(vlib.VERIF, 'harness')
        code, out = vlib.sh([sys.executable, os.path.join(vlib.VERIF, 'tools/zoo.py'), str(zseed), str(nrand(tier)),
                             os.path.join(h, 'src/client_gen.rs'), 'client'])
        if code != 0:
            raise vlib.Harness('zoo: ' + out[-2000:])
        code, out = vlib.sh(['cargo', 'build', '--offline', '--quiet', '--bin', 'client'], timeout=700, cwd=h,
                            environ=vlib.env(CARGO_TARGET_DIR=os.path.join(vlib.BUILD, 'target-client'), RUSTFLAGS='-Awarnings'))
        if code != 0:
            raise vlib.Harness('the client harness does not build:\n' + out[-6000:])
        built = os.path.join(vlib.BUILD, 'target-client', 'debug', 'client')
        os.makedirs(os.path.join(vlib.BUILD, 'bin'), exist_ok=True)
        path = os.path.join(vlib.BUILD, 'bin', 'client-' + hashlib.sha256(open(built, 'rb').read()).hexdigest()[:16])
        if not os.path.exists(path):
            shutil.copy2(built, path + '.tmp%d' % os.getpid())
            os.rename(path + '.tmp%d' % os.getpid(), path)
        return path


# ---------------------------------------------------------------- type expressions

def parse(s):
    """'Map<u8, [T; 3]>' -> ('Map', [('u8', []), ('Arr', [('T', [])], 3)])"""
    toks = re.findall(r'[A-Za-z_0-9]+|[<>\[\];,]', s)
    pos = 0

    def ty():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == '[':
            e = ty()
            assert toks[pos] == ';'
            n = int(toks[pos + 1])
            assert toks[pos + 2] == ']'
            pos += 3
            return ('Arr', (e,), n)
        args = []
        if pos < len(toks) and toks[pos] == '<':
            while toks[pos] in '<,':
                pos += 1
                args.append(ty())
            pos += 1
        return (t, tuple(args))
    r = ty()
    assert pos == len(toks), s
    return norm(r)


def norm(t):
    """Without aliases and boxes."""
    if t[0] in zoo.ALIASES:
        return parse(zoo.ALIASES[t[0]])
    args = tuple(norm(a) for a in t[1])
    if t[0] == 'Box':
        return args[0]
    return (t[0], args) + t[2:]


def maybe_field():
    """The library ships the classes of a twin of `Maybe` with an unnamed field."""
    path = os.path.join(vlib.REPO, 'steit-csharp/src/Builtins/Maybe.cs')
    return 'Value' if re.search(r'T Value\b', open(path, encoding='utf-8-sig').read()) else 'F0'


def subst(t, env):
    if t[0] in env:
        return env[t[0]]
    return (t[0], tuple(subst(a, env) for a in t[1])) + t[2:]


def show(t):
    if t[0] == 'Arr':
        return '[%s; %d]' % (show(t[1][0]), t[2])
    return t[0] + ('<%s>' % ', '.join(map(show, t[1])) if t[1] else '')


class Schema:
    """The schemas of one seed."""
    def __init__(self, zseed, tier):
        self.z, self.roots, self.evo = zoo.make_client(zseed, nrand(tier))
        self.cache = {}

    def body(self, t):
        """Fields of an instance of a derived type: ('S', fields) or ('E', variants); None if it is not derived.

        A field is (C# name, tag, type, no_state), a variant (C# name, tag, fields)."""
        if t in self.cache:
            return self.cache[t]
        d = self.z.types.get(t[0])
        if d is None:
            r = None
        else:
            env = dict(zip(d.generics, t[1]))

            def fields(b):
                return [(zoo.cs_field(b, i), f.tag, subst(parse(f.ty), env), f.no_state) for i, f in enumerate(b.fields)]
            if isinstance(d, zoo.S):
                r = ('S', fields(d.body))
            else:
                r = ('E', [(zoo.cs_name(v), v.tag, fields(v.body)) for v in d.variants])
        if t[0] == 'Maybe':
            r = ('E', [('None', 0, []), ('Some', 1, [(maybe_field(), 0, t[1][0], False)])])
        self.cache[t] = r
        return r

    def cs(self, t):
        """The C# type."""
        n, args = t[0], t[1]
        if n in CS_PRIM:
            return CS_PRIM[n]
        if n == 'Bytes':
            return 'Bytes'
        if n in ('Vec', 'Arr'):
            return 'Vector<%s>' % self.cs(args[0])
        if n == 'List':
            return 'StateList<%s>' % self.cs(args[0])
        if n == 'Map':
            return 'StateMap<%s>' % self.cs(args[1])
        if n in ('Option', 'Maybe'):
            return '%s<%s>' % (n, self.cs(args[0]))
        d = self.z.types.get(n)
        name = zoo.cs_name(d) if d else n
        return name + ('<%s>' % ', '.join(self.cs(a) for a in args) if args else '')


class Server:
    """Talks to the generator."""
    def __init__(self, binary):
        self.p = subprocess.Popen([binary, 'generate'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=vlib.env(), text=True)

    def generate(self, out, root, ns=NS, using=(), skip=(), flags=()):
        self.p.stdin.write('\t'.join([out, root, ns, ','.join(using), ','.join(skip), ','.join(flags)]) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise vlib.Harness('the generator process ended while generating %s' % root)
        kind, _, rest = line.rstrip('\n').partition('\t')
        return kind, [x for x in rest.split(',') if x] if kind == 'ok' else rest

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def library():
    src = os.path.join(vlib.REPO, 'steit-csharp/src')
    out = []
    for d, _, fs in sorted(os.walk(src)):
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith('.cs')]
    return [(os.path.relpath(f, vlib.REPO), open(f, encoding='utf-8-sig').read()) for f in out]
