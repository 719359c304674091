"""C13: invalid schemas are refused by the compiler with an error that names the problem; valid ones compile and do as declared."""
import copy, json, os, random, re, subprocess, sys
import vlib

DIR = os.path.join(vlib.VERIF, 'schemas')
TAG_MAX = 0x1fffffff
VALID = {'quick': 150, 'thorough': 500}
INVALID = {'quick': 900, 'thorough': 4500}

# type -> (sample, whether it can be hashed)
STATE = {'u8': ('7', 1), 'u16': ('700', 1), 'u32': ('70000', 1), 'u64': ('1 << 40', 1), 'i8': ('-7', 1), 'i16': ('-700', 1), 'i32': ('-70000', 1),
         'i64': ('-(1 << 40)', 1), 'bool': ('true', 1),
         'List<u8>': ('{ let mut l = List::default(); l.push(9); l }', 1),
         'Map<u16, i32>': ('{ let mut m = Map::default(); m.insert(4, 5); m }', 0),
         'Maybe<i8>': ('Maybe::some(Runtime::default(), 5)', 1), 'Box<u32>': ('Box::new(9)', 1),
         'SIn': ('{ let mut s = SIn::default(); s.set_x(3); s }', 1), 'Box<SIn>': ('{ let mut s = SIn::default(); s.set_x(3); Box::new(s) }', 1),
         'RIn': ('{ let mut s = RIn::default(); s.set_runtime(3); s }', 1),
         'List<Maybe<RIn>>': ('{ let mut l = List::default(); l.push(Maybe::default()); l }', 1),
         'List<List<SIn>>': ('{ let mut l = List::default(); l.push(List::default()); l }', 1),
         'steit::types::List<std::primitive::u8>': ('{ let mut l = List::default(); l.push(9); l }', 1),
         '(i16)': ('8', 1)}
PLAIN = {k: STATE[k] for k in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'bool', 'Box<u32>', '(i16)')}
PLAIN.update({'String': ('"ab".to_string()', 1), 'Vec<u8>': ('vec![3, 0]', 1), 'Option<u32>': ('Some(4)', 1), '[u8; 3]': ('[1, 2, 3]', 1),
              'Bytes': ('Bytes::from_raw(vec![1])', 1), 'PIn': ('PIn { x: 3, size_cache: SizeCache::new() }', 1),
              'Vec<PIn>': ('vec![PIn { x: 3, size_cache: SizeCache::new() }]', 1), 'Option<Box<PIn>>': ('Some(Box::new(PIn { x: 3, size_cache: SizeCache::new() }))', 1),
              'std::string::String': ('"cd".to_string()', 1), 'Vec<Option<Vec<i32>>>': ('vec![Some(vec![1]), None]', 1)})
NOMETA = {'HashMap<u8, String>': ('vec![(1u8, String::new())].into_iter().collect()', 0)}
WRITTEN = ('Box<u32>', '[u8; 3]', 'Maybe<i8>')     # Fields of these types are written even as their default.
FIELD_NAMES = ['a', 'b_c', 'value', 'reader', 'writer', 'size', 'tag', 'path', 'kind', 'key', 'other', 'state', 'wire_type', 'self_value', 'runtime_',
               'r#type', 'r#match', 'r#fn', 'x1', 'this', 'eq', 'hash', 'f0', 'f1', 'default', 'io', 'long_name_of_a_field', 'entry', 'result', 'sizer']
VARIANT_NAMES = ['Aa', 'B', 'CcDd', 'E1', 'None', 'Some', 'Ok', 'Self_', 'r#abstract', 'URL', 'Default', 'X_y']
PRELUDE = '''// Generated by tools/c13.py, do not edit.
#![allow(unused, non_camel_case_types, non_snake_case, clippy::all)]
use std::collections::HashMap;
use steit::{de::{Deserialize, Reader}, meta::HasMeta, rt::{Runtime, SizeCache}, ser::Serialize, state::State as _, steit_derive, types::{Bytes, List, Map, Maybe}};
#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, State)]
pub struct SIn { #[steit(tag = 0)] pub x: u8 }
#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct PIn { #[steit(tag = 0)] pub x: u8 }
#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, State)]
#[steit(runtime_renamed = "rt", size_cache_renamed = "sc")]
pub struct RIn { #[steit(tag = 0)] pub runtime: u8, #[steit(tag = 1)] pub size_cache: i8 }
'''
MAIN = '''
fn hash<T: std::hash::Hash>(v: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    std::hash::Hasher::finish(&h)
}
fn varint(b: &[u8], i: &mut usize) -> u64 {
    let (mut v, mut s) = (0, 0);
    loop {
        let x = b[*i];
        *i += 1;
        v |= ((x & 127) as u64) << s;
        s += 7;
        if x < 128 { return v; }
    }
}
/// Tags of the fields in `b`, after a leading variant tag if `e`, sorted.
fn tags(b: &[u8], e: bool) -> (Option<u64>, Vec<u64>) {
    let (mut i, mut out) = (0, vec![]);
    let v = if e { Some(varint(b, &mut i)) } else { None };
    while i < b.len() {
        let k = varint(b, &mut i);
        out.push(k >> 3);
        let n = varint(b, &mut i);
        match k & 7 { 0 => (), 2 => i += n as usize, w => panic!("wire type {}", w) }
    }
    assert_eq!(i, b.len());
    out.sort();
    (v, out)
}
fn main() {
    let mut bad = 0;
    for (n, f) in CHECKS {
        let r = std::panic::catch_unwind(f);
        match r { Ok(k) => println!("ok {} {}", n, k), Err(e) => { bad += 1;
            println!("bad {} {}", n, e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace('\\n', " ")) } }
    }
}
'''


def raw(n):
    return n[2:] if n.startswith('r#') else n


def snake(s):
    return ''.join(('_' if i and c.isupper() else '') + c.lower() for i, c in enumerate(raw(s)))


class Field:
    def __init__(self, name, tag, ty, sample, hashes, attrs):
        self.name, self.tag, self.ty, self.sample, self.hashes, self.attrs = name, tag, ty, sample, hashes, attrs
        self.tag_text = 'tag = %d' % tag
        self.extra = []       # Whole attributes besides.

    def has(self, a):
        return any(x == a or x == a + ' = true' for x in self.attrs)


class Body:
    """A struct or variant."""
    def __init__(self, kind, fields):
        self.kind, self.fields, self.attrs, self.extra = kind, fields, [], []
        self.name = self.tag = self.tag_text = None
        self.cache = self.runtime = None      # Names given here.
        self.no_cache = False


class Def:
    def __init__(self):
        self.attrs, self.extra, self.args, self.bodies, self.generics = [], [], [], [], []
        self.item = None
        self.cache = self.runtime = None
        self.no_cache = False
        self.prefix = 'new'
        self.where = ''


class Gen:
    def __init__(self, r):
        self.r = r

    def maybe(self, p):
        return self.r.random() < p

    def flag(self, a):
        return self.r.choice([a, a, a + ' = true'])

    def fields(self, d, n, kind):
        r, out, used = self.r, [], set()
        names = r.sample(FIELD_NAMES, n)
        for i in range(n):
            tag = self.tag(used)
            attrs = []
            if d.generics and (i < len(d.generics)):
                ty, (s, h) = d.generics[i], ('5', 1)
                if d.state and self.bounded(d, ty) and self.maybe(.4):
                    ty, s, h = 'List<%s>' % ty, '{ let mut l = List::default(); l.push(5); l }', 1
                elif not d.state and self.maybe(.4):
                    ty, s = 'Vec<%s>' % ty, 'vec![5, 0]'
            elif d.state and self.maybe(.8):
                ty = r.choice(list(STATE))
                s, h = STATE[ty]
            elif d.nometa and self.maybe(.3):
                ty = r.choice(list(NOMETA))
                s, h = NOMETA[ty]
                if d.state:
                    attrs.append(self.flag('no_state'))
            else:
                ty = r.choice(list(PLAIN))
                s, h = PLAIN[ty]
                if d.state:
                    attrs.append(self.flag('no_state'))
            if d.hash and not h:
                attrs.append(self.flag('no_hash'))
            elif self.maybe(.12):
                attrs.append(r.choice([self.flag('no_hash'), self.flag('no_eq_hash'), 'no_hash = false', 'no_eq_hash = false']))
            if self.maybe(.1):
                attrs.append('csharp_name = "Other%d"' % i)
            if not d.state and self.maybe(.06):
                attrs.append(r.choice(['no_state', 'no_state = false']))
            out.append(Field(names[i] if kind == 'named' else None, tag, ty, s, h, attrs))
        return out

    def bounded(self, d, g):
        return d.bounds.get(g, '') .endswith('steit::state::State')

    def tag(self, used):
        r = self.r
        while True:
            t = r.choice([r.randrange(8), r.randrange(40), r.randrange(3000), r.randrange(TAG_MAX + 1), TAG_MAX, TAG_MAX - 1])
            if t not in used:
                used.add(t)
                return t

    def body_attrs(self, d, b):
        r = self.r
        if self.maybe(.15):
            free = [t for t in range(1000, 1005) if t not in {f.tag for f in b.fields}]
            b.attrs.append('reserved_tags(%s)' % ', '.join(map(str, free[:r.randrange(1, 4)])))
        variant = b.name is not None
        if d.caches and self.maybe(.1) and not b.no_cache:
            b.attrs.append(self.flag('no_size_cache'))
            b.no_cache = True
        if b.kind != 'tuple' and self.maybe(.15):
            b.cache = r.choice(['sc', 'cache_of_size', 'r#as'])
            b.attrs.append('size_cache_renamed = "%s"' % b.cache)
        if b.kind != 'tuple' and self.maybe(.15):
            b.runtime = r.choice(['rt', 'runtime_of_this'])
            b.attrs.append('runtime_renamed = "%s"' % b.runtime)
            if d.state and b.fields and b.kind == 'named' and self.maybe(.5):
                b.fields[0].name = 'runtime'
        if b.cache and len(b.fields) > 1 and b.kind == 'named' and self.maybe(.5):
            b.fields[1].name = 'size_cache'
        if self.maybe(.1):
            b.attrs.append('csharp_name = "Cs"')

    def definition(self, i):
        r, d = self.r, Def()
        d.name = 'T%d' % i
        mode = r.choice(['State', 'State', 'State', 'Both', 'Both', 'Serialize', 'Deserialize', 'None'])
        d.state = mode == 'State'
        d.ser = mode in ('State', 'Both', 'Serialize')
        d.de = mode in ('State', 'Both', 'Deserialize')
        d.args = {'State': ['State'] + r.choice([[], [], ['Serialize'], ['Deserialize', 'Serialize']]), 'Both': ['Serialize', 'Deserialize'],
                  'Serialize': ['Serialize'], 'Deserialize': ['Deserialize'], 'None': []}[mode]
        d.eq = self.maybe(.7)
        d.hash = self.maybe(.4)
        d.args += ['PartialEq'] * d.eq + ['Hash'] * d.hash
        d.nometa = d.de and self.maybe(.15)
        if d.nometa:
            d.attrs.append(self.flag('no_meta'))
        d.meta = d.de and not d.nometa
        d.ctors = d.de
        d.setters = d.state
        if not d.ctors and self.maybe(.5):
            d.attrs.append(self.flag('derive_ctors'))
            d.ctors = True
        if d.ctors and not d.setters and self.maybe(.5):
            d.attrs.append(self.flag('derive_setters'))
            d.setters = True
        d.default = d.de
        if not d.default and d.ctors and self.maybe(.5):
            d.args.append('Default')
            d.default = True
        r.shuffle(d.args)
        if self.maybe(.2) and d.ctors:
            d.prefix = r.choice(['make', 'create_it', 'r'])
            d.attrs.append('ctor_prefix = "%s"' % d.prefix)
        d.caches = d.ser
        if d.ser and self.maybe(.12):
            d.attrs.append(self.flag('no_size_cache'))
            d.caches = False
        d.bounds = {}
        if self.maybe(.25):
            d.generics = r.choice([['A'], ['A', 'B'], ['H'], ['T', 'R'], ['W', 'H'], ['Self_', 'S']])
            for g in d.generics:
                d.bounds[g] = r.choice(['', '', ': Clone', ': steit::state::State' if d.state else ': Copy'])
            if self.maybe(.3):
                d.where = 'where %s: Copy ' % d.generics[0]
        d.enum = self.maybe(.45)
        no_names = False
        if d.enum:
            n = r.randrange(1, 6)
            used = {0}
            for j, name in enumerate(r.sample(VARIANT_NAMES, n)):
                kind, m = self.shape(d, j == 0)
                b = Body(kind, self.fields(d, m, kind) if j == 0 or not d.generics else self.nongeneric(d, m, kind))
                b.name, b.tag = name, 0 if j == 0 else self.tag(used)
                b.tag_text = 'tag = %d' % b.tag
                b.no_cache = not d.caches
                self.body_attrs(d, b)
                d.bodies.append(b)
            r.shuffle(d.bodies)
            if self.maybe(.2):
                d.attrs.append('reserved_tags(%s)' % ', '.join(str(t) for t in (2001, 2002, 2003) if t not in used))
            if self.maybe(.1):
                d.attrs.append('csharp_name = "CsEnum"')
        else:
            kind, m = self.shape(d, True)
            b = Body(kind, self.fields(d, m, kind))
            b.no_cache = not d.caches
            self.body_attrs(d, b)
            if not d.caches and d.ser:
                # `no_size_cache` is among the attributes of the type already.
                b.attrs = [a for a in b.attrs if 'no_size_cache' not in a]
            d.bodies.append(b)
        if d.enum and self.maybe(.2) and all(b.kind != 'tuple' for b in d.bodies):
            d.cache, d.runtime = 'enum_cache', 'enum_rt'
            d.attrs += ['size_cache_renamed = "enum_cache"', 'runtime_renamed = "enum_rt"']
        r.shuffle(d.attrs)
        return d

    def nongeneric(self, d, m, kind):
        g, d.generics = d.generics, []
        try:
            return self.fields(d, m, kind)
        finally:
            d.generics = g

    def shape(self, d, all_params):
        n = self.r.randrange(0, 6)
        if all_params:
            n = max(n, len(d.generics))
        return (self.r.choice(['named', 'named', 'tuple', 'unit'] if n == 0 else ['named', 'named', 'tuple']), n)

    # ------------------------------------------------------------ text

    def steit(self, items, extra):
        """Attributes, together or apart."""
        r, out = self.r, []
        items = list(items)
        while items:
            k = r.randrange(1, len(items) + 1)
            part, items = items[:k], items[k:]
            out.append('#[steit(%s%s)]' % (', '.join(part), r.choice(['', '', ','])))
        out += extra
        if self.maybe(.1):
            out.insert(r.randrange(len(out) + 1), r.choice(['/// A comment.', '#[allow(dead_code)]', '#[doc(hidden)]']))
        return ''.join(o + '\n' for o in out)

    def field_text(self, f, public):
        items = ([f.tag_text] if f.tag_text else []) + f.attrs
        self.r.shuffle(items)
        return self.steit(items, f.extra) + ('pub ' if public else '') + ('%s: ' % f.name if f.name else '') + f.ty + ',\n'

    def body_text(self, b, public):
        if b.kind == 'unit':
            return ''
        inner = ''.join(self.field_text(f, public) for f in b.fields)
        return (' {\n%s}' if b.kind == 'named' else '(\n%s)') % inner

    def text(self, d):
        if d.item:
            return d.item
        own = d.bodies[0].attrs if not d.enum and d.bodies else []
        g = '<%s>' % ', '.join(x + d.bounds.get(x, '') for x in d.generics) if d.generics else ''
        o = '#[steit_derive(%s)]\n' % ', '.join(d.args)
        o += self.steit(d.attrs + own, d.extra + (d.bodies[0].extra if not d.enum and d.bodies else []))
        if not d.enum:
            b = d.bodies[0]
            tail = {'named': '', 'unit': ';', 'tuple': ';'}[b.kind]
            if b.kind == 'named':
                return o + 'pub struct %s%s %s%s\n' % (d.name, g, d.where, self.body_text(b, True))
            return o + 'pub struct %s%s%s %s%s\n' % (d.name, g, self.body_text(b, True), d.where, tail)
        vs = ''
        for b in d.bodies:
            items = ([b.tag_text] if b.tag_text else []) + b.attrs
            self.r.shuffle(items)
            vs += self.steit(items, b.extra) + b.name + self.body_text(b, False) + ',\n'
        return o + 'pub enum %s%s %s{\n%s}\n' % (d.name, g, d.where, vs)


def hidden(d, b):
    """Names of the fields that are added: (cache or None, runtime or None)."""
    return ((b.cache or d.cache or 'size_cache') if d.ser and not b.no_cache else None, (b.runtime or d.runtime or 'runtime') if d.state else None)


def literal(d, b, values, concrete):
    head = 'T::' + b.name if b.name else 'T'
    c, rt = hidden(d, b)
    extra = [(c, 'SizeCache::new()')] * bool(c) + [(rt, 'Runtime::new()')] * bool(rt)
    if b.kind == 'tuple':
        return '%s { %s }' % (head, ', '.join('%d: %s' % (i, v) for i, v in enumerate(list(values) + [e for _, e in extra])))
    return '%s { %s }' % (head, ', '.join(['%s: %s' % (f.name, v) for f, v in zip(b.fields, values)] + ['%s: %s' % e for e in extra]))


def pattern(d, b):
    """Matches the body with exactly its fields."""
    head = 'T::' + b.name if b.name else 'T'
    c, rt = hidden(d, b)
    if b.kind == 'tuple':
        return '%s { %s }' % (head, ', '.join('%d: %s' % (i, 'v%d' % i if i < len(b.fields) else '_') for i in range(len(b.fields) + bool(c) + bool(rt))))
    return '%s { %s }' % (head, ', '.join(['%s: v%d' % (f.name, i) for i, f in enumerate(b.fields)] + ['%s: _' % x for x in (c, rt) if x]))


def check_code(d):
    """A function that looks at values of the definition; returns the number of observations."""
    o = ['pub fn check() -> u32 {', 'let mut n = 0u32;']
    args = 'Runtime::new()' if d.state else ''
    o.append('type T = %s%s;' % (d.name, '<%s>' % ', '.join('u8' for _ in d.generics) if d.generics else ''))

    def expect(expr, b, want, what):
        """Every field has the wanted text of a value (None: default)."""
        c = ['match &%s { %s => {' % (expr, pattern(d, b))]
        for i, f in enumerate(b.fields):
            ty = 'u8' if f.ty in d.generics else re.sub(r'\b(%s)\b' % '|'.join(d.generics), 'u8', f.ty) if d.generics else f.ty
            c.append('{ let w: %s = %s; assert!(*v%d == w, "%s: field %s"); n += 1; }' % (
                ty, want[i] if want[i] else 'Default::default()', i, what, f.name or i))
        c.append('}')
        if d.enum and len(d.bodies) > 1:
            c.append('_ => panic!("%s: another variant") ,' % what)
        c.append('}')
        o.append(' '.join(c))
    for b in d.bodies:
        samples = [f.sample for f in b.fields]
        o.append('{ let lit = || { %s };' % literal(d, b, samples, True))
        expect('lit()', b, samples, 'literal %s' % (b.name or ''))
        if d.ser:
            o.append('let bytes = lit().to_bytes(); assert_eq!(tags(&bytes, %s), (%s, vec!%s), "tags"); n += 1;' % (
                str(d.enum).lower(), 'Some(%d)' % b.tag if d.enum else 'None', sorted(f.tag for f in b.fields)))
            if d.de:
                o.append('let back = <T as Deserialize>::deserialize(&mut Reader::new(&bytes[..])).unwrap();')
                expect('back', b, samples, 'decoded')
        if d.eq:
            o.append('assert!(lit() == lit(), "equal"); n += 1;')
        for i, f in enumerate(b.fields):
            other = literal(d, b, [s if j != i else 'Default::default()' for j, s in enumerate(samples)], True)
            if d.eq:
                o.append('assert_eq!(lit() == %s, %s, "equality sees field %s"); n += 1;' % (other, str(f.has('no_eq_hash')).lower(), f.name or i))
            if d.hash:
                o.append('assert_eq!(hash(&lit()) == hash(&%s), %s, "the hash sees field %s"); n += 1;' % (
                    other, str(f.has('no_eq_hash') or f.has('no_hash')).lower(), f.name or i))
        if d.ctors:
            ctor = 'T::%s%s(%s)' % (d.prefix, '_' + snake(b.name) if d.enum else '', args)
            expect(ctor, b, [None] * len(b.fields), 'constructor %s' % (b.name or ''))
            if d.ser:
                always = [f.tag for f in b.fields if f.ty in WRITTEN]
                o.append('assert_eq!(tags(&%s.to_bytes(), %s).1, { let x: &[u64] = &%s; x.to_vec() }, "tags of default fields"); n += 1;' % (ctor, str(d.enum).lower(), sorted(always)))
            if d.setters:
                for i, f in enumerate(b.fields):
                    setter = 'set_%s%s' % (snake(b.name) + '_' if d.enum else '', raw(f.name) if f.name else 'f%d' % i)
                    # From the default variant, too.
                    for start in ([ctor] if not d.enum else [ctor, 'T::%s(%s)' % (d.prefix, args)]):
                        o.append('{ let mut v = %s; v.%s(%s);' % (start, setter, f.sample))
                        expect('v', b, [f.sample if j == i else None for j in range(len(b.fields))], setter)
                        if d.ser:
                            o.append('assert_eq!(tags(&v.to_bytes(), %s), (%s, vec!%s), "tags after %s"); n += 1;' % (
                                str(d.enum).lower(), 'Some(%d)' % b.tag if d.enum else 'None', sorted(set([f.tag] + always)), setter))
                        o.append('}')
                    if d.state and not f.has('no_state'):
                        o.append('{ let mut v = %s; v.%s_with(|_| %s);' % (ctor, setter, f.sample))
                        expect('v', b, [f.sample if j == i else None for j in range(len(b.fields))], setter + '_with')
                        o.append('}')
        if d.default and (not d.enum or b.tag == 0):
            expect('T::default()', b, [None] * len(b.fields), 'default')
            if d.enum:
                expect('T::%s(%s)' % (d.prefix, args), b, [None] * len(b.fields), 'default constructor')
        o.append('}')
    if d.meta:
        o.append('assert_eq!(<T as HasMeta>::NAME.rust, "%s"); n += 1;' % raw(d.name))
    o.append('n }')
    return '\n'.join(o) + '\n'


# ---------------------------------------------------------------- violations of the rules

def all_fields(d):
    return [(b, f) for b in d.bodies for f in b.fields]


def pick(r, xs):
    return r.choice(xs) if xs else None


UNKNOWN = ['bogus', 'tags', 'Tag', 'bogus = 3', 'bogus(1, 2)', 'bogus = "x"', 'tag_', 'Reserved_tags(1)', 'hash', 'default', 'a::b', 'State']


def m_dup_field(d, r):
    bs = [b for b in d.bodies if len(b.fields) > 1]
    if not bs:
        return
    f, g = r.sample(r.choice(bs).fields, 2)
    g.tag_text = f.tag_text
    return r'duplicate tag %d\b' % f.tag


def m_dup_variant(d, r):
    if not d.enum or len(d.bodies) < 2:
        return
    a, b = r.sample(d.bodies, 2)
    if b.tag == 0:
        a, b = b, a
    b.tag_text = a.tag_text
    return r'duplicate tag %d\b' % a.tag


def m_reserved_field(d, r):
    x = pick(r, all_fields(d))
    if not x:
        return
    b, f = x
    tags = [5000, 5001, 5002][:r.randrange(4)] + [f.tag]
    r.shuffle(tags)
    b.attrs.append('reserved_tags(%s)' % ', '.join(map(str, tags)))
    return r'tag %d has been reserved' % f.tag


def m_reserved_variant(d, r):
    if not d.enum:
        return
    b = r.choice(d.bodies)
    tags = [5000, 5001, 5002][:r.randrange(4)] + [b.tag]
    r.shuffle(tags)
    d.attrs.append('reserved_tags(%s)' % ', '.join(map(str, tags)))
    return r'tag %d has been reserved' % b.tag


def some_tag(d, r):
    xs = [f for _, f in all_fields(d)] + (d.bodies if d.enum else [])
    return pick(r, xs)


def m_missing(d, r):
    x = some_tag(d, r)
    if not x:
        return
    x.tag_text = None
    return r'expected a valid tag'


def m_range(d, r):
    x = some_tag(d, r)
    if not x:
        return
    x.tag_text = 'tag = %s' % r.choice(['536870912', '536870913', '0x20000000', '1_000_000_000', '4294967295', '0xffff_ffff', '536870912u32', '3_000_000_000'])
    return r'tag must not be greater than 2\^29 - 1'


def m_not_int(d, r):
    x = some_tag(d, r)
    if not x:
        return
    x.tag_text = 'tag = %s' % r.choice(['4294967296', '99999999999999999999999', '"1"', '1.5', 'true', "'a'", 'b"1"', '18446744073709551616'])
    return r'expected `tag` attribute to be an integer'


def m_not_literal(d, r):
    x = some_tag(d, r)
    if not x:
        return
    x.tag_text = r.choice(['tag = -1', 'tag = ONE', 'tag = ', 'tag 3', '= 3', 'tag = 1 + 2', 'tag == 3', 'tag: 3', 'tag = {3}'])
    return r'expected|unexpected'


def m_tag_shape(d, r):
    x = some_tag(d, r)
    if not x:
        return
    x.tag_text = r.choice(['tag', 'tag(%d)' % x.tag])
    return r'unknown steit attribute `tag`|expected a valid tag'


def m_no_default(d, r):
    if not d.enum:
        return
    b = next(b for b in d.bodies if b.tag == 0)
    b.tag_text = 'tag = %d' % r.choice([t for t in (1, 7, 900, TAG_MAX) if t not in {x.tag for x in d.bodies}])
    return r'expected a variant with tag 0 as the default variant'


def m_zero(d, r):
    if not d.enum or d.generics:
        return
    d.bodies = []
    return r'zero variants'


def m_unknown(d, r):
    a = r.choice(UNKNOWN)
    k = r.randrange(3)
    if k == 0:
        x = pick(r, all_fields(d))
        if not x:
            return
        a = r.choice([a, 'steit_owned', 'no_meta', 'size_cache_renamed = "x"', 'reserved_tags(3)', 'ctor_prefix = "x"', 'no_size_cache'])
        x[1].attrs.append(a)
    elif k == 1 and d.enum:
        a = r.choice([a, 'no_hash', 'no_state', 'ctor_prefix = "x"', 'steit_owned', 'no_meta', 'derive_ctors', 'no_eq_hash = true'])
        r.choice(d.bodies).attrs.append(a)
    else:
        a = r.choice([a, 'no_hash', 'no_state', 'no_eq_hash = true', 'tag = 3' if not d.enum else 'no_eq_hash'])
        d.attrs.append(a)
    return r'unknown steit attribute `%s`' % re.match(r'[\w:]+', a).group(0)


def m_literal(d, r):
    a = r.choice(['5', '"tag"', 'true', '1.5', 'b"x"'])
    x = pick(r, [f for _, f in all_fields(d)] + (d.bodies if d.enum else []) + [d])
    x.attrs.append(a)
    return r'unexpected literal in steit attributes'


def m_not_list(d, r):
    x = pick(r, [f for _, f in all_fields(d)] + (d.bodies if d.enum else []) + [d])
    x.extra.append(r.choice(['#[steit]', '#[steit = "tag"]', '#[steit = 3]']))
    return r'expected `#\[steit\(\.\.\.\)\]`'


def m_syntax(d, r):
    x = pick(r, [f for _, f in all_fields(d)] + (d.bodies if d.enum else []) + [d])
    x.extra.append(r.choice(['#[steit(no_state; no_hash)]', '#[steit(, x)]', '#[steit{no_hash no_hash}]', '#[steit(csharp_name = )]', '#[steit(csharp_name "x")]', '#[steit(a = b = 3)]']))
    return r'expected|unexpected'


def m_dup_attr(d, r):
    k = r.randrange(3)
    x = pick(r, all_fields(d))
    if k == 0 and x or not (d.enum or d.ser or d.ctors):
        if not x:
            return
        f = x[1]
        a = r.choice(['tag', 'tag', 'csharp_name', 'no_hash', 'no_eq_hash', 'no_state'])
        if a == 'tag':
            f.attrs.append('tag = %d' % r.choice([f.tag, (f.tag + 100) % TAG_MAX]))
        elif a == 'csharp_name':
            f.attrs = [y for y in f.attrs if not y.startswith(a)] + ['csharp_name = "X"', r.choice(['csharp_name = "X"', 'csharp_name = "Y"'])]
        else:
            f.attrs = [y for y in f.attrs if not y.startswith(a)] + [r.choice([a, a + ' = true', a + ' = false']) for _ in range(2)]
        return r'duplicate steit attribute `%s`' % a
    if k == 1 and d.enum:
        b = r.choice(d.bodies)
        a = r.choice(['tag', 'csharp_name', 'no_size_cache', 'size_cache_renamed', 'runtime_renamed'])
        y = {'tag': 'tag = %d' % b.tag, 'no_size_cache': 'no_size_cache'}.get(a, '%s = "zz"' % a)
        b.attrs = [z for z in b.attrs if not z.startswith(a)] + [y] * (1 if a == 'tag' else 2)
        return r'duplicate steit attribute `%s`' % a
    a = r.choice(['csharp_name', 'ctor_prefix', 'no_meta', 'derive_ctors', 'derive_setters', 'no_size_cache', 'size_cache_renamed', 'steit_owned', 'runtime_renamed'])
    for x in [d] + ([] if d.enum else d.bodies):
        x.attrs = [z for z in x.attrs if not z.startswith(a)]
    if a in ('csharp_name', 'ctor_prefix', 'size_cache_renamed', 'runtime_renamed'):
        d.attrs += ['%s = "zz"' % a] * 2
    else:
        d.attrs += [r.choice([a, a + ' = true', a + ' = false']) for _ in range(2)]
    return r'duplicate steit attribute `%s`' % a


def m_value_type(d, r):
    x = pick(r, all_fields(d))
    if x and r.random() < .5:
        a, v, w = r.choice([('no_state', '1', 'a boolean'), ('no_hash', '"x"', 'a boolean'), ('no_eq_hash', "'c'", 'a boolean'),
                            ('csharp_name', '5', 'a string'), ('csharp_name', 'true', 'a string'), ('csharp_name', 'b"x"', 'a string')])
        x = x[1]
    elif d.enum and r.random() < .5:
        a, v, w = r.choice([('csharp_name', '5', 'a string'), ('no_size_cache', '0', 'a boolean'), ('size_cache_renamed', 'true', 'a string'),
                            ('runtime_renamed', '1', 'a string')])
        x = r.choice(d.bodies)
    else:
        a, v, w = r.choice([('csharp_name', '5', 'a string'), ('no_size_cache', '0', 'a boolean'), ('size_cache_renamed', 'true', 'a string'),
                            ('ctor_prefix', '1', 'a string'), ('no_meta', '"true"', 'a boolean'), ('derive_ctors', '1', 'a boolean'),
                            ('derive_setters', '"no"', 'a boolean'), ('steit_owned', '2.5', 'a boolean')])
        x = d
        if not d.enum:
            d.bodies[0].attrs = [z for z in d.bodies[0].attrs if not z.startswith(a)]
    x.attrs = [z for z in x.attrs if not z.startswith(a)] + ['%s = %s' % (a, v)]
    return r'expected `%s` attribute to be %s' % (a, w)


def m_reserved_shape(d, r):
    x = pick(r, (d.bodies if d.enum else []) + [d])
    for y in [x] + ([] if d.enum else d.bodies):
        y.attrs = [z for z in y.attrs if not z.startswith('reserved')]
    a, w = r.choice([('reserved_tags("x")', r'expected `reserved_tags` attribute to be a list of integer'), ('reserved_tags(2, a)', r'expected `reserved_tags` attribute to be a literal'),
                     ('reserved_tags(true, 3)', r'expected `reserved_tags` attribute to be a list of integer'), ('reserved_tags(4294967296)', r'expected `reserved_tags` attribute to be a list of integer'),
                     ('reserved_tags(1 = 2)', r'expected|unexpected'), ('reserved_tags = 5', r'unknown steit attribute `reserved_tags`'),
                     ('reserved_tags', r'unknown steit attribute `reserved_tags`'), ('reserved_tags(a(3))', r'expected `reserved_tags` attribute to be a literal')])
    x.attrs.append(a)
    return w


def m_item(d, r):
    if r.random() < .4:
        d.item = '#[steit_derive(%s)]\npub union U { #[steit(tag = 0)] a: u8, #[steit(tag = 1)] b: u8 }\n' % ', '.join(d.args)
        return r'unions are not supported'
    d.item = '#[steit_derive(%s)]\n' % ', '.join(d.args) + r.choice([
        'pub fn f() {}', 'pub trait Tr {}', 'pub type X = u8;', 'pub const X: u8 = 3;', 'pub static X: u8 = 3;', 'pub mod inner {}', 'impl SIn2 {}', 'use std::fmt;']) + '\nstruct SIn2;\n'
    return r'expected'


def m_const_generic(d, r):
    if d.enum or not d.bodies[0].fields or d.generics:
        return
    d.generics = ['N']
    d.bounds = {}
    d.item = Gen(r).text(d).replace('pub struct %s<N>' % d.name, 'pub struct %s<const N: usize>' % d.name)
    return r'const generics are not supported'


META_TYPES = [('(u8, u16)', 'this type is not supported'), ('fn(u8) -> u8', 'this type is not supported'), ('Box<[u8]>', 'this type is not supported'),
              ('*const u8', 'this type is not supported'), ('Box<dyn std::fmt::Debug>', 'this type is not supported'), ('()', 'this type is not supported'),
              ('<u8 as std::ops::Add>::Output', 'fully-qualified types are not supported'), ('Box<Vec<(u8,)>>', 'this type is not supported'),
              ('Vec<<u8 as std::ops::Add>::Output>', 'fully-qualified types are not supported'), ('[(u8, u8); 2]', 'this type is not supported'),
              ('Box<dyn Fn(u8)>', 'this type is not supported'), ('Option<fn()>', 'this type is not supported'),
              ('std::iter::Map<u8, Item = u8>', 'this kind of type argument is not supported'), ('Arr<{ 3 }>', 'this kind of type argument is not supported|expected one of'),
              ('!', 'this type is not supported')]


def m_meta_type(d, r):
    x = pick(r, all_fields(d))
    if not x or not d.meta or d.generics:
        return
    x[1].ty, w = r.choice(META_TYPES)
    return w


def m_arg(d, r):
    k = r.randrange(4)
    if k == 0:
        d.args.insert(r.randrange(len(d.args) + 1), 'Bogus')
        return r'cannot find derive macro `Bogus`'
    if k == 1 and d.args:
        a = r.choice(d.args)
        d.args.append(a)
        return r'duplicate steit attribute `%s`' % a
    if k == 2:
        d.args.append(r.choice(['5', '"State"']))
        return r'literal'
    d.args.append(r.choice(['State = 3', 'Serialize(x)', 'a b', '=', 'Debug,,Clone']))
    return r'expected|unexpected|arguments|traits in `#\[derive'


# After expansion

NO_TRAIT = ['f32', 'f64', 'char', 'usize', 'isize', 'u128', 'i128', 'std::time::Duration', 'std::cell::Cell<u8>', 'Nothing']


def m_no_trait(d, r):
    x = pick(r, all_fields(d))
    if not x or not (d.ser or d.de) or d.generics:
        return
    b, f = x
    f.ty = r.choice(NO_TRAIT)
    if d.state and not f.has('no_state'):
        f.ty = r.choice([f.ty, 'String', 'Vec<u8>', 'Option<u8>', '[u8; 3]', 'PIn'])
    if f.ty not in ('String', 'Vec<u8>', 'Option<u8>', '[u8; 3]', 'PIn'):
        f.attrs = [a for a in f.attrs if not a.startswith('no_hash') or a == 'no_hash = false']
    return re.escape(f.ty.split('::')[-1].split('<')[0])


def m_no_meta_type(d, r):
    x = pick(r, all_fields(d))
    if not x or not d.meta or d.generics:
        return
    b, f = x
    if d.state and not f.has('no_state'):
        f.attrs = [a for a in f.attrs if not a.startswith('no_state')] + ['no_state']
    f.ty = 'HashMap<u8, String>'
    if d.hash and not f.has('no_hash') and not f.has('no_eq_hash'):
        f.attrs = [a for a in f.attrs if not a.startswith('no_hash')] + ['no_hash']
    return r'HasMeta'


def m_added_name(d, r):
    bs = [b for b in d.bodies if b.kind == 'named' and b.fields and any(hidden(d, b))]
    if not bs:
        return
    b = r.choice(bs)
    name = r.choice([h for h in hidden(d, b) if h])
    r.choice(b.fields).name = name
    return r'`%s` (is already declared|specified more than once|bound more than once)' % re.escape(name)


EXPAND = [m_dup_field, m_dup_variant, m_reserved_field, m_reserved_variant, m_missing, m_range, m_not_int, m_not_literal, m_tag_shape, m_no_default,
          m_zero, m_unknown, m_unknown, m_literal, m_not_list, m_syntax, m_dup_attr, m_dup_attr, m_value_type, m_reserved_shape, m_item, m_const_generic,
          m_meta_type, m_arg]
LATE = [m_no_trait, m_no_meta_type, m_added_name]

# ---------------------------------------------------------------- fixed oddities, all valid

ODD = [
    ('names that differ only in case', '#[steit_derive(State)] pub struct FooBar { #[steit(tag = 0)] a: u8 } #[steit_derive(State)] pub struct fooBar { #[steit(tag = 0)] a: u8 }'),
    ('raw names', '#[steit_derive(State, PartialEq, Hash)] pub enum r#match { #[steit(tag = 0)] r#type { #[steit(tag = 0)] r#fn: u8 }, #[steit(tag = 2)] r#loop(#[steit(tag = 7)] List<u8>,) }'
     ' pub fn use_it() { let mut m = r#match::new_type(Runtime::new()); m.set_type_fn(3); m.set_loop_f0(List::default()); }'),
    ('a lifetime', "#[steit_derive(Serialize)] pub struct Lt<'a> { #[steit(tag = 0)] a: &'a str, #[steit(tag = 1)] b: &'a u32 }"),
    ('defaults of type parameters', '#[steit_derive(Serialize, Deserialize)] pub struct W<T: Clone = u8> where T: Copy { #[steit(tag = 0)] a: T, #[steit(tag = 1)] b: Vec<T> }'),
    ('recursion', '#[steit_derive(Serialize, Deserialize)] pub struct W { #[steit(tag = 3)] c: Option<Box<W>>, #[steit(tag = 4)] d: Vec<W> }'),
    ('mutual recursion', '#[steit_derive(State)] pub struct W { #[steit(tag = 3)] c: List<E> } #[steit_derive(State)] pub enum E { #[steit(tag = 0)] N, #[steit(tag = 1)] W(#[steit(tag = 0)] Box<W>) }'),
    ('own constructor', '#[steit_derive(PartialEq, Default)] pub struct W { #[steit(tag = 0)] a: u8 } impl W { fn new() -> Self { W { a: 3 } } }'
     ' pub fn use_it() { assert!(W::default() == W { a: 3 }); }'),
    ('inside a function', 'pub fn f() { #[steit_derive(State)] struct W { #[steit(tag = 0)] a: u8 } W::new(Runtime::new()).set_a(3); }'),
    ('private and public', '#[steit_derive(State)] struct P { #[steit(tag = 0)] pub(super) a: u8, #[steit(tag = 1)] pub(crate) b: Q } #[steit_derive(State)] pub(crate) struct Q;'),
    ('no standard prelude names', '#[steit_derive(State, PartialEq, Hash)] pub struct W { #[steit(tag = 0)] Option: u8, #[steit(tag = 1)] Ok: u8, #[steit(tag = 2)] Some: Maybe<u8> }'),
    ('many fields', '#[steit_derive(State, PartialEq, Hash)] pub struct W { %s }' % ', '.join('#[steit(tag = %d)] f%d: u%d' % (i * 3, i, [8, 16, 32, 64][i % 4]) for i in range(60))),
    ('many variants', '#[steit_derive(State, PartialEq, Hash)] pub enum W { %s }' % ', '.join('#[steit(tag = %d)] V%d' % (i, i) for i in range(80))),
    ('the largest tags', '#[steit_derive(State)] pub enum W { #[steit(tag = 0)] A, #[steit(tag = 536870911)] B { #[steit(tag = 536870911)] a: u8, #[steit(tag = 0x1fff_fffe)] b: u8, #[steit(tag = 0b11)] c: u8, #[steit(tag = 1_0)] d: u8, #[steit(tag = 12u32)] e: u8 } }'),
    ('reserved in several places', '#[steit_derive(State)] #[steit(reserved_tags(1, 2))] #[steit(reserved_tags(3), reserved_tags())] pub struct W { #[steit(tag = 0)] a: u8, #[steit(tag = 4)] b: u8 }'),
    ('empty attributes', '#[steit_derive()] #[steit()] pub struct W { #[steit(tag = 0)] #[steit()] a: u8 }'),
    ('nothing of steit', '#[steit_derive(Clone, Debug)] pub struct W { #[steit(tag = 0)] a: f32, #[steit(tag = 1)] b: (u8, fn(u8)) }'),
    ('no metadata', '#[steit_derive(Serialize, Deserialize)] #[steit(no_meta)] pub struct W { #[steit(tag = 0)] a: HashMap<u8, Vec<HashMap<String, i8>>> }'),
    ('unused type aliases', 'type A = List<u8>; type B<T> = Map<u8, T>; #[steit_derive(State)] pub struct W { #[steit(tag = 0)] a: A, #[steit(tag = 1)] b: B<A> }'),
]
# Types that are called like something that the generated code imports (F34).
IMPORTED = ['State', 'Runtime', 'Reader', 'Serialize', 'Deserialize', 'SizeCache', 'WireType', 'HasWireType', 'Hash', 'Hasher', 'Read', 'LogEntryKind',
            'HasMeta', 'NameMeta', 'TypeMeta', 'FieldMeta', 'StructMeta', 'EnumMeta', 'MessageMeta', 'MetaLink', 'FieldTypeMeta', 'VariantMeta', 'io', 'steit']


class Source:
    """A crate of modules, with the lines of each."""
    def __init__(self, head):
        self.o, self.line, self.ranges = [head], head.count('\n') + 1, []

    def add(self, name, text):
        t = 'pub mod %s { use super::*;\n%s\n}\n' % (name, text)
        n = t.count('\n')
        self.ranges.append((self.line, self.line + n, name))
        self.line += n
        self.o.append(t)

    def text(self):
        return ''.join(self.o)


def cargo(name, text, build):
    """Compiles a program; (messages, path of the executable or None)."""
    d = os.path.join(DIR, 'src', 'bin')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, name + '.rs')
    open(path, 'w').write(text)
    try:
        p = subprocess.run(['cargo', 'build' if build else 'check', '--offline', '--quiet', '--message-format=json', '--bin', name], cwd=DIR,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600,
                           env=vlib.env(CARGO_TARGET_DIR=os.path.join(vlib.BUILD, 'target-c13'), RUSTFLAGS='-Awarnings'))
    finally:
        os.remove(path)
    msgs, exe, mine = [], None, False
    for line in p.stdout.decode().splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-message' and m['target']['name'] == name:
            mine = True
            if m['message']['level'] == 'error':
                msgs.append(m['message'])
        elif m.get('reason') == 'compiler-artifact' and m.get('executable') and m['target']['name'] == name:
            exe = m['executable']
        elif m.get('reason') == 'compiler-artifact' and m['target']['name'] == name:
            mine = True
        elif m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
            raise vlib.Harness('steit does not build: ' + m['message'].get('rendered', '')[:3000])
    if p.returncode != 0 and not msgs:
        raise vlib.Harness('cargo: ' + p.stderr.decode()[-3000:])
    return msgs, exe


def lines_of(m):
    """Lines that a message is about, going outwards through macros."""
    out = []

    def span(s):
        while s:
            if s['file_name'].endswith('.rs') and 'src/bin' in s['file_name']:
                out.append(s['line_start'])
            s = (s.get('expansion') or {}).get('span')
    for s in m['spans']:
        span(s)
    for c in m.get('children', []):
        for s in c['spans']:
            span(s)
    return out


def by_module(src, msgs):
    got, stray = {}, []
    for m in msgs:
        primary = [l for l in lines_of(dict(m, children=[]))] or lines_of(m)
        names = {n for a, b, n in src.ranges for l in primary if a <= l < b}
        if not names:
            stray.append(m)
        for n in names:
            got.setdefault(n, []).append(m['message'] + ' ' + ' '.join(c['message'] for c in m.get('children', [])))
    return got, stray


def families(run, seed):
    r = random.Random(seed * 7919 + 13)
    g = Gen(r)
    bases = [g.definition(i) for i in range(VALID[run.tier])]
    return r, g, bases


def one(run, seed):
    r, g, bases = families(run, seed)
    # The valid ones, and what they do.
    src = Source(PRELUDE)
    texts = {}
    for i, d in enumerate(bases):
        text = g.text(d)
        texts['v%d' % i] = text
        src.add('v%d' % i, text + check_code(d))
    for i, (what, text) in enumerate(ODD):
        texts['o%d' % i] = '// %s\n%s' % (what, text)
        src.add('o%d' % i, texts['o%d' % i] + ('' if 'pub fn use_it' in text else '\npub fn use_it() {}'))
    main = MAIN.replace('in CHECKS', 'in [%s]' % ', '.join(
        ['("v%d", v%d::check as fn() -> u32)' % (i, i) for i in range(len(bases))] + ['("o%d", (|| { o%d::use_it(); 1 }) as fn() -> u32)' % (i, i) for i in range(len(ODD))]))
    msgs, exe = cargo('valid', src.text() + main, True)
    if msgs:
        got, stray = by_module(src, msgs)
        if not got:
            raise vlib.Harness('the valid schemas: ' + stray[0].get('rendered', '')[:3000])
        n = sorted(got)[0]
        run.violation('a valid schema does not compile: %s\n%s' % (got[n][0], texts[n]), dict(case_seed=seed, module=n, text=texts[n], errors=got[n][:5]))
        return
    code, out = vlib.sh([exe], timeout=120)
    seen = 0
    for line in out.splitlines():
        k = line.split(' ', 2)
        if k[0] == 'ok':
            run.evaluations += int(k[2])
            run.count('observations on valid schemas', int(k[2]))
            seen += 1
        elif k[0] == 'bad':
            run.violation('a valid schema does not do as declared: %s\n%s' % (k[2], texts[k[1]]), dict(case_seed=seed, module=k[1], text=texts[k[1]], panic=k[2]))
            return
    if seen != len(texts):
        # An abort of the program is a failure of what it runs.
        run.violation('the program of valid schemas ends early (%s) after %d of %d: %s' % (code, seen, len(texts), out[-500:]), dict(case_seed=seed))
        return
    run.count('valid schemas', len(texts))
    run.distinct += len(set(texts.values()))
    run.samples.append('valid: ' + texts['v0'][:300])

    # The invalid ones.
    for name, kinds, share in (('expand', EXPAND, .85), ('late', LATE, .15)):
        src, want = Source(PRELUDE), {}
        n, tries = int(INVALID[run.tier] * share), 0
        while len(want) < n and tries < n * 30:
            tries += 1
            i = r.randrange(len(bases))
            d = copy.deepcopy(bases[i])
            kind = kinds[tries % len(kinds)]
            rx = kind(d, r)
            if rx is None:
                continue
            m = 'm%d' % len(want)
            text = g.text(d)
            want[m] = (kind.__name__[2:], rx, text)
            src.add(m, 'pub struct Nothing;\n' + text if 'Nothing' in text else text)
        msgs, _ = cargo(name, src.text() + 'fn main() {}\n', False)
        got, stray = by_module(src, msgs)
        for m, (kind, rx, text) in want.items():
            mine = got.get(m, [])
            if not any(re.search(rx, x) for x in mine):
                # Alone, in case errors elsewhere hide this one's.
                alone = Source(PRELUDE)
                alone.add(m, 'pub struct Nothing;\n' + text if 'Nothing' in text else text)
                mine = [x['message'] + ' ' + ' '.join(c['message'] for c in x.get('children', [])) for x in cargo('alone', alone.text() + 'fn main() {}\n', False)[0]]
                run.count('recompiled alone')
                if not mine:
                    run.violation('an invalid schema compiles (%s; expected /%s/)\n%s' % (kind, rx, text), dict(case_seed=seed, kind=kind, text=text, expected=rx))
                    if not os.environ.get('C13_ALL'):
                        return
                    continue
                if not any(re.search(rx, x) for x in mine):
                    run.violation('the error of an invalid schema does not name the problem (%s; expected /%s/): %s\n%s' % (kind, rx, mine[:3], text),
                                  dict(case_seed=seed, kind=kind, text=text, expected=rx, errors=mine[:8]))
                    if not os.environ.get('C13_ALL'):
                        return
            run.evaluations += 1
            run.count('refused: ' + kind)
        run.distinct += len({t for _, _, t in want.values()})
        m = r.choice(sorted(want))
        run.samples.append('%s: %s -> %s' % (want[m][0], want[m][2][-200:].replace('\n', ' '), got.get(m, ['?'])[0][:120]))


def probe(run):
    """F34: schemas whose types are called like something that the generated code imports."""
    src = Source('#![allow(unused, non_camel_case_types)]\nuse steit::steit_derive;\n')
    for x in IMPORTED:
        src.add('p_' + x, '#[steit_derive(State, Hash)] pub struct %s { #[steit(tag = 0)] a: u8 }' % x)
    got, stray = by_module(src, cargo('probe', src.text() + 'fn main() {}\n', False)[0])
    run.count('types named like an import', len(IMPORTED))
    if got:
        run.finding('F34', 'types named %s do not compile' % ', '.join(sorted(n[2:] for n in got)))
    return got


def check(run):
    run.rule = ('schemas made at random, compiled and run: constructors, setters, defaults, encodings, equality and hashes compared with the declaration; and the same schemas with one '
                'rule broken, whose compiler errors must name the problem; distinct: texts of schemas')
    run.assumptions = ['rustc reports the errors of each module at its lines', 'names of types, fields and variants do not clash with each other']
    with vlib.locked('c13'):
        probe(run)
        for k in range(5 if run.thorough else 1):
            if run.violations:
                break
            one(run, run.seed * 1000 + k if run.thorough else run.seed)
            run.count('rounds')
