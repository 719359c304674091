#!/usr/bin/env python3
"""Writes harness/src/zoo_gen.rs: a fixed zoo of schemas which covers every feature of the derive macro, plus schemas
drawn from a seed, with the glue that ties each of them to the reference model."""
import random
import re
import sys

MAXT = 0x1fffffff


def snake(s):
    out = ''
    for i, c in enumerate(s):
        if c.isupper() and i:
            out += '_'
        out += c.lower()
    return out


class F:
    def __init__(self, name, tag, ty, no_state=False, no_eq=False, no_hash=False, cs=None, eq_false=False):
        self.name, self.tag, self.ty = name, tag, ty
        self.no_state, self.no_eq, self.no_hash, self.cs = no_state, no_eq, no_hash, cs

    def attr(self):
        a = ['tag = %d' % self.tag]
        if self.no_state:
            a.append('no_state')
        if self.no_eq:
            a.append('no_eq_hash')
        if self.no_hash:
            a.append('no_hash')
        if self.cs:
            a.append('csharp_name = "%s"' % self.cs)
        return '#[steit(%s)]' % ', '.join(a)


class Body:
    """Fields of a struct or a variant."""
    def __init__(self, fields, kind='named', no_size_cache=False, size_cache='size_cache', runtime='runtime'):
        self.fields, self.kind = fields, kind
        self.no_size_cache, self.size_cache, self.runtime = no_size_cache, size_cache, runtime
        if kind == 'unit':
            assert not fields

    def alias(self, i):
        return re.sub('^r#', '', self.fields[i].name) if self.kind == 'named' else 'f%d' % i

    def acc(self, i):
        return self.fields[i].name if self.kind == 'named' else str(i)

    def decl(self):
        if self.kind == 'unit':
            return None
        fs = []
        for f in self.fields:
            vis = 'pub ' if self.pub else ''
            fs.append(f.attr() + ' ' + vis + (f.name + ': ' if self.kind == 'named' else '') + f.ty)
        return ('{ %s }' if self.kind == 'named' else '(%s)') % ', '.join(fs)

    def literal(self, vals, state):
        """`{ a: .., size_cache: .., runtime: .. }`"""
        parts = ['%s: %s' % (self.acc(i), v) for i, v in enumerate(vals)]
        n = len(vals)
        if not self.no_size_cache:
            parts.append('%s: SizeCache::new()' % (n if self.kind == 'tuple' else self.size_cache))
            n += 1
        if state:
            parts.append('%s: rt' % (n if self.kind == 'tuple' else self.runtime))
        return '{ %s }' % ', '.join(parts)


class S:
    def __init__(self, name, fields, kind='named', state=True, generics=(), attrs=(), eq=True, hash=True, clone=True,
                 debug=True, no_meta=False, no_size_cache=False, size_cache='size_cache', runtime='runtime', ctor='new',
                 derives=(), args=None):
        self.name, self.state, self.generics, self.attrs = name, state, list(generics), list(attrs)
        self.body = Body(fields, kind, no_size_cache, size_cache, runtime)
        self.body.pub = True
        self.eq, self.hash, self.clone, self.debug, self.no_meta, self.ctor = eq, hash, clone, debug, no_meta, ctor
        self.derives = list(derives)
        self.args = args
        if no_size_cache:
            self.attrs.append('no_size_cache')
        if size_cache != 'size_cache':
            self.attrs.append('size_cache_renamed = "%s"' % size_cache)
        if runtime != 'runtime':
            self.attrs.append('runtime_renamed = "%s"' % runtime)

    def bodies(self):
        return [self.body]


class Vr:
    def __init__(self, name, tag, fields=(), kind='named', attrs=(), no_size_cache=False, size_cache='size_cache',
                 runtime='runtime'):
        self.name, self.tag, self.attrs = name, tag, list(attrs)
        self.body = Body(list(fields), kind, no_size_cache, size_cache, runtime)
        self.body.pub = False
        if no_size_cache:
            self.attrs.append('no_size_cache')
        if size_cache != 'size_cache':
            self.attrs.append('size_cache_renamed = "%s"' % size_cache)
        if runtime != 'runtime':
            self.attrs.append('runtime_renamed = "%s"' % runtime)


class E:
    def __init__(self, name, variants, state=True, generics=(), attrs=(), eq=True, hash=True, clone=True, debug=True,
                 no_meta=False, ctor='new', derives=()):
        self.name, self.variants, self.state, self.generics = name, variants, state, list(generics)
        self.attrs, self.eq, self.hash, self.clone, self.debug = list(attrs), eq, hash, clone, debug
        self.no_meta, self.ctor = no_meta, ctor
        self.derives = list(derives)

    def bodies(self):
        return [v.body for v in self.variants]


PRIMS = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'bool']


def fixed():
    t = []
    # ------------------------------------------------ plain
    t.append(S('PAll', [F(p, i, p) for i, p in enumerate(PRIMS)] + [F('st', 9, 'String'), F('by', 10, 'Bytes')],
               state=False))
    t.append(S('PTup', [F(None, 0, 'i32'), F(None, 1, 'String'), F(None, 2, 'PAll')], kind='tuple', state=False))
    t.append(S('PUnit', [], kind='unit', state=False))
    t.append(S('PKey', [F('a', 0, 'u16'), F('b', 1, 'String')], state=False, derives=['Eq']))
    t.append(S('PHigh', [F('b15', 15, 'u8'), F('b16', 16, 'String'), F('b2047', 2047, 'i64'), F('b2048', 2048, 'PUnit'),
                         F('m', MAXT, 'PKey'), F('z', 0, 'bool'), F('b262143', 262143, 'u32'),
                         F('b262144', 262144, 'Vec<u8>')], state=False))
    t.append(E('PEnum', [Vr('Aa', 0, [F('x', 0, 'i32'), F('y', 1, 'String')]), Vr('Bb', 1, [], 'unit'),
                         Vr('Cc', 16, [F(None, 0, 'u64'), F(None, 3, 'PKey'), F(None, 1, 'Vec<u16>')], 'tuple'),
                         Vr('Dd', 127, []), Vr('Ee', 128, [], 'tuple'), Vr('MaxTag', MAXT, [F('x', 5, 'bool')])],
               state=False))
    t.append(S('PNest', [F('tup', 1, 'PTup'), F('e', 0, 'PEnum'), F('u', 7, 'PUnit'), F('k', 3, 'Vec<PKey>'),
                         F('es', 4, 'Vec<PEnum>'), F('o', 5, 'Option<PEnum>'), F('h', 6, 'PHigh')], state=False))
    t.append(S('PRec', [F('v', 0, 'i8'), F('kids', 1, 'Vec<PRec>'), F('next', 2, 'Option<Box<PRec>>'),
                        F('e', 3, 'PRecE')], state=False))
    t.append(E('PRecE', [Vr('Leaf', 0, [F(None, 0, 'u32')], 'tuple'), Vr('Node', 1, [F('l', 0, 'Box<PRecE>'),
                                                                                    F('r', 1, 'Box<PRecE>')]),
                         Vr('Rec', 2, [F(None, 0, 'Vec<PRec>')], 'tuple')], state=False))
    t.append(S('PGen', [F('a', 0, 'A'), F('b', 1, 'B'), F('va', 2, 'Vec<A>'), F('ob', 3, 'Option<B>')], state=False,
               generics=['A', 'B']))
    t.append(E('PGenE', [Vr('No', 0, [], 'unit'), Vr('One', 1, [F(None, 0, 'T')], 'tuple'),
                         Vr('Many', 2, [F('items', 0, 'Vec<T>'), F('last', 1, 'T')])], state=False, generics=['T']))
    t.append(S('PNoCache', [F('a', 0, 'u32'), F('p', 1, 'PTup'), F('n', 2, 'Option<PNoCacheIn>')], state=False,
               no_size_cache=True))
    t.append(S('PNoCacheIn', [F(None, 0, 'i64'), F(None, 1, 'Vec<PKey>')], kind='tuple', state=False,
               no_size_cache=True))
    t.append(E('PNoCacheE', [Vr('Zero', 0, [F('a', 0, 'PNoCacheIn')], no_size_cache=True),
                             Vr('One', 1, [F('a', 0, 'PNoCacheIn'), F('b', 1, 'PKey')]),
                             Vr('Two', 2, [F(None, 1, 'PTup')], 'tuple', no_size_cache=True)], state=False))
    t.append(S('PBoxes', [F('a', 0, 'Box<u8>'), F('b', 1, 'Box<i64>'), F('c', 2, 'Box<bool>'), F('d', 3, 'Box<String>'),
                          F('e', 4, 'Box<PTup>'), F('f', 5, 'Box<Box<u16>>'), F('g', 6, 'Box<Vec<Box<i8>>>'),
                          F('h', 7, 'Option<Box<u32>>')], state=False))
    t.append(S('PRenamed', [F('size_cache', 0, 'u32', cs='my_size'), F('runtime', 1, 'String')], state=False,
               size_cache='sc', ctor='make', attrs=['ctor_prefix = "make"', 'csharp_name = "Renamed"']))
    t.append(S('PEq', [F('a', 0, 'i32'), F('b', 1, 'String', no_eq=True), F('c', 2, 'Vec<u8>', no_hash=True),
                       F('d', 3, 'PEqIn'), F('e', 4, 'Option<PEqIn>', no_hash=True)], state=False))
    t.append(E('PEqIn', [Vr('Aa', 0, [F('x', 0, 'i32'), F('y', 1, 'u8', no_eq=True)]),
                         Vr('Bb', 1, [F('x', 0, 'i32'), F('y', 1, 'u8', no_hash=True)]),
                         Vr('Cc', 2, [F(None, 0, 'i32')], 'tuple')], state=False))
    t.append(S('PCont', [F('t2', 0, '(u8, String)'), F('t3', 1, '(i64, PKey, bool)'), F('arr', 2, '[u16; 3]'),
                         F('arrs', 3, '[String; 2]'), F('hm', 4, 'HashMap<u32, String>'),
                         F('hm2', 5, 'HashMap<String, Vec<PKey>>'), F('vv', 6, 'Vec<Vec<i32>>'),
                         F('oo', 7, 'Option<Option<bool>>'), F('ov', 8, 'Option<Vec<String>>'),
                         F('t7', 9, '(u8, u16, u32, u64, i8, i16, Vec<bool>)'), F('ah', 10, '[HashMap<u8, i8>; 2]'),
                         F('pk', 11, 'HashMap<PKey, (u8, u8)>'), F('vo', 12, 'Vec<Option<Box<u8>>>')],
               state=False, no_meta=True))
    t.append(S('POldEvo', [F('a', 0, 'i32'), F('s', 2, 'String'), F('n', 5, 'PKey'), F('l', 9, 'Vec<u32>')],
               state=False))
    t.append(S('PNewEvo', [F('extra', 1, 'PAll'), F('l', 9, 'Vec<u32>'), F('a', 0, 'i32'), F('big', 4, 'Bytes'),
                           F('n', 5, 'PKeyNew'), F('e', 6, 'PEnum'), F('opt', MAXT, 'Option<String>')], state=False))
    t.append(S('PKeyNew', [F('c', 2, 'Vec<PKey>'), F('a', 0, 'u16'), F('d', 17, 'i8')], state=False))
    # A field which changed its wire type.
    t.append(S('PRetyped', [F('a', 0, 'String'), F('s', 2, 'u64'), F('n', 5, 'i8'), F('l', 9, 'bool')], state=False))
    # ------------------------------------------------ state
    t.append(S('SPoint', [F('x', 0, 'i32'), F('y', 1, 'i32'), F('z', 2, 'u64')]))
    t.append(S('STup', [F(None, 0, 'bool'), F(None, 1, 'SPoint'), F(None, 4, 'List<u8>')], kind='tuple'))
    t.append(S('SUnit', [], kind='unit'))
    t.append(S('SOuter', [F('a', 0, 'u8'), F('p', 1, 'SPoint'), F('t', 2, 'STup'), F('u', 3, 'SUnit'),
                          F('e', 4, 'SEnum'), F('q', 16, 'SPoint')]))
    t.append(E('SEnum', [Vr('Aa', 0, [F('x', 0, 'i32'), F('p', 1, 'SPoint')]), Vr('Bb', 1, [], 'unit'),
                         Vr('Cc', 3, [F(None, 0, 'u64'), F(None, 1, 'List<SPoint>'), F(None, 2, 'SPoint')], 'tuple'),
                         Vr('Dd', 16, []), Vr('Ee', 128, [], 'tuple'),
                         Vr('Ff', 2048, [F('x', 0, 'i32'), F('m', 7, 'Map<u8, SPoint>'), F('inner', 9, 'SInnerE')])]))
    t.append(E('SInnerE', [Vr('One', 0, [F('v', 0, 'u16')]), Vr('Two', 1, [F('v', 0, 'u16'), F('p', 1, 'SPoint')])]))
    t.append(S('SLists', [F('u', 0, 'List<u32>'), F('p', 1, 'List<SPoint>'), F('e', 2, 'List<SEnum>'),
                          F('ll', 3, 'List<List<i16>>'), F('lm', 4, 'List<Map<u16, SPoint>>'), F('lb', 5, 'List<bool>'),
                          F('lbx', 6, 'List<Box<SPoint>>'), F('lo', 7, 'List<Maybe<SPoint>>'),
                          F('le', 8, 'List<SInnerE>')]))
    t.append(S('SMaps', [F('m8', 0, 'Map<u8, u64>'), F('m16', 1, 'Map<u16, SPoint>'), F('m32', 2, 'Map<u32, SEnum>'),
                         F('mc', 3, 'Map<CKey, SPoint>'), F('mm', 4, 'Map<u8, Map<u8, i8>>'),
                         F('ml', 5, 'Map<u32, List<SInnerE>>'), F('mb', 6, 'Map<u8, bool>'),
                         F('mx', 7, 'Map<u16, Box<SOuter>>'), F('mcp', 8, 'Map<CKey, u32>')]))
    t.append(S('SMaybes', [F('a', 0, 'Maybe<u32>'), F('b', 1, 'Maybe<SPoint>'), F('c', 2, 'Maybe<Maybe<bool>>'),
                           F('d', 3, 'Maybe<List<SPoint>>'), F('e', 4, 'List<Maybe<i8>>'), F('f', 5, 'Map<u8, Maybe<SEnum>>'),
                           F('g', 6, 'Maybe<Box<SPoint>>'), F('h', 7, 'Box<Maybe<SPoint>>')]))
    t.append(S('SBoxes', [F('a', 0, 'Box<SPoint>'), F('b', 1, 'Box<u32>'), F('c', 2, 'Box<List<Box<SPoint>>>'),
                          F('d', 3, 'Box<Map<u8, u8>>'), F('e', 4, 'Box<SEnum>'), F('f', 5, 'Box<Box<STup>>')]))
    t.append(S('SRec', [F('v', 0, 'i16'), F('kids', 1, 'List<SRec>'), F('named', 2, 'Map<u8, SRec>'),
                        F('opt', 3, 'Maybe<Box<SRec>>'), F('e', 4, 'SRecE')]))
    t.append(E('SRecE', [Vr('Leaf', 0, [F('n', 0, 'u32')]), Vr('Node', 1, [F('l', 0, 'Box<SRecE>'), F('r', 1, 'Box<SRecE>')]),
                         Vr('Many', 2, [F(None, 0, 'List<SRecE>')], 'tuple')]))
    t.append(S('SGen', [F('a', 0, 'A'), F('b', 1, 'B'), F('la', 2, 'List<A>'), F('mb', 3, 'Map<u8, B>'),
                        F('oa', 4, 'Maybe<A>')], generics=['A', 'B']))
    t.append(E('SGenE', [Vr('No', 0, [], 'unit'), Vr('One', 1, [F(None, 0, 'T')], 'tuple'),
                         Vr('Many', 2, [F('items', 0, 'List<T>'), F('last', 1, 'T')])], generics=['T']))
    t.append(S('SHigh', [F('b15', 15, 'u8'), F('b16', 16, 'SPoint'), F('b2047', 2047, 'List<i64>'),
                         F('b2048', 2048, 'SEnum'), F('m', MAXT, 'SPoint'), F('z', 0, 'Map<u32, SPoint>'),
                         F('b127', 127, 'i8'), F('b128', 128, 'i8')]))
    t.append(S('SNoState', [F('a', 0, 'i32'), F('s', 1, 'String', no_state=True), F('v', 2, 'Vec<PKey>', no_state=True),
                            F('p', 3, 'SPoint'), F('hp', 4, 'SPoint', no_state=True), F('hl', 5, 'List<u8>', no_state=True),
                            F('n', 6, 'u64', no_state=True), F('e', 7, 'SNoStateE'), F('l', 8, 'List<SNoStateE>')]))
    t.append(E('SNoStateE', [Vr('Aa', 0, [F('h', 0, 'u32', no_state=True), F('x', 1, 'u32')]),
                             Vr('Bb', 1, [F('x', 0, 'u32'), F('h', 1, 'String', no_state=True), F('p', 2, 'SPoint')]),
                             Vr('Cc', 2, [F(None, 0, 'Bytes', no_state=True), F(None, 1, 'List<u8>')], 'tuple')]))
    t.append(S('SNoCache', [F('a', 0, 'u32'), F('p', 1, 'SPoint'), F('l', 2, 'List<SNoCacheE>'), F('m', 3, 'Map<u8, SNoCacheE>'),
                            F('t', 4, 'STup')], no_size_cache=True))
    t.append(E('SNoCacheE', [Vr('Zero', 0, [F('a', 0, 'SPoint')], no_size_cache=True),
                             Vr('One', 1, [F('a', 0, 'SPoint'), F('l', 1, 'List<SPoint>')]),
                             Vr('Two', 2, [F(None, 1, 'List<u32>')], 'tuple', no_size_cache=True)]))
    t.append(S('SRenamed', [F('size_cache', 0, 'u32'), F('runtime', 1, 'SPoint'), F('l', 2, 'List<SRenamedE>')],
               size_cache='sc', runtime='rt_', ctor='make', attrs=['ctor_prefix = "make"']))
    t.append(E('SRenamedE', [Vr('Aa', 0, [F('size_cache', 0, 'u32')], size_cache='my_cache', runtime='my_runtime'),
                             Vr('Bb', 1, [F('runtime', 1, 'SPoint')], runtime='rrr'),
                             Vr('Cc', 2, [F(None, 0, 'SPoint')], 'tuple')]))
    t.append(S('SEq', [F('a', 0, 'i32'), F('b', 1, 'SPoint', no_eq=True), F('c', 2, 'List<u8>', no_hash=True),
                       F('m', 3, 'Maybe<SPoint>'), F('e', 4, 'SEqE'), F('s', 5, 'String', no_state=True)]))
    t.append(E('SEqE', [Vr('Aa', 0, [F('x', 0, 'i32'), F('y', 1, 'u8', no_eq=True)]),
                        Vr('Bb', 1, [F('x', 0, 'i32'), F('y', 1, 'SPoint', no_hash=True)]), Vr('Cc', 2, [], 'unit')]))
    t.append(S('SDeep', [F('d', 0, 'Map<u8, List<Map<u16, SEnum>>>'), F('l3', 1, 'List<List<List<u8>>>'),
                         F('mo', 2, 'Map<u8, Maybe<List<Box<SEnum>>>>')]))
    t.append(S('SWorld', [F('a', 0, 'SOuter'), F('b', 1, 'SLists'), F('c', 2, 'SMaps'), F('d', 3, 'SMaybes'),
                          F('e', 4, 'SBoxes'), F('f', 5, 'SRec'), F('g', 6, 'SNoCache'), F('h', 7, 'SGen<i32, SPoint>'),
                          F('i', 8, 'SNoState'), F('j', 9, 'SRenamed'), F('k', 11, 'SGenE<SInnerE>'), F('l', 12, 'SDeep'),
                          F('m', 30, 'SHigh')]))
    t.append(S('SOldEvo', [F('a', 0, 'i32'), F('p', 2, 'SPoint'), F('l', 5, 'List<SPoint>'), F('m', 6, 'Map<u8, SPoint>')]))
    t.append(S('SNewEvo', [F('m', 6, 'Map<u8, SPointNew>'), F('x', 1, 'SOuter'), F('l', 5, 'List<SPointNew>'), F('a', 0, 'i32'),
                           F('p', 2, 'SPointNew'), F('q', 77, 'List<u64>')]))
    t.append(S('SPointNew', [F('w', 3, 'List<SPoint>'), F('z', 2, 'u64'), F('y', 1, 'i32'), F('n', 4, 'i8')]))
    return t


def fixed_regs():
    """Concrete types to be registered: (type, state)."""
    plain = PRIMS + ['String', 'Bytes', 'Vec<u8>', 'Vec<String>', 'Vec<PTup>', 'Vec<Vec<Vec<u16>>>', '[u16; 1]',
                     '[PKey; 2]', '[i32; 7]', '(u8, i64)', '(String, PKey, Vec<u8>)', '(u8, u16, u32, u64)',
                     '(i8, i16, i32, i64, bool)', '(bool, String, u8, PUnit, Option<u8>, i64)',
                     '(u8, u8, u8, u8, u8, u8, String)', 'HashMap<u16, i32>', 'HashMap<String, PNest>',
                     'HashMap<PKey, HashMap<u8, bool>>', 'Option<u8>', 'Option<Option<u32>>', 'Option<PEnum>',
                     'Option<Vec<PEnum>>', 'Box<i64>', 'Box<PEnum>', 'PAll', 'PTup', 'PUnit', 'PKey', 'PHigh', 'PEnum',
                     'PNest', 'PRec', 'PRecE', 'PGen<u8, String>', 'PGen<PEnum, Vec<u32>>', 'PGenE<PKey>',
                     'PGenE<PGenE<bool>>', 'PNoCache', 'PNoCacheE', 'PBoxes', 'PRenamed', 'PEq', 'PEqIn', 'PCont',
                     'POldEvo', 'PNewEvo', 'PKeyNew', 'PRetyped', 'LogEntry', 'Vec<LogEntry>', 'Option<LogEntry>']
    state = ['SPoint', 'STup', 'SUnit', 'SOuter', 'SEnum', 'SInnerE', 'SLists', 'SMaps', 'SMaybes', 'SBoxes', 'SRec',
             'SRecE', 'SGen<u8, SPoint>', 'SGen<SEnum, List<u16>>', 'SGenE<i32>', 'SGenE<Map<u8, SPoint>>', 'SHigh',
             'SNoState', 'SNoStateE', 'SNoCache', 'SNoCacheE', 'SRenamed', 'SRenamedE', 'SEq', 'SEqE', 'SDeep', 'SWorld',
             'SOldEvo', 'SNewEvo', 'SPointNew', 'List<u8>', 'List<i32>', 'List<bool>', 'List<SPoint>', 'List<SEnum>', 'List<List<SPoint>>',
             'List<Map<u8, u32>>', 'List<Maybe<SPoint>>', 'List<Box<SEnum>>', 'Map<u8, SPoint>', 'Map<u16, u64>',
             'Map<u32, SEnum>', 'Map<CKey, SPoint>', 'Map<CKey, i8>', 'Map<u8, List<SPoint>>', 'Map<u16, Map<u8, bool>>',
             'Map<u8, Maybe<u16>>', 'Maybe<SPoint>', 'Maybe<u64>', 'Maybe<List<SPoint>>', 'Box<SOuter>', 'Box<SEnum>',
             'Box<List<SPoint>>', 'Box<Map<u8, SEnum>>', 'Box<Maybe<SPoint>>', 'Box<Box<SInnerE>>']
    return plain, state


EVO = [('POldEvo', 'PNewEvo'), ('POldEvo', 'PRetyped'), ('PNewEvo', 'PRetyped'), ('SOldEvo', 'SNewEvo'),
       ('PKey', 'PKeyNew'), ('SPoint', 'SPointNew'), ('SOuter', 'SUnit'), ('PAll', 'PUnit'), ('PCont', 'PUnit'),
       ('SWorld', 'SUnit'), ('SHigh', 'PHigh'), ('SLists', 'SMaps'), ('PAll', 'PRetyped')]


class Rand:
    """Schemas drawn from a seed."""
    def __init__(self, seed):
        self.r = random.Random(seed * 7919 + 13)
        self.types = []
        self.plain_names, self.state_names = [], []
        self.evo = []

    def tag(self, used):
        while True:
            k = self.r.choice([self.r.randrange(0, 16), self.r.randrange(0, 16), self.r.randrange(16, 2100),
                               self.r.randrange(0, MAXT + 1), 15, 16, 127, 128, 2047, 2048, MAXT])
            if k not in used:
                used.add(k)
                return k

    def plain_ty(self, d=0):
        r = self.r
        k = r.randrange(16 if d < 2 else 6)
        if k < 5:
            return r.choice(PRIMS)
        if k == 5:
            return r.choice(['String', 'Bytes'])
        if k < 9:
            return r.choice(self.plain_names + ['PKey', 'PEnum', 'PTup'])
        if k < 11:
            return 'Vec<%s>' % self.plain_ty(d + 1)
        if k == 11:
            return 'Option<%s>' % self.plain_ty(d + 1)
        if k == 12:
            return 'Box<%s>' % self.plain_ty(d + 1)
        if k == 13:
            return '[%s; %d]' % (self.plain_ty(d + 1), r.randrange(1, 8))
        if k == 14:
            return '(%s)' % ', '.join(self.plain_ty(d + 1) for _ in range(r.randrange(2, 5)))
        return 'HashMap<%s, %s>' % (r.choice(['u8', 'u32', 'String', 'i64', 'PKey']), self.plain_ty(d + 1))

    def state_ty(self, d=0):
        r = self.r
        k = r.randrange(16 if d < 2 else 6)
        if k < 5:
            return r.choice(PRIMS)
        if k < 9:
            return r.choice(self.state_names + ['SPoint', 'SEnum', 'STup', 'SInnerE'])
        if k < 12:
            return 'List<%s>' % self.state_ty(d + 1)
        if k < 14:
            return 'Map<%s, %s>' % (r.choice(['u8', 'u16', 'u32', 'CKey']), self.state_ty(d + 1))
        if k == 14:
            return 'Maybe<%s>' % self.state_ty(d + 1)
        return 'Box<%s>' % self.state_ty(d + 1)

    def fields(self, state, kind, n):
        used, out = set(), []
        for i in range(n):
            ns = state and self.r.random() < .12
            ty = self.plain_ty(1) if ns else (self.state_ty() if state else self.plain_ty())
            out.append(F(None if kind == 'tuple' else 'f_%d' % i, self.tag(used), ty, no_state=ns,
                         no_eq=self.r.random() < .08, no_hash=self.r.random() < .08))
        return out

    def kind(self, n):
        return self.r.choice(['named', 'named', 'tuple'] + (['unit'] if n == 0 else []))

    def make(self, i, state):
        r = self.r
        pre = 'RS' if state else 'RP'
        if r.random() < .6:
            n = r.randrange(0, 7)
            kind = self.kind(n)
            s = S('%s%d' % (pre, i), self.fields(state, kind, n), kind=kind, state=state, no_meta=True,
                  no_size_cache=r.random() < .15)
            self.types.append(s)
            if kind == 'named' and n > 1:
                # The same message after some fields came and went.
                fs = [F(f.name, f.tag, f.ty, f.no_state) for f in s.body.fields if r.random() < .7]
                used = {f.tag for f in s.body.fields}
                fs += [F('g_%d' % j, self.tag(used), self.state_ty(1) if state else self.plain_ty(1)) for j in range(2)]
                r.shuffle(fs)
                e = S('%s%dEvo' % (pre, i), fs, state=state, no_meta=True)
                self.types.append(e)
                self.evo.append((s.name, e.name))
        else:
            used = {0}
            vs = []
            for j in range(r.randrange(1, 5)):
                n = r.randrange(0, 5)
                kind = self.kind(n)
                vs.append(Vr('V%s' % 'abcdefg'[j], 0 if j == 0 else self.tag(used), self.fields(state, kind, n), kind,
                             no_size_cache=r.random() < .15))
            r.shuffle(vs)
            self.types.append(E('%s%d' % (pre, i), vs, state=state, no_meta=True))
        name = '%s%d' % (pre, i)
        (self.state_names if state else self.plain_names).append(name)

    def run(self, n):
        for i in range(n):
            self.make(i, False)
        for i in range(n):
            self.make(i, True)
        plain = [t.name for t in self.types if not t.state] + [self.plain_ty() for _ in range(2)]
        state = [t.name for t in self.types if t.state]
        state += ['List<%s>' % self.state_ty(1), 'Map<u8, %s>' % self.state_ty(1)]
        return plain, state


class Zoo:
    def __init__(self, types):
        self.types = {t.name: t for t in types}

    def idents(self, ty):
        return re.findall(r'[A-Za-z_][A-Za-z0-9_]*', ty)

    def hashable(self, ty, seen=()):
        for i in self.idents(ty):
            if i in ('Map', 'HashMap', 'LogEntry'):
                return False
            t = self.types.get(i)
            if t and i not in seen:
                if not t.hash:
                    return False
                for b in t.bodies():
                    for f in b.fields:
                        if not f.no_eq and not f.no_hash and not self.hashable(f.ty, tuple(seen) + (i,)):
                            return False
        return True

    def has(self, ty, what, seen=()):
        """Whether all types inside satisfy `what`."""
        for i in self.idents(ty):
            if not what(i, self.types.get(i)):
                return False
            t = self.types.get(i)
            if t and i not in seen:
                for b in t.bodies():
                    for f in b.fields:
                        if not self.has(f.ty, what, tuple(seen) + (i,)):
                            return False
        return True

    def eqable(self, ty):
        return self.has(ty, lambda i, t: i != 'LogEntry' and (t is None or t.eq))

    def meta(self, ty):
        return '(' not in ty and self.has(ty, lambda i, t: i != 'HashMap' and (t is None or not t.no_meta))

    # ------------------------------------------------------------ output

    def decl(self, t):
        args = ['State'] if t.state else ['Serialize', 'Deserialize']
        if t.eq:
            args.append('PartialEq')
        if t.hash and self.hashable(t.name):
            args.append('Hash')
        if t.clone:
            args.append('Clone')
        if t.debug:
            args.append('Debug')
        args += t.derives
        out = ['#[steit_derive(%s)]' % ', '.join(args)]
        attrs = list(t.attrs)
        if t.no_meta:
            attrs.append('no_meta')
        if attrs:
            out.append('#[steit(%s)]' % ', '.join(attrs))
        bound = 'State' if t.state else ''
        g = '<%s>' % ', '.join(x + (': ' + bound if bound else '') for x in t.generics) if t.generics else ''
        if isinstance(t, S):
            d = t.body.decl()
            out.append('pub struct %s%s %s' % (t.name, g, ';' if d is None else d + (';' if t.body.kind == 'tuple' else '')))
        else:
            vs = []
            for v in t.variants:
                a = ['tag = %d' % v.tag] + v.attrs
                vs.append('#[steit(%s)] %s%s' % (', '.join(a), v.name, v.body.decl() or ''))
            out.append('pub enum %s%s { %s }' % (t.name, g, ', '.join(vs)))
        return '\n'.join(out)

    def head(self, t, tr):
        b = 'RealState' if t.state else 'Real'
        if not t.generics:
            return 'impl %s for %s' % (tr, t.name)
        return 'impl<%s> %s for %s<%s>' % (', '.join('%s: %s' % (g, b) for g in t.generics), tr, t.name,
                                           ', '.join(t.generics))

    def fieldd(self, f):
        return 'FieldD { name: "%s", tag: %d, ty: Ty(<%s as Real>::node), no_state: %s, no_eq: %s, no_hash: %s }' % (
            f.name or '', f.tag, f.ty, *[str(x).lower() for x in (f.no_state, f.no_eq, f.no_hash)])

    def build_vals(self, t, b):
        out = []
        for i, f in enumerate(b.fields):
            if not t.state:
                rt = 'rt'
            elif f.no_state:
                rt = '&Runtime::new()'
            else:
                rt = '&rt.nested(%d)' % f.tag
            out.append('Real::build(&xs[%d], %s)' % (i, rt))
        return out

    def glue(self, t):
        if isinstance(t, S):
            return self.glue_struct(t)
        return self.glue_enum(t)

    def set_arm(self, f, setter, recv):
        if f.no_state:
            return '{ let x = cx.val(v, How::Plain, &Runtime::new()); self.%s(x); }' % setter
        return ('{ if how.is_with() { self.%s_with(|rt| cx.cb(v, *how, rt)); } else { '
                'let x = cx.val(v, *how, State::runtime(self)); self.%s(x); } }' % (setter, setter))

    def glue_struct(self, t):
        b = t.body
        o = [self.head(t, 'Real') + ' {']
        o.append('fn node() -> NodeRef { intern::<Self>(|| Node::St(StructD { name: std::any::type_name::<Self>()'
                 '.replace("monitor::zoo_gen::", ""), state: %s, fields: vec![%s] })) }' %
                 (str(t.state).lower(), ', '.join(self.fieldd(f) for f in b.fields)))
        o.append('fn to_v(&self) -> V { V::St(vec![%s]) }' %
                 ', '.join('self.%s.to_v()' % b.acc(i) for i in range(len(b.fields))))
        o.append('fn build(v: &V, rt: &Runtime) -> Self { let xs = match v { V::St(xs) => xs, v => panic!("HARNESS: {:?}", v) };'
                 ' let _ = xs; %s Self %s }' %
                 ('let rt = rt.clone();' if t.state else '', b.literal(self.build_vals(t, b), t.state)))
        o.append('}')
        if not t.state:
            return '\n'.join(o)
        o.append(self.head(t, 'RealState') + ' {')
        o.append('fn apply(&mut self, at: &[Step], op: &Op, cx: &mut Cx) -> Ret {')
        o.append(' if let Some((s, rest)) = at.split_first() { let _ = rest; return match s {')
        for i, f in enumerate(b.fields):
            if not f.no_state:
                o.append('  Step::F(%d) => self.%s.apply(rest, op, cx),' % (i, b.acc(i)))
        o.append('  s => panic!("HARNESS: {:?}", s), }; }')
        o.append(' match op {')
        for i, f in enumerate(b.fields):
            o.append('  Op::Set(%d, v, %s) => %s' % (i, '_' if f.no_state else 'how', self.set_arm(f, 'set_' + b.alias(i), None)))
        o.append('  Op::Read(k) => return read_ops(self, *k),')
        o.append('  op => panic!("HARNESS: {:?}", op), }')
        o.append(' #[allow(unreachable_code)] Ret::Unit }' if b.fields else ' }')
        o.append('fn walk(&self, out: &mut Vec<Vec<u32>>) { out.push(State::runtime(self).path().collect_values()); %s }' %
                 ' '.join('self.%s.walk(out);' % b.acc(i) for i, f in enumerate(b.fields) if not f.no_state))
        o.append('fn lookups(&mut self) -> Result<(), String> { %s Ok(()) }' %
                 ' '.join('self.%s.lookups()?;' % b.acc(i) for i, f in enumerate(b.fields) if not f.no_state))
        o.append('}')
        return '\n'.join(o)

    def pat(self, t, v, names):
        return '%s::%s { %s.. }' % (t.name, v.name, ''.join('%s: %s, ' % (v.body.acc(i), n) for i, n in names))

    def glue_enum(self, t):
        o = [self.head(t, 'Real') + ' {']
        o.append('fn node() -> NodeRef { intern::<Self>(|| Node::En(EnumD { name: std::any::type_name::<Self>()'
                 '.replace("monitor::zoo_gen::", ""), state: %s, variants: vec![%s] })) }' %
                 (str(t.state).lower(), ', '.join('VariantD { name: "%s", tag: %d, fields: vec![%s] }' % (
                     v.name, v.tag, ', '.join(self.fieldd(f) for f in v.body.fields)) for v in t.variants)))
        o.append('fn to_v(&self) -> V { match self {')
        for j, v in enumerate(t.variants):
            names = [(i, 'x%d' % i) for i in range(len(v.body.fields))]
            o.append(' %s => V::En(%d, vec![%s]),' % (self.pat(t, v, names), j, ', '.join('%s.to_v()' % n for _, n in names)))
        o.append('} }')
        o.append('fn build(v: &V, rt: &Runtime) -> Self { let (j, xs) = match v { V::En(j, xs) => (*j, xs), v => panic!("HARNESS: {:?}", v) };'
                 ' let _ = xs; match j {')
        for j, v in enumerate(t.variants):
            o.append(' %d => { %s %s::%s %s }' % (j, 'let rt = rt.nested(%d);' % v.tag if t.state else '', t.name, v.name,
                                                 v.body.literal(self.build_vals(t, v.body), t.state)))
        o.append(' j => panic!("HARNESS: variant {}", j), } }')
        o.append('}')
        if not t.state:
            return '\n'.join(o)
        o.append(self.head(t, 'RealState') + ' {')
        o.append('fn apply(&mut self, at: &[Step], op: &Op, cx: &mut Cx) -> Ret {')
        o.append(' if let Some((s, rest)) = at.split_first() { let _ = rest; return match (s, self) {')
        for j, v in enumerate(t.variants):
            for i, f in enumerate(v.body.fields):
                if not f.no_state:
                    o.append('  (Step::VF(%d, %d), %s) => x.apply(rest, op, cx),' % (j, i, self.pat(t, v, [(i, 'x')])))
        o.append('  (s, _) => panic!("HARNESS: {:?}", s), }; }')
        o.append(' match op {')
        any_f = False
        for j, v in enumerate(t.variants):
            for i, f in enumerate(v.body.fields):
                any_f = True
                o.append('  Op::SetV(%d, %d, v, %s) => %s' % (j, i, '_' if f.no_state else 'how', self.set_arm(
                    f, 'set_%s_%s' % (snake(v.name), v.body.alias(i)), None)))
        o.append('  Op::Read(k) => return read_ops(self, *k),')
        o.append('  op => panic!("HARNESS: {:?}", op), }')
        o.append(' #[allow(unreachable_code)] Ret::Unit }' if any_f else ' }')
        for fn, recv, call, end in (('walk', '&self, out: &mut Vec<Vec<u32>>', 'walk(out);', '()'),
                                    ('lookups', '&mut self', 'lookups()?;', 'Ok(())')):
            ret = '' if fn == 'walk' else ' -> Result<(), String>'
            pre = 'out.push(State::runtime(self).path().collect_values());' if fn == 'walk' else ''
            o.append('fn %s(%s)%s { %s match self {' % (fn, recv, ret, pre))
            for v in t.variants:
                names = [(i, 'x%d' % i) for i, f in enumerate(v.body.fields) if not f.no_state]
                o.append(' %s => { %s }' % (self.pat(t, v, names), ' '.join('%s.%s' % (n, call) for _, n in names)))
            o.append('} %s }' % end)
        o.append('}')
        return '\n'.join(o)

    def defaults(self, t):
        """All constructors of a type, for comparison with the default data: (name, expression)."""
        out = []
        args = 'rt' if t.state else ''
        g = '::<%s>' % ', '.join('u8' for _ in t.generics) if t.generics else ''
        out.append(('%s' % t.ctor, -1, '%s%s::%s(%s)' % (t.name, g, t.ctor, args)))
        if isinstance(t, E):
            for j, v in enumerate(t.variants):
                out.append((v.name, j, '%s%s::%s_%s(%s)' % (t.name, g, t.ctor, snake(v.name), args)))
        return out

    def emit(self, plain, state, evo, bare=False):
        o = ['// Generated by tools/zoo.py, do not edit.',
             '#![allow(unused, non_camel_case_types, clippy::all)]',
             'use std::collections::HashMap;',
             'use steit::{log::LogEntry, rt::{Runtime, SizeCache}, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};',
             'use crate::{model::*, real::*};', '']
        for t in self.types.values():
            o.append('//@ ' + t.name)
            o.append(self.decl(t))
            o.append(self.glue(t))
        o.append('//@')
        o.append('impl Real for LogEntry {')
        lf = {'Update': (0, 'value', 'Bytes', 1), 'ListPush': (8, 'item', 'Bytes', 1), 'ListPop': (9, None, None, None),
              'MapRemove': (12, 'key', 'u32', 1)}
        fd = lambda n, tag, ty: ('FieldD { name: "%s", tag: %d, ty: Ty(<%s as Real>::node), no_state: false, no_eq: false, '
                                 'no_hash: false }' % (n, tag, ty))
        o.append('fn node() -> NodeRef { intern::<Self>(|| Node::En(EnumD { name: "LogEntry".into(), state: false, variants: vec![%s] })) }' %
                 ', '.join('VariantD { name: "%s", tag: %d, fields: vec![%s] }' % (
                     k, x[0], ', '.join([fd('path', 0, 'Vec<u32>')] + ([fd(x[1], 1, x[2])] if x[1] else []))) for k, x in lf.items()))
        o.append('fn to_v(&self) -> V { match self {')
        for j, (k, x) in enumerate(lf.items()):
            o.append('LogEntry::%s { path, %s.. } => V::En(%d, vec![path.to_v()%s]),' % (
                k, x[1] + ', ' if x[1] else '', j, ', %s.to_v()' % x[1] if x[1] else ''))
        o.append('} }')
        o.append('fn build(v: &V, rt: &Runtime) -> Self { match v {')
        for j, (k, x) in enumerate(lf.items()):
            o.append('V::En(%d, xs) => LogEntry::%s { path: Real::build(&xs[0], rt), %s size_cache: SizeCache::new() },' % (
                j, k, '%s: Real::build(&xs[1], rt),' % x[1] if x[1] else ''))
        o.append('v => panic!("HARNESS: {:?}", v), } } }')
        o.append('pub fn types() -> Vec<TyInfo> { vec![')
        for ty, st in [(t, False) for t in plain] + [(t, True) for t in state]:
            sets = []
            if bare:
                o.append('%s_info::<%s>("%s"),' % ('s' if st else 'p', ty, ty))
                continue
            if self.eqable(ty):
                sets.append('eq: f_eq::<%s>()' % ty)
                if self.hashable(ty):
                    sets.append('hash: f_hash::<%s>()' % ty)
            sets.append('clone: f_clone_%s::<%s>()' % ('s' if st else 'p', ty))
            sets.append('debug: f_debug::<%s>()' % ty)
            o.append('TyInfo { %s, ..%s_info::<%s>("%s") },' % (', '.join(sets), 's' if st else 'p', ty, ty))
        o.append('] }')
        o.append('/// Pairs of schemas which share some fields.')
        o.append('pub fn evolutions() -> Vec<(&\'static str, &\'static str)> { vec![%s] }' %
                 ', '.join('("%s", "%s")' % e for e in evo))
        o.append('/// Every constructor with the variant it makes.')
        o.append('pub fn ctors() -> Vec<(&\'static str, &\'static str, usize, fn(Runtime) -> Box<dyn DynVal>)> { vec![')
        for t in self.types.values():
            for (n, j, e) in self.defaults(t):
                o.append('("%s", "%s", %s, |rt| Box::new(%sVal(%s))),' % (t.name, n, 'usize::MAX' if j < 0 else j,
                                                                  'S' if t.state else 'P', e))
        o.append('] }')
        return '\n'.join(o) + '\n'


# ---------------------------------------------------------------- schemas for generated clients

ALIASES = {'AlMap': 'Map<u16, SPoint>', 'AlList': 'List<SInnerE>', 'AlBox': 'Box<SPoint>', 'AlNum': 'u32'}


def cs_name(x):
    """The C# name of a type or a variant."""
    for a in x.attrs:
        m = re.match(r'csharp_name = "(\w+)"', a)
        if m:
            return m.group(1)
    return x.name


def cs_field(b, i):
    """The C# name of a field: words capitalised, underscores gone."""
    return ''.join(w[:1].upper() + w[1:] for w in (b.fields[i].cs or b.alias(i)).split('_'))


def client_fixed():
    t = [x for x in fixed() if x.name in (
        'SPoint', 'STup', 'SUnit', 'SOuter', 'SEnum', 'SInnerE', 'SLists', 'SMaps', 'SMaybes', 'SBoxes', 'SRec', 'SRecE',
        'SHigh', 'SNoState', 'SNoStateE', 'SDeep', 'SRenamed', 'SRenamedE', 'SNoCache', 'SNoCacheE', 'SPointNew',
        'SOldEvo', 'SNewEvo', 'PKey', 'PTup', 'PAll', 'PUnit', 'PEnum', 'PNest', 'PHigh', 'PRec', 'PRecE', 'PBoxes',
        'PRenamed')]
    t.append(S('CGen', [F('first', 0, 'A'), F('second', 1, 'B'), F('la', 2, 'List<A>'), F('mb', 3, 'Map<u8, B>'),
                        F('oa', 4, 'Maybe<A>'), F('xb', 5, 'Box<B>'), F('lxa', 6, 'List<Box<A>>'),
                        F('flip', 7, 'Maybe<Box<CGen<B, A>>>')], generics=['A', 'B']))
    t.append(E('CGenE', [Vr('No', 0, [], 'unit'), Vr('One', 1, [F(None, 0, 'T')], 'tuple'),
                         Vr('Many', 2, [F('items', 0, 'List<T>'), F('last', 1, 'T')]),
                         Vr('More', 3, [F(None, 0, 'Maybe<Box<CGenE<T>>>'), F(None, 1, 'Box<T>')], 'tuple')], generics=['T']))
    t.append(S('CPGen', [F('first', 0, 'A'), F('va', 1, 'Vec<A>'), F('oa', 2, 'Option<A>'), F('ba', 3, 'Box<A>'),
                         F('vb', 4, '[A; 3]')], state=False, generics=['A']))
    t.append(S('CAlias', [F('m', 0, 'AlMap'), F('l', 1, 'AlList'), F('b', 2, 'AlBox'), F('n', 3, 'AlNum'),
                          F('lm', 4, 'List<AlMap>'), F('mx', 5, 'Maybe<AlBox>')]))
    t.append(S('CNames', [F('snake_case_name', 0, 'u8'), F('camel', 1, 'SPoint', cs='otherName'), F('r#type', 2, 'u32'),
                          F('x', 3, 'List<SPoint>', cs='a_b_c'), F('item_2', 4, 'CNamesE')],
               attrs=['csharp_name = "Names"']))
    t.append(E('CNamesE', [Vr('Aa', 0, [F('x', 0, 'u8', cs='why')], attrs=['csharp_name = "Alpha"']),
                           Vr('BbCc', 7, [F(None, 2, 'CNamesIn', cs='inner_one'), F(None, 0, 'i16')], 'tuple')],
               attrs=['csharp_name = "NamesEnum"']))
    t.append(S('CNamesIn', [F('v', 0, 'i64')], attrs=['csharp_name = "NamesInner"']))
    t.append(S('CWords', [F('a', 0, 'CWordsE'), F('b', 1, 'List<CWordsR>'), F('base', 2, 'u8'), F('event', 3, 'bool')], attrs=['csharp_name = "Event"']))
    t.append(E('CWordsE', [Vr('In', 0, [F('x', 0, 'u8')]), Vr('Out', 3, [F('x', 0, 'CWordsR')]), Vr('Params', 4, [], 'unit')],
               attrs=['csharp_name = "Object"']))
    t.append(S('CWordsR', [F('x', 0, 'i32')], attrs=['csharp_name = "Reader"']))
    t.append(S('CInts', [F(p, i + 1, p) for i, p in enumerate(PRIMS)]))
    t.append(S('CHidden', [F('g', 0, 'CPGen<PKey>', no_state=True), F('g8', 1, 'CPGen<u8>', no_state=True), F('n', 2, 'PNest', no_state=True),
                           F('gg', 3, 'CPGen<CPGen<bool>>', no_state=True), F('a', 4, '[u16; 4]', no_state=True),
                           F('o', 5, 'Option<Vec<PEnum>>', no_state=True), F('p', 6, 'SPoint'), F('all', 7, 'PAll', no_state=True),
                           F('bx', 8, 'PBoxes', no_state=True), F('by', 9, 'Bytes', no_state=True), F('vs', 10, 'Vec<String>', no_state=True),
                           F('os', 11, 'Option<String>', no_state=True), F('rec', 12, 'PRec', no_state=True)]))
    t.append(S('CWorld', [F('a', 0, 'SOuter'), F('b', 1, 'SLists'), F('c', 2, 'SMaps'), F('d', 3, 'SMaybes'), F('e', 4, 'SBoxes'),
                          F('f', 5, 'SRec'), F('g', 6, 'CGen<i32, SPoint>'), F('h', 7, 'CGenE<SInnerE>'), F('i', 8, 'CNames'),
                          F('j', 9, 'SHigh'), F('k', 10, 'CAlias'), F('l', 11, 'CInts'), F('m', 12, 'CWords')]))
    return t


CLIENT_ROOTS = ['SPoint', 'STup', 'SUnit', 'SOuter', 'SEnum', 'SInnerE', 'SLists', 'SMaps', 'SMaybes', 'SBoxes', 'SRec', 'SRecE',
                'SHigh', 'SNoState', 'SNoStateE', 'SDeep', 'SRenamed', 'SRenamedE', 'SNoCache', 'SNoCacheE', 'CGen<u8, SPoint>',
                'CGen<SEnum, List<i16>>', 'CGen<Map<u8, bool>, CGenE<u32>>', 'CGenE<i64>', 'CGenE<List<SPoint>>', 'CGenE<CGenE<u8>>',
                'CAlias', 'CNames', 'CNamesE', 'CInts', 'CWords', 'CHidden', 'CWorld', 'SNewEvo', 'List<u8>', 'List<bool>', 'List<SEnum>',
                'List<List<i32>>', 'List<Maybe<SPoint>>', 'List<Box<SEnum>>', 'Map<u8, SPoint>', 'Map<CKey, u64>', 'Map<u32, List<SInnerE>>',
                'Map<u16, Map<u8, bool>>', 'Maybe<SPoint>', 'Maybe<u64>', 'Box<SOuter>', 'Box<Map<u8, SEnum>>', 'Map<u8, Box<i8>>']

# The client's schema and that of the server, which has more fields.
CLIENT_EVO = [('SOldEvo', 'SNewEvo'), ('SPoint', 'SPointNew'), ('SUnit', 'SOuter'), ('SUnit', 'SLists'), ('SUnit', 'CWorld'),
              ('SUnit', 'SMaps'), ('List<SPoint>', 'List<SPointNew>'), ('Map<u8, SPoint>', 'Map<u8, SPointNew>'),
              ('Maybe<SPoint>', 'Maybe<SPointNew>')]


class ClientRand(Rand):
    """Schemas of which clients are generated, together with newer versions of them."""
    def __init__(self, seed):
        super().__init__(seed + 500009)
        self.generic = []

    def plain_ty(self, d=0):
        r = self.r
        k = r.randrange(12 if d < 2 else 6)
        if k < 4:
            return r.choice(PRIMS)
        if k < 6:
            return r.choice(['String', 'Bytes'])
        if k < 8:
            return r.choice(self.plain_names + ['PKey', 'PEnum', 'PTup', 'CPGen<u16>', 'CPGen<PKey>'])
        if k < 10:
            return 'Vec<%s>' % self.plain_ty(d + 1)
        if k == 10:
            return 'Option<%s>' % self.plain_ty(d + 1)
        return '[%s; %d]' % (self.plain_ty(d + 1), r.randrange(1, 8))

    def state_ty(self, d=0, params=()):
        r = self.r
        if params and r.random() < .4:
            return r.choice(params)
        k = r.randrange(20 if d < 2 else 8)
        if k < 5:
            return r.choice(PRIMS + ['AlNum'])
        if k < 8:
            return r.choice(self.state_names + ['SPoint', 'SEnum', 'STup', 'SInnerE', 'AlMap', 'AlList', 'AlBox', 'CNamesE'])
        if k < 12:
            return 'List<%s>' % self.state_ty(d + 1, params)
        if k < 15:
            return 'Map<%s, %s>' % (r.choice(['u8', 'u16', 'u32', 'CKey']), self.state_ty(d + 1, params))
        if k == 15:
            return 'Maybe<%s>' % self.state_ty(d + 1, params)
        if k == 16:
            return 'Box<%s>' % self.state_ty(d + 1, params)
        name, n = r.choice(self.generic + [('CGen', 2), ('CGenE', 1)])
        return '%s<%s>' % (name, ', '.join(self.state_ty(d + 2, params) for _ in range(n)))

    def fields(self, state, kind, n, params=(), used=None):
        used, out = used if used is not None else set(), []
        for i in range(n):
            ns = state and not params and self.r.random() < .12
            ty = self.plain_ty(1) if ns or not state else self.state_ty(0, params)
            out.append(F(None if kind == 'tuple' else 'f_%d' % i, self.tag(used), ty, no_state=ns,
                         cs='renamed_%d_x' % i if self.r.random() < .1 else None))
        return out

    def grow(self, b, state, used):
        """The fields of a later version."""
        fs = [F(f.name, f.tag, self.newer(f.ty), f.no_state, cs=f.cs) for f in b.fields]
        fs += [F(None if b.kind == 'tuple' else 'g_%d' % j, self.tag(used), self.state_ty(1) if state else self.plain_ty(1))
               for j in range(self.r.randrange(1, 4))]
        self.r.shuffle(fs)
        return fs

    def newer(self, ty):
        return re.sub(r'[A-Za-z0-9_]+', lambda m: self.later.get(m.group(0), m.group(0)), ty)

    def attrs(self, name, p=.15):
        return ['csharp_name = "Cs%s"' % name] if self.r.random() < p else []

    def make(self, i, state):
        r = self.r
        pre = 'CS' if state else 'CP'
        name = '%s%d' % (pre, i)
        params = []
        if state and r.random() < .2:
            params = ['TA', 'TB'][:r.randrange(1, 3)]
        extra = dict(no_size_cache=True) if r.random() < .1 else {}
        evolve = state and not params
        if r.random() < .6:
            n = r.randrange(len(params), 7)
            kind = self.kind(n)
            if params and not n:
                kind = 'named'
            fs = self.fields(state, kind, n, params)
            for p, f in zip(params, fs):
                if not any(p in re.findall(r'\w+', f.ty) for f in fs):
                    f.ty, f.no_state = p, False
            for p in params:
                if not any(p in re.findall(r'\w+', f.ty) for f in fs):
                    fs.append(F(None if kind == 'tuple' else 'g_' + p.lower(), self.tag({f.tag for f in fs}), 'List<%s>' % p))
            t = S(name, fs, kind=kind, state=state, generics=params, attrs=self.attrs(name), **extra)
            if evolve and kind != 'unit':
                used = {f.tag for f in fs}
                self.types.append(S(name + 'New', self.grow(t.body, state, used), kind=kind, attrs=self.attrs(name + 'New')))
                self.later[name] = name + 'New'
        else:
            used, vs, new = {0}, [], []
            for j in range(r.randrange(1, 5)):
                n = r.randrange(0, 5)
                kind = self.kind(n)
                tags = set()
                fs = self.fields(state, kind, n, params, tags)
                vname = 'V%s' % 'abcdefg'[j]
                if j == 0:
                    for p in params:
                        if kind == 'unit':
                            kind = 'named'
                        fs.append(F(None if kind == 'tuple' else 'g_' + p.lower(), self.tag(tags), p))
                v = Vr(vname, 0 if j == 0 else self.tag(used), fs, kind, attrs=self.attrs(name + vname))
                vs.append(v)
                if evolve:
                    new.append(Vr(vname, v.tag, self.grow(v.body, state, tags) if kind != 'unit' else [], kind))
            r.shuffle(vs)
            t = E(name, vs, state=state, generics=params, attrs=self.attrs(name))
            if evolve:
                r.shuffle(new)
                self.types.append(E(name + 'New', new))
                self.later[name] = name + 'New'
        self.types.append(t)
        if params:
            self.generic.append((name, len(params)))
        else:
            (self.state_names if state else self.plain_names).append(name)
        if name in self.later:
            self.evo.append((name, name + 'New'))

    def run(self, n):
        self.later = {}
        for i in range(n // 2):
            self.make(i, False)
        for i in range(n):
            self.make(i, True)
        roots = [t.name for t in self.types if t.state and not t.generics]
        for g, k in self.generic:
            roots += ['%s<%s>' % (g, ', '.join(self.state_ty(1) for _ in range(k))) for _ in range(2)]
        roots += ['List<%s>' % self.state_ty(1), 'Map<u8, %s>' % self.state_ty(1), 'Maybe<%s>' % self.state_ty(1)]
        return roots


def make_client(seed, n):
    r = ClientRand(seed)
    roots = r.run(n)
    z = Zoo(client_fixed() + r.types)
    for t in z.types.values():
        t.hash = t.clone = t.debug = False
        t.eq = bool(t.derives)
    evo = CLIENT_EVO + r.evo
    return z, list(dict.fromkeys(CLIENT_ROOTS + roots)), evo


def emit_client(z, roots, evo):
    regs = list(dict.fromkeys(roots + [b for _, b in evo]))
    out = z.emit([], regs, evo, bare=True)
    out += ''.join('pub type %s = %s;\n' % a for a in ALIASES.items())
    out += ('pub type Gen = fn(&steit::gen::Setting<steit::gen::generators::CSharpSetting>) -> std::io::Result<Vec<String>>;\n'
            'pub fn gens() -> Vec<(&\'static str, Gen)> { vec![\n%s] }\n' % ''.join(
                '("%s", |s| steit::gen::Generator::generate::<%s>(&steit::gen::generators::CSharpGenerator, s)),\n' % (t, t)
                for t in list(dict.fromkeys(regs + [a for a, _ in evo] + CLIENT_PLAIN))))
    return out


CLIENT_PLAIN = ['PAll', 'PNest', 'PHigh', 'PRec', 'PRecE', 'CPGen<u8>', 'CPGen<CPGen<PKey>>', 'PUnit', 'Vec<PTup>', 'Option<PEnum>',
                '[PKey; 2]', 'Box<PNest>', 'LogEntry']


def make(seed, nrand):
    types = fixed()
    plain, state = fixed_regs()
    r = Rand(seed)
    rp, rs = r.run(nrand)
    z = Zoo(types + r.types)
    return z, plain + rp, state + rs, EVO + r.evo


def drop(z, names, plain, state, evo):
    """Leaves out the types named and all that refer to them."""
    names = set(names)
    while True:
        more = {t.name for t in z.types.values() if t.name not in names and
                any(i in names for b in t.bodies() for f in b.fields for i in z.idents(f.ty))}
        if not more:
            break
        names |= more
    for n in names:
        z.types.pop(n, None)
    keep = lambda ty: not names & set(z.idents(ty))
    return [t for t in plain if keep(t)], [t for t in state if keep(t)], [e for e in evo if keep(e[0]) and keep(e[1])]


def main():
    seed, nrand, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    if sys.argv[4:] == ['client']:
        text = emit_client(*make_client(seed, nrand))
    else:
        z, plain, state, evo = make(seed, nrand)
        plain, state, evo = drop(z, sys.argv[4:], plain, state, evo)
        text = z.emit(plain, state, evo)
    try:
        if open(out).read() == text:
            return
    except OSError:
        pass
    open(out, 'w').write(text)


if __name__ == '__main__':
    main()
