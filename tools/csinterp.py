"""Runs C# as parsed by csparse: enough of the language and of the base class library for generated clients and the
client library, dynamically typed where the difference does not show.

Values: N (integers and enums), bool, str, None, float, Obj (instances), CsList, CsDict, CsArr, CsStr (builders), Delegate,
RT (types, also as values of `typeof`), Tup.
"""
import threading

import csparse
from csparse import Cls, Member, Param

PRELUDE = r'''
namespace System {
    public class Exception { public string Message { get; set; } public Exception InnerException { get; set; }
        public Exception(string message = null, Exception inner = null) { this.Message = message; this.InnerException = inner; }
        public override string ToString() { return this.Message; } }
    public class SystemException : Exception { public SystemException(string m = null, Exception i = null) : base(m, i) { } }
    public class NotSupportedException : SystemException { public NotSupportedException(string m = null, Exception i = null) : base(m, i) { } }
    public class NotImplementedException : SystemException { public NotImplementedException(string m = null, Exception i = null) : base(m, i) { } }
    public class InvalidOperationException : SystemException { public InvalidOperationException(string m = null, Exception i = null) : base(m, i) { } }
    public class ArgumentException : SystemException { public ArgumentException(string m = null, Exception i = null) : base(m, i) { } }
    public class ArgumentNullException : ArgumentException { public ArgumentNullException(string m = null, Exception i = null) : base(m, i) { } }
    public class ArgumentOutOfRangeException : ArgumentException { public ArgumentOutOfRangeException(string m = null, Exception i = null) : base(m, i) { } }
    public class IndexOutOfRangeException : SystemException { public IndexOutOfRangeException(string m = null, Exception i = null) : base(m, i) { } }
    public class NullReferenceException : SystemException { public NullReferenceException(string m = null, Exception i = null) : base(m, i) { } }
    public class InvalidCastException : SystemException { public InvalidCastException(string m = null, Exception i = null) : base(m, i) { } }
    public class MissingMemberException : SystemException { public MissingMemberException(string m = null, Exception i = null) : base(m, i) { } }
    public class MissingMethodException : MissingMemberException { public MissingMethodException(string m = null, Exception i = null) : base(m, i) { } }
    public class FormatException : SystemException { public FormatException(string m = null, Exception i = null) : base(m, i) { } }
    public class ArithmeticException : SystemException { public ArithmeticException(string m = null, Exception i = null) : base(m, i) { } }
    public class OverflowException : ArithmeticException { public OverflowException(string m = null, Exception i = null) : base(m, i) { } }
    public class DivideByZeroException : ArithmeticException { public DivideByZeroException(string m = null, Exception i = null) : base(m, i) { } }
    public class ApplicationException : Exception { public ApplicationException(string m = null, Exception i = null) : base(m, i) { } }
    public class ObjectDisposedException : InvalidOperationException { public ObjectDisposedException(string m = null, Exception i = null) : base(m, i) { } }
    public class TimeoutException : SystemException { public TimeoutException(string m = null, Exception i = null) : base(m, i) { } }
    public class MissingFieldException : MissingMemberException { public MissingFieldException(string m = null, Exception i = null) : base(m, i) { } }
    public class PlatformNotSupportedException : NotSupportedException { public PlatformNotSupportedException(string m = null, Exception i = null) : base(m, i) { } }
    public class Lazy<T> { private Func<T> f; private T v; private bool made; public Lazy(Func<T> f) { this.f = f; }
        public bool IsValueCreated { get { return made; } }
        public T Value { get { if (!made) { v = f(); made = true; } return v; } } }
    public class Tuple<A> { public A Item1 { get; } public Tuple(A a) { Item1 = a; }
        public override bool Equals(object o) { return o is Tuple<A> t && object.Equals(t.Item1, Item1); } public override string ToString() { return "(" + Item1 + ")"; } }
    public class Tuple<A, B> { public A Item1 { get; } public B Item2 { get; } public Tuple(A a, B b) { Item1 = a; Item2 = b; }
        public void Deconstruct(out A a, out B b) { a = Item1; b = Item2; }
        public override bool Equals(object o) { return o is Tuple<A, B> t && object.Equals(t.Item1, Item1) && object.Equals(t.Item2, Item2); }
        public override string ToString() { return "(" + Item1 + ", " + Item2 + ")"; } }
    public class Tuple<A, B, C> { public A Item1 { get; } public B Item2 { get; } public C Item3 { get; } public Tuple(A a, B b, C c) { Item1 = a; Item2 = b; Item3 = c; }
        public void Deconstruct(out A a, out B b, out C c) { a = Item1; b = Item2; c = Item3; }
        public override bool Equals(object o) { return o is Tuple<A, B, C> t && object.Equals(t.Item1, Item1) && object.Equals(t.Item2, Item2) && object.Equals(t.Item3, Item3); }
        public override string ToString() { return "(" + Item1 + ", " + Item2 + ", " + Item3 + ")"; } }
    public static class Tuple {
        public static Tuple<A> Create<A>(A a) { return new Tuple<A>(a); }
        public static Tuple<A, B> Create<A, B>(A a, B b) { return new Tuple<A, B>(a, b); }
        public static Tuple<A, B, C> Create<A, B, C>(A a, B b, C c) { return new Tuple<A, B, C>(a, b, c); } }
    public class ArraySegment<T> : System.Collections.Generic.IList<T>, System.Collections.Generic.IReadOnlyList<T> {
        public T[] Array { get; } public int Offset { get; } public int Count { get; }
        public ArraySegment(T[] array) { Array = array; Offset = 0; Count = array.Length; }
        public ArraySegment(T[] array, int offset, int count) { if (array == null) { throw new ArgumentNullException("array"); }
            if (offset < 0 || count < 0 || offset + count > array.Length) { throw new ArgumentException("offset"); } Array = array; Offset = offset; Count = count; }
        public T this[int i] { get { if (i < 0 || i >= Count) { throw new ArgumentOutOfRangeException("index"); } return Array[Offset + i]; } set { Array[Offset + i] = value; } }
        public ArraySegment<T> Slice(int at) { return new ArraySegment<T>(Array, Offset + at, Count - at); }
        public ArraySegment<T> Slice(int at, int n) { return new ArraySegment<T>(Array, Offset + at, n); }
        public T[] ToArray() { var a = new T[Count]; System.Array.Copy(Array, Offset, a, 0, Count); return a; }
        public System.Collections.Generic.IEnumerator<T> GetEnumerator() { for (var i = 0; i < Count; i++) { yield return Array[Offset + i]; } } }
    public class EventArgs { public EventArgs() { } }
}
namespace System.IO {
    public class IOException : System.SystemException { public IOException(string m = null, System.Exception i = null) : base(m, i) { } }
    public class EndOfStreamException : IOException { public EndOfStreamException(string m = null, System.Exception i = null) : base(m, i) { } }
    public class FileNotFoundException : IOException { public FileNotFoundException(string m = null, System.Exception i = null) : base(m, i) { } }
    public enum SeekOrigin { Begin, Current, End }
    public abstract class Stream : System.IDisposable {
        public abstract long Length { get; } public abstract long Position { get; set; }
        public abstract int Read(byte[] buffer, int offset, int count); public abstract void Write(byte[] buffer, int offset, int count);
        public virtual int ReadByte() { var b = new byte[1]; return Read(b, 0, 1) == 0 ? -1 : b[0]; }
        public virtual void WriteByte(byte v) { Write(new byte[] { v }, 0, 1); }
        public virtual bool CanRead { get { return true; } } public virtual bool CanSeek { get { return true; } } public virtual bool CanWrite { get { return true; } }
        public virtual void Flush() { } public virtual void Close() { } public virtual void Dispose() { }
        public virtual long Seek(long at, SeekOrigin o) { Position = o == SeekOrigin.Begin ? at : o == SeekOrigin.Current ? Position + at : Length + at; return Position; }
        public void CopyTo(Stream s) { int b; while ((b = ReadByte()) >= 0) { s.WriteByte((byte) b); } } }
    public class MemoryStream : Stream {
        private System.Collections.Generic.List<byte> data; private int at; private bool fixed_;
        public MemoryStream() { data = new System.Collections.Generic.List<byte>(); }
        public MemoryStream(int capacity) { data = new System.Collections.Generic.List<byte>(); }
        public MemoryStream(byte[] bytes) { if (bytes == null) { throw new System.ArgumentNullException("buffer"); } data = new System.Collections.Generic.List<byte>(bytes); fixed_ = true; }
        public MemoryStream(byte[] bytes, bool writable) : this(bytes) { }
        public MemoryStream(byte[] bytes, int index, int count) : this(new System.ArraySegment<byte>(bytes, index, count).ToArray()) { }
        public MemoryStream(byte[] bytes, int index, int count, bool writable) : this(bytes, index, count) { }
        public override long Length { get { return data.Count; } }
        public override long Position { get { return at; } set { if (value < 0) { throw new System.ArgumentOutOfRangeException("value"); } at = (int) value; } }
        public override int ReadByte() { return at < data.Count ? (int) data[at++] : -1; }
        public override int Read(byte[] buffer, int offset, int count) { var n = 0; while (n < count && at < data.Count) { buffer[offset + n] = data[at]; n++; at++; } return n; }
        public override void Write(byte[] buffer, int offset, int count) { for (var i = 0; i < count; i++) { WriteByte(buffer[offset + i]); } }
        public override void WriteByte(byte v) { if (at < data.Count) { data[at] = v; } else if (fixed_) { throw new System.NotSupportedException(); } else { data.Add(v); } at++; }
        public byte[] ToArray() { return data.ToArray(); } public byte[] GetBuffer() { return data.ToArray(); } }
    public class InvalidDataException : System.SystemException { public InvalidDataException(string m = null, System.Exception i = null) : base(m, i) { } }
}
namespace System.Collections.Generic {
    public class KeyNotFoundException : System.SystemException { public KeyNotFoundException(string m = null, System.Exception i = null) : base(m, i) { } }
    public class Queue<T> : IReadOnlyCollection<T> {
        private List<T> xs = new List<T>(); public Queue() { } public Queue(int capacity) { } public Queue(IEnumerable<T> ys) { xs.AddRange(ys); }
        public int Count { get { return xs.Count; } } public void Enqueue(T x) { xs.Add(x); } public void Clear() { xs.Clear(); } public bool Contains(T x) { return xs.Contains(x); }
        public T Peek() { if (xs.Count == 0) { throw new System.InvalidOperationException("Queue empty."); } return xs[0]; }
        public T Dequeue() { var x = Peek(); xs.RemoveAt(0); return x; }
        public bool TryDequeue(out T x) { if (xs.Count == 0) { x = default(T); return false; } x = Dequeue(); return true; }
        public bool TryPeek(out T x) { if (xs.Count == 0) { x = default(T); return false; } x = xs[0]; return true; }
        public T[] ToArray() { return xs.ToArray(); } public IEnumerator<T> GetEnumerator() { return xs.GetEnumerator(); } }
    public class Stack<T> : IReadOnlyCollection<T> {
        private List<T> xs = new List<T>(); public Stack() { } public Stack(int capacity) { } public Stack(IEnumerable<T> ys) { xs.AddRange(ys); }
        public int Count { get { return xs.Count; } } public void Push(T x) { xs.Add(x); } public void Clear() { xs.Clear(); } public bool Contains(T x) { return xs.Contains(x); }
        public T Peek() { if (xs.Count == 0) { throw new System.InvalidOperationException("Stack empty."); } return xs[xs.Count - 1]; }
        public T Pop() { var x = Peek(); xs.RemoveAt(xs.Count - 1); return x; }
        public bool TryPop(out T x) { if (xs.Count == 0) { x = default(T); return false; } x = Pop(); return true; }
        public bool TryPeek(out T x) { if (xs.Count == 0) { x = default(T); return false; } x = Peek(); return true; }
        public T[] ToArray() { var a = xs.ToArray(); System.Array.Reverse(a); return a; }
        public IEnumerator<T> GetEnumerator() { for (var i = xs.Count - 1; i >= 0; i--) { yield return xs[i]; } } }
    public class SortedDictionary<K, V> : IDictionary<K, V>, IReadOnlyDictionary<K, V> {
        private List<K> ks = new List<K>(); private Dictionary<K, V> d = new Dictionary<K, V>();
        public SortedDictionary() { } public SortedDictionary(IDictionary<K, V> o) { foreach (var kv in o) { Add(kv.Key, kv.Value); } }
        public int Count { get { return ks.Count; } } public ICollection<K> Keys { get { return ks; } }
        public ICollection<V> Values { get { var r = new List<V>(); foreach (var k in ks) { r.Add(d[k]); } return r; } }
        private void Place(K k) { if (!d.ContainsKey(k)) { var i = 0; while (i < ks.Count && Comparer<K>.Default.Compare(ks[i], k) < 0) { i++; } ks.Insert(i, k); } }
        public V this[K k] { get { return d[k]; } set { Place(k); d[k] = value; } }
        public void Add(K k, V v) { if (d.ContainsKey(k)) { throw new System.ArgumentException("An item with the same key has already been added"); } Place(k); d[k] = v; }
        public bool ContainsKey(K k) { return d.ContainsKey(k); } public bool TryGetValue(K k, out V v) { return d.TryGetValue(k, out v); }
        public bool Remove(K k) { ks.Remove(k); return d.Remove(k); } public void Clear() { ks.Clear(); d.Clear(); }
        public IEnumerator<KeyValuePair<K, V>> GetEnumerator() { foreach (var k in ks) { yield return new KeyValuePair<K, V>(k, d[k]); } } }
}
namespace System.Collections.ObjectModel {
    using System.Collections.Generic;
    public class ReadOnlyCollection<T> : IList<T>, IReadOnlyList<T> {
        private IList<T> list__;
        public ReadOnlyCollection(IList<T> list) { if (list == null) { throw new System.ArgumentNullException("list"); } this.list__ = list; }
        protected IList<T> Items { get { return this.list__; } }
        public int Count { get { return this.list__.Count; } }
        public T this[int index] { get { return this.list__[index]; } }
        public bool Contains(T value) { return this.list__.Contains(value); }
        public int IndexOf(T value) { return this.list__.IndexOf(value); }
        public IEnumerator<T> GetEnumerator() { return this.list__.GetEnumerator(); }
    }
    public class ReadOnlyDictionary<TKey, TValue> : IDictionary<TKey, TValue>, IReadOnlyDictionary<TKey, TValue> {
        private IDictionary<TKey, TValue> dict__;
        public ReadOnlyDictionary(IDictionary<TKey, TValue> dictionary) { if (dictionary == null) { throw new System.ArgumentNullException("dictionary"); } this.dict__ = dictionary; }
        protected IDictionary<TKey, TValue> Dictionary { get { return this.dict__; } }
        public int Count { get { return this.dict__.Count; } }
        public ICollection<TKey> Keys { get { return this.dict__.Keys; } }
        public ICollection<TValue> Values { get { return this.dict__.Values; } }
        public TValue this[TKey key] { get { return this.dict__[key]; } }
        public bool ContainsKey(TKey key) { return this.dict__.ContainsKey(key); }
        public bool TryGetValue(TKey key, out TValue value) { return this.dict__.TryGetValue(key, out value); }
        public IEnumerator<object> GetEnumerator() { return this.dict__.GetEnumerator(); }
    }
}
'''


class Unsupported(Exception):
    """The interpreter cannot run this."""


class CompileError(Exception):
    """What a C# compiler would refuse. `blame`: the type it is said of, if it is not the one being compiled."""
    def __init__(self, msg, blame=None):
        super().__init__(msg)
        self.blame, self.judged = blame, False


class CsEx(Exception):
    def __init__(self, obj):
        self.obj = obj
        super().__init__('%s: %s' % (obj.rt.d.name, obj.f.get('Message')))


INT = {'Byte': (8, 0), 'UInt16': (16, 0), 'UInt32': (32, 0), 'UInt64': (64, 0), 'SByte': (8, 1), 'Int16': (16, 1),
       'Int32': (32, 1), 'Int64': (64, 1), 'Char': (16, 0)}
MASK = {k: (1 << b) - 1 for k, (b, s) in INT.items()}
TOP = {k: (1 << (b - 1)) if s else None for k, (b, s) in INT.items()}


class N:
    __slots__ = ('k', 'v')

    def __init__(self, k, v):
        self.k, self.v = k, v

    def __repr__(self):
        return '%s(%s)' % (self.k, self.v)


def wrap(k, v):
    v &= MASK[k]
    t = TOP[k]
    if t is not None and v >= t:
        v -= t << 1
    return N(k, v)


class Tup:
    def __init__(self, items):
        self.items = items  # [(name, value)]

    def get(self, name):
        for i, (n, v) in enumerate(self.items):
            if n == name or name == 'Item%d' % (i + 1):
                return v
        raise Unsupported('tuple item ' + name)


class Seq:
    """A sequence which is made when enumerated."""
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, f

    def __iter__(self):
        return iter(self.f())


class Group(Seq):
    __slots__ = ('key',)


class Enumr:
    """An enumerator."""
    __slots__ = ('t', 'it', 'cur')

    def __init__(self, t, it):
        self.t, self.it, self.cur = t, iter(it), None

    def __iter__(self):
        return self.it

    def move(self):
        for x in self.it:
            self.cur = x
            return True
        return False


class Rest:
    """An index from the end, or a range."""
    def __init__(self, lo, hi=None, one=True):
        self.lo, self.hi, self.one = lo, hi, one

    def of(self, n):
        f = lambda x: n - x.lo.v if isinstance(x, Rest) else x.v
        if self.one:
            return n - self.lo.v
        return (0 if self.lo is None else f(self.lo)), (n if self.hi is None else f(self.hi))


class CsList:
    __slots__ = ('t', 'items')

    def __init__(self, t, items):
        self.t, self.items = t, items


class CsArr:
    __slots__ = ('t', 'items')

    def __init__(self, t, items):
        self.t, self.items = t, items


class CsDict:
    __slots__ = ('t', 'd')

    def __init__(self, t):
        self.t, self.d = t, {}


class CsSet(CsDict):
    __slots__ = ()


class Sb:
    def __init__(self, s=''):
        self.s = s


class Delegate:
    __slots__ = ('fs',)

    def __init__(self, fs):
        self.fs = fs

    def __call__(self, *a):
        r = None
        for f in self.fs:
            r = f(*a)
        return r


class LocalFn(Delegate):
    __slots__ = ('m',)


class Ref:
    """A variable passed by reference."""
    __slots__ = ('get', 'set')

    def __init__(self, get, set):
        self.get, self.set = get, set


class Obj:
    __slots__ = ('rt', 'f')

    def __init__(self, rt):
        self.rt, self.f = rt, {}


class Bound:
    """A method and its object."""
    def __init__(self, w, rt, this, name):
        self.w, self.rt, self.this, self.name = w, rt, this, name
        self.n = max(len(m.params) for m in w.find(rt, name)[1] if m.kind == 'method')

    def __call__(self, *a):
        return self.w.invoke(self.rt, self.this, self.name, [(None, 'ref' if isinstance(x, Ref) else None, x) for x in a])

    def __eq__(self, o):
        return isinstance(o, Bound) and (self.rt, self.name) == (o.rt, o.name) and self.this is o.this

    def __hash__(self):
        return hash(self.name)


class RT:
    """A runtime type: a declaration or the name of a native type, with arguments."""
    def __init__(self, w, d, args):
        self.w, self.d, self.args = w, d, args
        self.statics, self.ready, self.native = {}, False, isinstance(d, str)
        self.find_cache, self.compiled = {}, {}
        self.env = None

    @property
    def name(self):
        return self.d if self.native else self.d.name

    def full(self):
        if self.native:
            n = NATIVE_NS.get(self.d, 'System') + '.' + self.d
            if self.args and self.d != 'Array':
                n += '`%d[%s]' % (len(self.args), ','.join(a.full() for a in self.args))
            return n if self.d != 'Array' else self.args[0].full() + '[]'
        n = self.d.full()
        if self.args:
            n += '[%s]' % ','.join('[' + a.full() + ']' for a in self.args)
        return n

    def __repr__(self):
        return self.full()


NATIVE_NS = {'List': 'System.Collections.Generic', 'Dictionary': 'System.Collections.Generic'}
# Names a compiler would know without any source, with their arity.
NATIVES = {'Object': 0, 'String': 0, 'Boolean': 0, 'Void': 0, 'Double': 0, 'Single': 0, 'Decimal': 0, 'Type': 0, 'Array': 0, 'List': 1,
           'Dictionary': 2, 'IList': 1, 'IReadOnlyList': 1, 'IEnumerable': 1, 'IEnumerator': 1, 'ICollection': 1,
           'IReadOnlyCollection': 1, 'IDictionary': 2, 'IReadOnlyDictionary': 2, 'KeyValuePair': 2, 'Func': -1, 'Action': -1,
           'EventHandler': -1, 'StringBuilder': 0, 'Encoding': 0, 'UTF8Encoding': 0, 'Console': 0, 'Math': 0, 'MethodInfo': 0, 'ConstructorInfo': 0,
           'Nullable': 1, 'BitConverter': 0, 'Convert': 0, 'HashSet': 1, 'IDisposable': 0, 'IComparable': -1, 'IEquatable': 1,
           'Enumerable': 0, 'Buffer': 0, 'Activator': 0, 'BindingFlags': 0, 'ValueType': 0, 'Enum': 0, 'Delegate': 0, 'Char': 0}
NATIVES.update({k: 0 for k in INT})
NATIVE_SPACE = {'System': set('''Object String Boolean Void Double Single Decimal Type Array Func Action EventHandler Console Math Nullable
    BitConverter Convert IDisposable IComparable IEquatable Buffer Activator ValueType Enum Delegate Char'''.split()) | set(INT),
    'System.Collections.Generic': set('''List Dictionary IList IReadOnlyList IEnumerable IEnumerator ICollection IReadOnlyCollection
    IDictionary IReadOnlyDictionary KeyValuePair HashSet'''.split()),
    'System.Text': {'StringBuilder', 'Encoding', 'UTF8Encoding'}, 'System.Reflection': {'MethodInfo', 'ConstructorInfo', 'BindingFlags'},
    'System.Linq': {'Enumerable'}}
NATIVE_SPACE['System'] |= {'Span', 'IFormattable', 'IConvertible', 'IFormatProvider', 'StringComparison', 'GC', 'Environment', 'Predicate', 'Comparison', 'Converter', 'ANY',
                           'MulticastDelegate'}
NATIVES.update({'IFormattable': 0, 'IConvertible': 0, 'IFormatProvider': 0, 'StringComparison': 0, 'GC': 0, 'Environment': 0, 'Predicate': 1, 'Comparison': 1,
                'Converter': 2, 'ANY': 0, 'Span': 1, 'Interlocked': 0, 'Volatile': 0, 'Debug': 0, 'Comparer': 1, 'EqualityComparer': 1, 'IComparer': 1,
                'IEqualityComparer': 1, 'CultureInfo': 0, 'MulticastDelegate': 0, 'ISet': 1, 'IGrouping': 2, 'IOrderedEnumerable': 1})
NATIVE_SPACE['System.Collections.Generic'] |= {'Comparer', 'EqualityComparer', 'IComparer', 'IEqualityComparer', 'ISet'}
NATIVE_SPACE['System.Linq'] |= {'IGrouping', 'IOrderedEnumerable'}
NATIVE_SPACE['System.Threading'] = {'Interlocked', 'Volatile'}
NATIVE_SPACE['System.Diagnostics'] = {'Debug'}
NATIVE_SPACE['System.Globalization'] = {'CultureInfo'}
NATIVE_SPACE['System.Collections'] = {'IEnumerable', 'IEnumerator', 'IList', 'ICollection', 'IDictionary'}
# Types of the base class library which are not known here.
BCL = set('''ReadOnlySpan Memory ReadOnlyMemory Task ValueTask Thread Monitor ReaderWriterLock ConcurrentDictionary ConcurrentQueue ConcurrentBag
    LinkedList SortedList SortedSet Regex Match StringReader StringWriter TextWriter TextReader BinaryReader BinaryWriter File Directory Guid DateTime
    TimeSpan Random Stopwatch Assembly PropertyInfo FieldInfo ParameterInfo MemberInfo Expression ParameterExpression Attribute WeakReference
    ConditionalWeakTable ImmutableArray ImmutableList ImmutableDictionary ArrayPool BinaryPrimitives MemoryMarshal Unsafe RuntimeHelpers Index Range
    HashCode BigInteger Decimal Half Int128 UInt128 BitOperations Trace Uri Version IntPtr UIntPtr TypeCode StringComparer PriorityQueue ObservableCollection
    KeyedCollection Collection IReadOnlySet NumberStyles Flags FlagsAttribute Obsolete Conditional MethodImpl MethodImplOptions AggregateException
    OperationCanceledException TargetInvocationException TypeLoadException OutOfMemoryException StackOverflowException'''.split())


def has_arity(name, arity):
    return NATIVES[name] in (arity, -1) or (arity == 0 and name in NATIVE_SPACE['System.Collections'])


BREAK, CONTINUE = object(), object()


class Ret:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Goto:
    def __init__(self, v):
        self.v = v


def yields(s):
    """Whether a body is that of an iterator."""
    if isinstance(s, (tuple, list)):
        if isinstance(s, tuple) and s and s[0] in ('lambda', 'localfn', 'ebody'):
            return False
        if isinstance(s, tuple) and s and s[0] == 'yield':
            return True
        return any(yields(x) for x in s)
    return False


class Lazy:
    """What an iterator method returns: its body runs when enumerated, one element at a time."""

    def __init__(self, w, run, t):
        self.w, self.run, self.t = w, run, t

    def __iter__(self):
        go, out, box = threading.Semaphore(0), threading.Semaphore(0), []

        def give(v):
            box.append(('v', v))
            out.release()
            go.acquire()

        def body():
            go.acquire()
            try:
                self.run(give)
                box.append(('end', None))
            except BaseException as x:
                box.append(('ex', x))
            out.release()
        t = threading.Thread(target=body, daemon=True)
        t.start()
        while True:
            go.release()
            out.acquire()
            k, v = box.pop()
            if k == 'v':
                yield v
            elif k == 'ex':
                raise v
            else:
                return


class Scope(dict):
    """Variables of a function inside of another, or of one turn of a loop: the names in `own`; others are those of `up`."""
    __slots__ = ('up', 'own')

    def __init__(self, up, own):
        self.up, self.own = up, own

    def __missing__(self, k):
        return self.up[k]

    def __setitem__(self, k, v):
        if k in self.own:
            dict.__setitem__(self, k, v)
        else:
            self.up[k] = v

    def get(self, k, d=None):
        return dict.get(self, k, d) if k in self.own else self.up.get(k, d)

    def again(self):
        s = Scope(self.up, self.own)
        dict.update(s, self)
        return s


def declared(s, out=None):
    """Names which a statement or an expression declares, outside of the functions in it."""
    out = set() if out is None else out
    if isinstance(s, list):
        for x in s:
            declared(x, out)
    elif isinstance(s, tuple) and s:
        k = s[0]
        if k == 'lambda':
            return out
        if k == 'localfn':
            out.add(s[1].name)
            return out
        if k == 'local' and isinstance(s[2], list):
            out.update(n for n, _ in s[2])
        elif k == 'decon':
            out.update(s[1])
        elif k == 'foreach':
            out.update(s[2] if isinstance(s[2], list) else [s[2]])
        elif k == 'pvar' or k == 'decl':
            out.add(s[2])
        elif k == 'pprops' and s[3]:
            out.add(s[3])
        elif k == 'id' and len(s) == 4:
            out.add(s[1])
        elif k == 'try' and len(s) == 4:
            out.update(c[1] for c in s[2] if c[1])
            out.add('<ex>')
        for x in s:
            declared(x, out)
    return out


def captures(s):
    """Whether there are functions in a statement."""
    if isinstance(s, (tuple, list)):
        if isinstance(s, tuple) and s and s[0] in ('lambda', 'localfn'):
            return True
        return any(captures(x) for x in s)
    return False


def turn(body):
    """A function of the frame which gives the frame of one turn of a loop."""
    if not captures(body):
        return lambda fr: fr
    own = frozenset(declared(body))
    return lambda fr: Fr(fr.this, fr.rt, fr.targs, Scope(fr.L, own))


class Fr:
    """A running method."""
    __slots__ = ('this', 'rt', 'targs', 'L')

    def __init__(self, this, rt, targs, L):
        self.this, self.rt, self.targs, self.L = this, rt, targs, L


# `default` whose type is that of what it is used for.
DEFAULT = object()


class World:
    def __init__(self, sources, hand=()):
        """`sources`: (file name, text). What is wrong with files named in `hand` is that this interpreter does not know enough."""
        self.hand = set(hand) | {'prelude'} | {n for n, _ in sources if n.startswith('steit-csharp/src/') and n.rpartition('/')[2] not in ('LogEntry.cs', 'Maybe.cs')}
        self.by_name = {}     # (namespace, name, arity) -> Cls
        self.namespaces = set()
        self.interned = {}
        self.ext = {}         # extension methods by name
        self.steps = 0
        self.stderr = 0
        self.all = []
        for name, text in [('prelude', PRELUDE)] + list(sources):
            try:
                unit = csparse.parse(text, name)
            except csparse.ParseError as x:
                if name in self.hand:
                    raise Unsupported(str(x))
                raise
            for c in unit.types:
                self.declare(c)
        for c in self.all:
            for m in c.members:
                if m.kind == 'method' and m.params and m.params[0].mod == 'this':
                    self.ext.setdefault(m.name, []).append((c, m))
        self.O = self.nat('Object')

    def declare(self, c):
        key = (c.ns, c.name, len(c.tparams))
        if key in self.by_name:
            old = self.by_name[key]
            if 'partial' in c.mods and 'partial' in old.mods:
                old.members += c.members
                old.bases += c.bases
                for n in c.nested:
                    n.outer = old
                old.nested += c.nested
                return
            raise CompileError('%s is declared twice, in %s and %s' % (c.full(), old.file, c.file))
        self.by_name[key] = c
        self.all.append(c)
        p = c.ns
        while p:
            self.namespaces.add(p)
            p = p.rpartition('.')[0]

        def nested(c):
            for n in c.nested:
                self.all.append(n)
                nested(n)
        nested(c)

    # ------------------------------------------------------------ types
    def nat(self, name, *args):
        key = (name, args)
        t = self.interned.get(key)
        if t is None:
            t = self.interned[key] = RT(self, name, args)
        return t

    def inst(self, d, args=()):
        key = (d, tuple(args))
        t = self.interned.get(key)
        if t is None:
            t = self.interned[key] = RT(self, d, tuple(args))
        return t

    def all_tparams(self, d):
        """Names of all type parameters in scope, outermost first."""
        return (self.all_tparams(d.outer) if d.outer else []) + d.tparams

    def lookup_type(self, name, arity, d):
        """Declaration or native name that `name` with `arity` arguments denotes inside declaration `d`."""
        c = d
        while c is not None:
            if c.name == name and len(c.tparams) == arity:
                return c
            for b in self.decl_chain(c):
                for n in b.nested:
                    if n.name == name and len(n.tparams) == arity:
                        return n
            c = c.outer
        ns = d.ns if d else ''
        while True:
            x = self.by_name.get((ns, name, arity))
            if x:
                return x
            if ns in NATIVE_SPACE and name in NATIVE_SPACE[ns] and has_arity(name, arity):
                return name
            if not ns:
                break
            ns = ns.rpartition('.')[0]
        hits = []
        for u in (d.usings if d else []):
            x = self.by_name.get((u, name, arity))
            if x and x not in hits:
                hits.append(x)
            if name in NATIVE_SPACE.get(u, ()) and has_arity(name, arity) and name not in hits:
                hits.append(name)
        if len(hits) > 1:
            raise CompileError('%s: %s is ambiguous' % (d.file, name))
        return hits[0] if hits else None

    def decl_chain(self, c, depth=0):
        yield c
        if depth < 8 and c.kind == 'class' and not getattr(c, 'resolving', False):
            c.resolving = True
            try:
                for b in c.bases:
                    if b[0] == 'T':
                        parts = b[1]
                        x = self.lookup_type(parts[-1][0], len(parts[-1][1]), c.outer or Cls('class', '', [], c.ns, c.usings, None, []))
                        if isinstance(x, Cls) and x.kind == 'class':
                            yield from self.decl_chain(x, depth + 1)
            finally:
                c.resolving = False

    def resolve(self, t, rt, targs=None):
        """The runtime type of a type expression inside `rt` (a RT, or None) with method type arguments `targs`."""
        if t[0] == 'TT':
            return self.nat('ValueTuple', *[self.resolve(x, rt, targs) for x, _ in t[1]])
        _, parts, rank, nullable = t
        r = None
        if len(parts) == 1 and not parts[0][1]:
            n = parts[0][0]
            if targs and n in targs:
                r = targs[n]
            elif rt is not None and not rt.native:
                tp = self.all_tparams(rt.d)
                if n in tp:
                    k = len(tp) - 1 - tp[::-1].index(n)
                    r = rt.args[k] if k < len(rt.args) else self.O
        if r is None and rt is not None and not rt.native and parts[0][0] in getattr(rt.d.usings, 'alias', ()) and not parts[0][1]:
            y = rt.d.usings.alias[parts[0][0]]
            r = self.resolve(y if len(parts) == 1 else ('T', y[1] + tuple(parts[1:]), 0, False), rt, targs)
        if r is None:
            r = self.resolve_path(parts, rt, targs)
        if nullable and self.is_value(r):
            r = self.nat('Nullable', r)
        for _ in range(rank):
            r = self.nat('Array', r)
        return r

    def resolve_path(self, parts, rt, targs):
        d = rt.d if rt is not None and not rt.native else None
        first, a = parts[0]
        x = self.lookup_type(first, len(a), d)
        i = 1
        if x is None:
            ns = first
            while x is None and i < len(parts):
                n, a = parts[i]
                x = self.by_name.get((ns, n, len(a)))
                if x is None and n in NATIVE_SPACE.get(ns, ()):
                    x = n
                p = d.ns if d else ''
                while x is None and p:
                    x = self.by_name.get((p + '.' + ns, n, len(a)))
                    p = p.rpartition('.')[0]
                ns += '.' + n
                i += 1
        if x is None and len(parts) == 1 and first == 'dynamic' and not a:
            return self.O
        if x is None:
            if parts[-1][0] in BCL:
                raise Unsupported('%s: the type %s' % (d.file if d else '?', show_path(parts)))
            raise CompileError('%s: no type %s' % (d.file if d else '?', show_path(parts)))
        args = [self.resolve(y, rt, targs) if y else self.O for y in parts[i - 1][1]]
        if isinstance(x, str):
            r = self.nat(x, *args)
        else:
            if x.outer is not None:
                # A nested class shares the arguments of the enclosing instantiation.
                need = len(self.all_tparams(x.outer))
                own = tuple(rt.args[:need]) if rt is not None else ()
                r = self.inst(x, own + tuple(args))
            else:
                r = self.inst(x, args)
        while i < len(parts):
            n, a = parts[i]
            if r.native:
                raise CompileError('no type %s' % show_path(parts))
            for b in self.decl_chain(r.d):
                y = next((y for y in b.nested if y.name == n and len(y.tparams) == len(a)), None)
                if y:
                    break
            else:
                raise CompileError('%s: no type %s' % (d.file if d else '?', show_path(parts)))
            r = self.inst(y, tuple(r.args) + tuple(self.resolve(z, rt, targs) for z in a))
            i += 1
        return r

    def bases(self, rt):
        if rt.native:
            return NATIVE_BASES.get(rt.d, lambda w, a: [])(self, rt.args)
        b = rt.find_cache.get('<bases>')
        if b is None:
            # Base types are resolved in the scope of the declaration.
            b = rt.find_cache['<bases>'] = [self.resolve(x, rt) for x in rt.d.bases]
        return b

    def base_class(self, rt):
        for b in self.bases(rt):
            if not b.native and b.d.kind == 'class':
                return b
        return None

    def is_value(self, t):
        if t.native:
            return t.d in INT or t.d in ('Boolean', 'Double', 'Single', 'ValueTuple', 'KeyValuePair', 'Nullable')
        return t.d.kind in ('enum', 'struct')

    def subtype(self, a, b):
        if a is b or b is self.O:
            return True
        if a.native and a.d == 'ANY' or b.native and b.d == 'ANY':
            return True
        if a.native and b.native and a.d == b.d and a.args and len(a.args) == len(b.args) and (a.d[0] == 'I' or any(x.native and x.d == 'ANY' for x in a.args)):
            return all(self.subtype(x, y) for x, y in zip(a.args, b.args))
        if b.native and not b.args and b.d in ('IEnumerable', 'ICollection', 'IList', 'IDictionary'):
            if a.native and a.args and a.d == b.d:
                return True
        if b.native and b.d == 'Nullable':
            return self.subtype(a, b.args[0])
        key = ('sub', b)
        r = a.find_cache.get(key)
        if r is None:
            r = a.find_cache[key] = any(self.subtype(x, b) for x in self.bases(a))
        return r

    def type_of(self, v):
        if isinstance(v, N):
            return v.k if isinstance(v.k, RT) else self.nat(v.k)
        if isinstance(v, bool):
            return self.nat('Boolean')
        if isinstance(v, str):
            return self.nat('String')
        if isinstance(v, float):
            return self.nat('Double')
        if isinstance(v, Obj):
            return v.rt
        if isinstance(v, CsArr):
            return self.nat('Array', v.t)
        if isinstance(v, CsList):
            return self.nat('List', v.t)
        if isinstance(v, CsSet):
            return self.nat('HashSet', v.t[0])
        if isinstance(v, CsDict):
            return self.nat('Dictionary', *v.t) if v.t[0] is not self.O or v.t[1] is not self.O else self.O
        if isinstance(v, RT):
            return self.nat('Type')
        if isinstance(v, Delegate):
            return self.nat('Delegate')
        if isinstance(v, Sb):
            return self.nat('StringBuilder')
        if isinstance(v, Tup):
            return self.nat('ValueTuple', *[self.type_of(x) if x is not None else self.O for _, x in v.items])
        if isinstance(v, Refl):
            return self.nat(v.kind)
        if isinstance(v, Group):
            return self.nat('IGrouping', self.type_of(v.key), v.t)
        if isinstance(v, (Seq, Lazy)):
            return self.nat('IEnumerable', v.t)
        if isinstance(v, Enumr):
            return self.nat('IEnumerator', v.t)
        return self.O

    def val(self, v):
        """A copy, if values of its type are copied."""
        if type(v) is Obj and v.rt.d.kind == 'struct':
            o = Obj(v.rt)
            o.f = {k: self.val(x) for k, x in v.f.items()}
            return o
        return v

    def fits(self, v, t):
        """How well a value fits a type: 0 not at all, then better and better."""
        if v is DEFAULT:
            return 1
        if t is self.O:
            return 1
        if t.native and t.d == 'ANY':
            return 1
        if v is None:
            return 1 if not self.is_value(t) or t.d == 'Nullable' else 0
        if t.native and t.d == 'Nullable':
            t = t.args[0]
        if isinstance(v, N):
            if isinstance(v.k, RT):
                return 4 if v.k is t else 0
            if not t.native:
                return 0
            if t.d in ('IComparable', 'IEquatable', 'IFormattable', 'IConvertible', 'ValueType'):
                return 3
            if t.d == v.k:
                return 4
            if t.d in INT:
                b, s = INT[t.d]
                lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
                return 2 if lo <= v.v <= hi else 0
            return 0
        if isinstance(v, Delegate):
            return 3 if t.native and t.d in ('Func', 'Action', 'EventHandler', 'Delegate', 'Predicate', 'Comparison', 'Converter', 'MulticastDelegate', 'ANY') or (not t.native and t.d.kind == 'delegate') else 0
        a = self.type_of(v)
        if a is t:
            return 4
        if isinstance(v, (str, bool, float)) and t.native and t.d in ('IComparable', 'IEquatable', 'IConvertible', 'IFormattable'):
            return 3
        if isinstance(v, Tup):
            return 3 if t.native and t.d in ('ValueTuple', 'KeyValuePair') else 0
        if self.subtype(a, t):
            return 3
        return 1 if isinstance(v, Obj) and self.conversion(v, t) else 0

    def conversion(self, v, t):
        """The conversion a class defines from a value to a type."""
        if t.native and t.d not in INT and t.d not in ('Boolean', 'String', 'Double', 'Single', 'Array'):
            return None
        for c in [v.rt if isinstance(v, Obj) else None, None if t.native else t]:
            f = c and self.find(c, 'operator conversion')
            for m in f[1] if f else ():
                own = self.owner(c, m)
                if self.resolve(m.type, own) is t and self.fits(v, self.resolve(m.params[0].type, own)) > 2:
                    return own, m
        return None

    def coerce(self, v, t):
        """Assignment conversion: only the width of integers matters."""
        if v is DEFAULT and t is not None:
            return self.default(t)
        if isinstance(v, N) and t is not None and t.native:
            d = t.d
            if d == 'Nullable':
                t = t.args[0]
                d = t.d
            if d in INT and v.k != d and not isinstance(v.k, RT):
                return wrap(d, v.v)
            if d in ('Double', 'Single'):
                return float(v.v)
        elif t is not None and type(v) in (CsList, CsArr) and t.args and v.t.native and v.t.d == 'ANY':
            v.t = t.args[-1]
        elif t is not None and t is not self.O and type(v) in (Obj, str) and (not t.native or type(v) is Obj) and not self.subtype(self.type_of(v), t):
            c = self.conversion(v, t)
            if c:
                return self.call(c[1], c[0], None, [v], None)
        return self.val(v)

    def default(self, t):
        if t.native:
            if t.d in INT:
                return N(t.d, 0)
            if t.d == 'Boolean':
                return False
            if t.d in ('Double', 'Single'):
                return 0.0
            return None
        if t.d.kind == 'enum':
            self.prepare(t)
            return N(t, 0)
        if t.d.kind == 'struct':
            o = Obj(t)
            o.f = {k: self.val(x) for k, x in self.auto(t)}
            return o
        return None

    def throw(self, name, msg=''):
        for ns in ('System', 'System.IO', 'System.Collections.Generic'):
            d = self.by_name.get((ns, name, 0))
            if d:
                o = Obj(self.inst(d))
                o.f['Message'] = msg
                raise CsEx(o)
        raise Unsupported(name)

    # ------------------------------------------------------------ members
    def prepare(self, rt):
        """Runs static initialisers once."""
        if rt.ready or rt.native:
            return
        rt.ready = True
        c = Compiler(self, rt)
        for m in rt.d.members:
            if m.kind in ('field', 'event', 'prop') and ('static' in m.mods or 'const' in m.mods):
                if m.kind == 'prop' and m.get != 'auto':
                    continue
                t = self.resolve(m.type, rt)
                rt.statics[m.name] = self.default(t)
        for m in rt.d.members:
            if m.kind in ('field', 'event', 'prop') and ('static' in m.mods or 'const' in m.mods) and m.init is not None:
                t = self.resolve(m.type, rt)
                v = c.expr(m.init, set(), t)(Fr(None, rt, None, {}))
                rt.statics[m.name] = self.coerce(v, t)
        if rt.d.kind == 'enum':
            n = -1
            for name, e in rt.d.values:
                n = c.expr(e, set())(Fr(None, rt, None, {})).v if e else n + 1
                rt.statics[name] = N(rt, n)
        for m in rt.d.members:
            if m.kind == 'ctor' and 'static' in m.mods:
                self.body(rt, m)(Fr(None, rt, None, {}))

    def find(self, rt, name):
        """(defining type, members) of the most derived class which declares `name`, or None."""
        r = rt.find_cache.get(name, 0)
        if r == 0:
            r = None
            t = rt
            seen = []
            while t is not None and not t.native:
                ms = [m for m in t.d.members if m.name == name and m.kind != 'ctor']
                if len(ms) > 1 and any('explicit' in m.mods for m in ms):
                    ms = [m for m in ms if 'explicit' not in m.mods
                          or not any('explicit' not in x.mods and len(x.params or ()) == len(m.params or ()) for x in ms)]
                if ms and r is None:
                    r = (t, ms)
                    if ms[0].kind != 'method':
                        break
                elif ms and r is not None:
                    # Overloads inherited from bases, unless overridden.
                    sig = lambda m: [p.type for p in m.params]
                    more = [m for m in ms if m.kind == 'method' and not any(len(x.params) == len(m.params) for x in r[1])]
                    if more:
                        r = (r[0], r[1] + more)
                if r is None and (t.d.kind == 'enum') and any(n == name for n, _ in t.d.values):
                    r = (t, [Member('const', name, ['static'])])
                    break
                t = self.base_class(t)
            rt.find_cache[name] = r
        return r

    def body(self, rt, m, key=None):
        k = (id(m), key)
        f = rt.compiled.get(k)
        if f is None:
            body = m.body if key is None else (m.get if key == 'get' else m.set)
            params = m.params or []
            try:
                g = Compiler(self, rt, m).function(body, params)
            except CompileError as x:
                self.judge(x, rt)
                raise

            def f(fr):
                try:
                    return g(fr)
                except CompileError as x:
                    self.judge(x, rt)
                    raise
            rt.compiled[k] = f
        return f

    def judge(self, x, rt):
        """A compile error in what is written by hand is taken for the interpreter's, unless it is about a generated class."""
        if not x.judged:
            x.judged = True
            b = x.blame
            about = b is not None and not b.native and b.d.file not in self.hand
            if rt.d.file in self.hand and not about:
                raise Unsupported('%s: %s' % (rt.d.file, x)) from x

    def owner(self, rt, m):
        """The base of `rt` which declares member `m`."""
        t = rt
        while t is not None and not t.native:
            if m in t.d.members:
                return t
            t = self.base_class(t)
        raise Unsupported('owner of ' + m.name)

    def bind(self, m, rt, args, fr_targs):
        """Arguments in the order of the parameters, or None; with a score."""
        ps = m.params
        vals, used = [None] * len(ps), [False] * len(ps)
        score = 0
        pos = 0
        spread = ps and ps[-1].mod == 'params'
        for name, mod, v in args:
            if name is not None:
                k = next((i for i, p in enumerate(ps) if p.name == name), None)
                if k is None or used[k]:
                    return None
            else:
                k = pos
                pos += 1
                if spread and k >= len(ps) - 1:
                    t = self.ptype(ps[-1], rt, m, fr_targs)
                    if not used[-1] and isinstance(v, CsArr) and k == len(ps) - 1 and len([a for a in args if a[0] is None]) == len(ps):
                        vals[-1], used[-1] = v, True
                        continue
                    if not used[-1]:
                        vals[-1], used[-1] = CsArr(t.args[0], []), True
                    vals[-1].items.append(v)
                    continue
                if k >= len(ps):
                    return None
            p = ps[k]
            if (mod in ('ref', 'out', 'outvar')) != (p.mod in ('ref', 'out')):
                return None
            if p.mod in ('ref', 'out'):
                s = 3
            else:
                t = self.ptype(p, rt, m, fr_targs)
                s = 2 if t is None else self.fits(v, t)
                if s == 0:
                    return None
                if t is not None:
                    v = self.coerce(v, t)
            score += s
            vals[k], used[k] = v, True
        for k, p in enumerate(ps):
            if not used[k]:
                if p.default is not None:
                    t = self.ptype(p, rt, m, fr_targs)
                    vals[k] = self.coerce(Compiler(self, rt).expr(p.default, set(), t)(Fr(None, rt, fr_targs, {})), t) if t is not None else None
                    score -= 1
                elif p.mod == 'params':
                    vals[k] = CsArr(self.ptype(p, rt, m, fr_targs).args[0], [])
                    score -= 1
                else:
                    return None
        return vals, score

    def ptype(self, p, rt, m, targs):
        """Type of a parameter, None while it depends on a type argument to be inferred."""
        tp = m.tparams or []
        if targs is None and tp and mentions(p.type, tp):
            return None
        try:
            return self.resolve(p.type, rt, targs)
        except CompileError:
            if getattr(m, 'local', False):
                return None
            raise

    def choose(self, ms, rt, args, targs, what):
        best = None
        for m in ms:
            if m.kind not in ('method', 'ctor'):
                continue
            own = rt
            t = None
            if m.tparams:
                if targs:
                    if len(targs) != len(m.tparams):
                        continue
                    t = dict(zip(m.tparams, targs))
            elif targs:
                continue
            own = self.owner(rt, m) if m not in rt.d.members else rt
            b = self.bind(m, own, args, t)
            if b is not None and (best is None or b[1] > best[0]):
                best = (b[1], m, own, b[0], t)
        if best is None:
            raise CompileError('%s: no overload of %s takes %s' % (rt, what, [repr(a[2])[:60] for a in args]), rt)
        _, m, own, vals, t = best
        if m.tparams and t is None:
            t = {}
            for p, v in zip(m.params, vals):
                self.infer(p.type, v.get() if isinstance(v, Ref) else v, m.tparams, t, own)
            for x in m.tparams:
                t.setdefault(x, self.O)
        return m, own, vals, t

    def infer(self, pt, v, tps, out, rt):
        if pt[0] != 'T' or v is None:
            return
        parts = pt[1]
        if len(parts) == 1 and not parts[0][1]:
            if parts[0][0] in tps and parts[0][0] not in out:
                t = self.type_of(v)
                for _ in range(pt[2]):
                    t = t.args[0] if t.args else self.O
                out[parts[0][0]] = t
            return
        t = self.type_of(v)
        todo = [t]
        while todo:
            t = todo.pop()
            if t.name == parts[-1][0] and len(t.args) == len(parts[-1][1]):
                for a, x in zip(parts[-1][1], t.args):
                    if a and a[0] == 'T' and len(a[1]) == 1 and a[1][0][0] in tps and a[1][0][0] not in out:
                        out[a[1][0][0]] = x
                return
            todo += self.bases(t)

    def call(self, m, rt, this, vals, targs):
        self.prepare(rt)
        if this is not None and ('virtual' in m.mods or 'abstract' in m.mods or 'override' in m.mods or rt.d.kind == 'interface'):
            f = self.find(this.rt, m.name)
            if f:
                for x in f[1]:
                    if x.kind == 'method' and len(x.params) == len(m.params) and x.body is not None:
                        rt, m = self.owner(this.rt, x), x
                        break
        if m.body is None:
            raise Unsupported('%s.%s has no body' % (rt, m.name))
        L = {p.name: v for p, v in zip(m.params, vals)}
        self.steps += 1
        if self.steps > self.limit:
            raise Unsupported('too many steps')
        r = self.body(rt, m)(Fr(this, rt, targs, L))
        if isinstance(r, N):
            r = self.coerce(r, self.resolve(m.type, rt, targs))
        return r

    limit = 1 << 62

    def invoke(self, rt, this, name, args, targs=(), public=False):
        """Calls a method by name from outside."""
        f = self.find(rt, name)
        if not f:
            raise CompileError('%s has no %s' % (rt, name), rt)
        m, own, vals, t = self.choose(f[1], rt, args, targs, name)
        return self.call(m, own, this, vals, t)

    def construct(self, rt, args):
        if rt.native:
            return native_new(self, rt, args)
        if rt.d.kind == 'delegate':
            return args[0][2]
        self.prepare(rt)
        if 'abstract' in rt.d.mods or 'static' in rt.d.mods or rt.d.kind == 'interface':
            raise CompileError('%s cannot be made' % rt, rt)
        o = Obj(rt)
        self.steps += 1
        t = rt
        chain = []
        while t is not None:
            chain.append(t)
            t = self.base_class(t)
        for t in chain:
            self.prepare(t)
            for name, dv in self.auto(t):
                o.f[name] = dv
        self.run_ctor(rt, o, args)
        return o

    def auto(self, t):
        """Instance fields of a class with their default values."""
        r = t.find_cache.get('<auto>')
        if r is None:
            r = []
            for m in t.d.members:
                if m.kind in ('field', 'event', 'prop') and 'static' not in m.mods and 'const' not in m.mods:
                    if m.kind != 'prop' or m.get == 'auto':
                        r.append((m.name, self.default(self.resolve(m.type, t))))
            t.find_cache['<auto>'] = r
        return r

    def run_ctor(self, rt, o, args):
        ctors = [m for m in rt.d.members if m.kind == 'ctor' and 'static' not in m.mods]
        if not ctors or (rt.d.kind == 'struct' and not args and not any(not m.params for m in ctors)):
            if args:
                raise CompileError('%s has no constructor with arguments' % rt, rt)
            self.inits(rt, o)
            b = self.base_class(rt)
            if b:
                self.run_ctor(b, o, [])
            return
        m, _, vals, _ = self.choose(ctors, rt, args, (), 'the constructor')
        L = {p.name: v for p, v in zip(m.params, vals)}
        fr = Fr(o, rt, None, L)
        if not (m.chain and m.chain[0] == 'this'):
            self.inits(rt, o)
        if m.chain:
            k = ('chain', id(m))
            ev = rt.compiled.get(k)
            if ev is None:
                ev = rt.compiled[k] = Compiler(self, rt, m).args(m.chain[1], set(p.name for p in m.params))
            a = ev(fr)
            self.run_ctor(rt if m.chain[0] == 'this' else self.base_class(rt), o, a)
        else:
            b = self.base_class(rt)
            if b:
                self.run_ctor(b, o, [])
        self.body(rt, m)(fr)

    def inits(self, rt, o):
        for m in rt.d.members:
            if m.kind in ('field', 'event', 'prop') and m.init is not None and 'static' not in m.mods and 'const' not in m.mods:
                t = self.resolve(m.type, rt)
                o.f[m.name] = self.coerce(Compiler(self, rt).expr(m.init, set(), t)(Fr(None, rt, None, {})), t)

    # ------------------------------------------------------------ properties and fields
    def get(self, o, name):
        """Reads a member of a value."""
        if o is None:
            self.throw('NullReferenceException', 'reading %s' % name)
        if isinstance(o, Obj):
            f = self.find(o.rt, name)
            if f is not None:
                t, ms = f
                m = ms[0]
                if m.kind == 'method':
                    return self.group(o.rt, o, name)
                if 'static' not in m.mods and 'const' not in m.mods:
                    if m.kind != 'prop' or m.get == 'auto':
                        return o.f[name]
                    if m.get is None:
                        raise CompileError('%s.%s cannot be read' % (t, name))
                    return self.body(t, m, 'get')(Fr(o, t, None, {}))
                raise CompileError('%s.%s is static' % (t, name))
            if self.has_native_get(o, name):
                return self.native_of(o, name)
            if name in self.ext:
                return lambda *a: self.call_ext(o, name, a)
            raise CompileError('%s has no %s' % (o.rt, name), o.rt)
        return native_get(self, o, name)

    def has_native_get(self, o, name):
        return False

    def group(self, rt, this, name):
        """A method group as a delegate."""
        return Delegate([Bound(self, rt, this, name)])

    def put(self, o, name, v):
        if o is None:
            self.throw('NullReferenceException', 'writing %s' % name)
        if isinstance(o, Tup):
            for i, (n, _) in enumerate(o.items):
                if n == name or name == 'Item%d' % (i + 1):
                    o.items[i] = (n, v)
                    return
        if isinstance(o, Sb) and name == 'Length':
            o.s = o.s[:v.v].ljust(v.v, '\0')
            return
        if isinstance(o, CsList) and name == 'Capacity':
            return
        if not isinstance(o, Obj):
            raise Unsupported('writing %s of %r' % (name, o))
        f = self.find(o.rt, name)
        if f is None:
            raise CompileError('%s has no %s' % (o.rt, name), o.rt)
        t, ms = f
        m = ms[0]
        v = self.coerce(v, self.resolve(m.type, t))
        if m.kind == 'prop' and m.get != 'auto':
            if m.set is None:
                raise CompileError('%s.%s cannot be written' % (t, name))
            self.body(t, m, 'set')(Fr(o, t, None, {'value': v}))
        elif m.kind in ('field', 'event', 'prop'):
            o.f[name] = v
        else:
            raise CompileError('%s.%s cannot be written' % (t, name))

    def get_static(self, rt, name):
        if rt.native:
            return native_static(self, rt, name)
        f = self.find(rt, name)
        if f is None:
            raise CompileError('%s has no %s' % (rt, name), rt)
        t, ms = f
        self.prepare(t)
        m = ms[0]
        if m.kind == 'method':
            return self.group(rt, None, name)
        if m.kind == 'prop' and m.get != 'auto':
            return self.body(t, m, 'get')(Fr(None, t, None, {}))
        if name not in t.statics:
            raise CompileError('%s.%s is not static' % (t, name))
        return t.statics[name]

    def put_static(self, rt, name, v):
        f = self.find(rt, name)
        if f is None:
            raise CompileError('%s has no %s' % (rt, name), rt)
        t, ms = f
        self.prepare(t)
        m = ms[0]
        v = self.coerce(v, self.resolve(m.type, t))
        if m.kind == 'prop' and m.get != 'auto':
            self.body(t, m, 'set')(Fr(None, t, None, {'value': v}))
        else:
            t.statics[name] = v

    def index(self, o, args):
        if isinstance(o, Obj):
            f = self.find(o.rt, 'this[]')
            if f:
                t, ms = f
                m = ms[0]
                vals = self.bind(m, t, args, None)
                if vals is None:
                    raise CompileError('%s cannot be indexed by %s' % (t, args))
                return self.body(t, m, 'get')(Fr(o, t, None, {p.name: v for p, v in zip(m.params, vals[0])}))
            raise CompileError('%s cannot be indexed' % o.rt, o.rt)
        if o is None:
            self.throw('NullReferenceException', 'indexing')
        return native_index(self, o, args[0][2])

    def put_index(self, o, args, v):
        if isinstance(o, Obj):
            f = self.find(o.rt, 'this[]')
            if f:
                t, ms = f
                m = ms[0]
                if m.set is None:
                    raise CompileError('%s: the indexer cannot be written' % t)
                vals = self.bind(m, t, args, None)
                L = {p.name: x for p, x in zip(m.params, vals[0])}
                L['value'] = self.coerce(v, self.resolve(m.type, t))
                self.body(t, m, 'set')(Fr(o, t, None, L))
                return
            raise CompileError('%s cannot be indexed' % o.rt, o.rt)
        if o is None:
            self.throw('NullReferenceException', 'indexing')
        k = args[0][2]
        if isinstance(k, Rest) and isinstance(o, (CsArr, CsList)):
            k = N('Int32', k.of(len(o.items)))
        if isinstance(o, CsDict):
            if k is None:
                self.throw('ArgumentNullException', 'key')
            o.d[key(k)] = (k, self.coerce(v, o.t[1]))
        elif isinstance(o, (CsArr, CsList)):
            if not 0 <= k.v < len(o.items):
                self.throw('IndexOutOfRangeException' if isinstance(o, CsArr) else 'ArgumentOutOfRangeException', 'index %d of %d' % (k.v, len(o.items)))
            o.items[k.v] = self.coerce(v, o.t)
        else:
            raise Unsupported('indexing %r' % o)

    def call_ext(self, o, name, args, targs=()):
        cands = []
        for c, m in self.ext.get(name, ()):
            cands.append((c, m))
        best = None
        for c, m in cands:
            rt = self.inst(c)
            t = dict(zip(m.tparams, targs)) if targs and m.tparams else None
            b = self.bind(m, rt, [(None, None, o)] + list(args), t)
            if b is not None and (best is None or b[1] > best[0]):
                best = (b[1], m, rt, b[0], t)
        if best is None:
            raise CompileError('no extension method %s for %r with %s' % (name, o, args))
        _, m, rt, vals, t = best
        if m.tparams and t is None:
            t = {}
            for p, v in zip(m.params, vals):
                self.infer(p.type, v, m.tparams, t, rt)
        return self.call(m, rt, None, vals, t)

    def iterate(self, o):
        if isinstance(o, (CsList, CsArr)):
            n = len(o.items)
            for x in list(o.items):
                yield x
                if isinstance(o, CsList) and len(o.items) != n:
                    self.throw('InvalidOperationException', 'Collection was modified')
        elif isinstance(o, CsDict):
            n = len(o.d)
            for k, v in list(o.d.values()):
                yield k if isinstance(o, CsSet) else Tup([('Key', k), ('Value', v)])
                if len(o.d) > n:
                    self.throw('InvalidOperationException', 'Collection was modified')
        elif isinstance(o, str):
            for ch in o:
                yield N('Char', ord(ch))
        elif isinstance(o, Obj):
            f = self.find(o.rt, 'GetEnumerator')
            if not f:
                raise CompileError('%s cannot be enumerated' % o.rt, o.rt)
            e = self.invoke(o.rt, o, 'GetEnumerator', [])
            if isinstance(e, Obj) and self.find(e.rt, 'MoveNext'):
                while self.invoke(e.rt, e, 'MoveNext', []):
                    yield self.get(e, 'Current')
            else:
                yield from self.iterate(e)
        elif o is None:
            self.throw('NullReferenceException', 'enumerating')
        else:
            try:
                yield from o
            except TypeError:
                raise Unsupported('enumerating %r' % o)

    def equals(self, a, b):
        """`Equals`."""
        if isinstance(a, Obj):
            f = self.find(a.rt, 'Equals')
            if f:
                try:
                    return self.invoke(a.rt, a, 'Equals', [(None, None, b)])
                except CompileError:
                    pass
            if a.rt.d.kind == 'struct' and isinstance(b, Obj) and b.rt is a.rt:
                return all(self.equals(x, b.f[k]) for k, x in a.f.items())
        if isinstance(a, N) and isinstance(b, N) and a.k != b.k:
            return False
        return self.equal(a, b)

    def compare(self, a, b):
        if a is None or b is None:
            return (a is not None) - (b is not None)
        if isinstance(a, N):
            return (a.v > b.v) - (a.v < b.v)
        if isinstance(a, (str, float, bool)):
            return (a > b) - (a < b)
        if isinstance(a, Tup):
            return next((c for c in (self.compare(x[1], y[1]) for x, y in zip(a.items, b.items)) if c), 0)
        if isinstance(a, Obj) and self.find(a.rt, 'CompareTo'):
            return self.invoke(a.rt, a, 'CompareTo', [(None, None, b)]).v
        self.throw('InvalidOperationException', 'Failed to compare two elements in the array.')

    def equal(self, a, b):
        if isinstance(a, N) and isinstance(b, N):
            return a.v == b.v
        if isinstance(a, N) or isinstance(b, N):
            if isinstance(a, float) or isinstance(b, float):
                return (a.v if isinstance(a, N) else a) == (b.v if isinstance(b, N) else b)
            return False
        if isinstance(a, (str, bool, float)) or isinstance(b, (str, bool, float)):
            return type(a) is type(b) and a == b
        if isinstance(a, Delegate) and isinstance(b, Delegate):
            return a.fs == b.fs
        if isinstance(a, Tup) and isinstance(b, Tup):
            return all(self.equal(x[1], y[1]) for x, y in zip(a.items, b.items))
        return a is b

    def text(self, v):
        if v is None:
            return ''
        if isinstance(v, N):
            if isinstance(v.k, RT):
                self.prepare(v.k)
                for n, x in v.k.statics.items():
                    if isinstance(x, N) and x.v == v.v:
                        return n
            return chr(v.v) if v.k == 'Char' else str(v.v)
        if isinstance(v, bool):
            return 'True' if v else 'False'
        if isinstance(v, Obj):
            f = self.find(v.rt, 'ToString')
            if f:
                return self.invoke(v.rt, v, 'ToString', [])
            return v.rt.full()
        if isinstance(v, Sb):
            return v.s
        if isinstance(v, RT):
            return v.full()
        if isinstance(v, Tup):
            return '(%s)' % ', '.join(self.text(x) for _, x in v.items)
        if isinstance(v, float):
            return repr(int(v)) if v == int(v) and abs(v) < 1e15 else repr(v)
        if isinstance(v, (CsList, CsArr, CsDict)):
            return self.type_of(v).full()
        return str(v)

    def spec(self, v, align, f):
        """A value by a format."""
        if not f or v is None or isinstance(v, str):
            x = self.text(v)
        elif isinstance(v, N) and f[0] in 'xXdD' and (f[1:].isdigit() or len(f) == 1) and not (isinstance(v.k, RT)):
            n = int(f[1:] or 0)
            if f[0] in 'dD':
                x = ('-' if v.v < 0 else '') + str(abs(v.v)).rjust(n, '0')
            else:
                x = '%x' % (v.v & MASK[v.k])
                x = (x.upper() if f[0] == 'X' else x).rjust(n, '0')
        elif isinstance(v, N) and f in 'gG':
            x = self.text(v)
        else:
            raise Unsupported('the format ' + f)
        return x.rjust(align) if align >= 0 else x.ljust(-align)

    def format(self, f, args):
        import re
        if f is None:
            self.throw('ArgumentNullException', 'format')

        def sub(m):
            if m[0] in ('{{', '}}'):
                return m[0][0]
            k = int(m[1])
            if k >= len(args):
                self.throw('FormatException', 'index %d' % k)
            return self.spec(args[k], int(m[2] or 0), m[3])
        return re.sub(r'\{\{|\}\}|\{(\d+)(?:,\s*(-?\d+))?(?::([^}]*))?\}', sub, f)


class Refl:
    """MethodInfo or ConstructorInfo."""
    def __init__(self, kind, rt, m):
        self.kind, self.rt, self.m = kind, rt, m


def show_path(parts):
    return '.'.join(n + ('<%d>' % len(a) if a else '') for n, a in parts)


def key(k):
    if isinstance(k, N):
        return k.v
    if isinstance(k, Tup):
        return tuple(key(v) for _, v in k.items)
    return k


def mentions(t, names):
    if t[0] == 'TT':
        return any(mentions(x, names) for x, _ in t[1])
    return any(n in names and len(t[1]) == 1 or any(a and mentions(a, names) for a in args) for n, args in t[1])


def _coll(w, a):
    return [w.nat('IEnumerable', *a)]


NATIVE_BASES = {
    'List': lambda w, a: [w.nat('IList', *a), w.nat('IReadOnlyList', *a)],
    'Array': lambda w, a: [w.nat('IList', *a), w.nat('IReadOnlyList', *a)],
    'IList': lambda w, a: [w.nat('ICollection', *a)],
    'ICollection': lambda w, a: [w.nat('IEnumerable', *a)],
    'IReadOnlyList': lambda w, a: [w.nat('IReadOnlyCollection', *a)],
    'IReadOnlyCollection': lambda w, a: [w.nat('IEnumerable', *a)],
    'Dictionary': lambda w, a: [w.nat('IDictionary', *a), w.nat('IReadOnlyDictionary', *a)],
    'IDictionary': lambda w, a: [w.nat('ICollection', w.nat('KeyValuePair', *a))],
    'IReadOnlyDictionary': lambda w, a: [w.nat('IReadOnlyCollection', w.nat('KeyValuePair', *a))],
    'IGrouping': lambda w, a: [w.nat('IEnumerable', a[1])],
    'IOrderedEnumerable': lambda w, a: [w.nat('IEnumerable', *a)],
    'HashSet': lambda w, a: [w.nat('ISet', *a), w.nat('IReadOnlyCollection', *a)],
    'ISet': lambda w, a: [w.nat('ICollection', *a)],
}


# ---------------------------------------------------------------- base class library

def ints(o):
    return bytes(x.v & 255 for x in o)


def native_new(w, rt, args):
    a = [x[2] for x in args]
    n = rt.d
    if n == 'List':
        if a and a[0] is None:
            w.throw('ArgumentNullException', 'collection')
        return CsList(rt.args[0], [] if not a or isinstance(a[0], N) else [w.coerce(x, rt.args[0]) for x in w.iterate(a[0])])
    if n == 'Dictionary':
        d = CsDict(rt.args)
        if a and not isinstance(a[0], N):
            for kv in w.iterate(a[0]):
                d.d[key(kv.get('Key'))] = (kv.get('Key'), kv.get('Value'))
        return d
    if n == 'HashSet':
        d = CsSet((rt.args[0], rt.args[0]))
        for x in (w.iterate(a[0]) if a and not isinstance(a[0], N) else ()):
            x = w.coerce(x, rt.args[0])
            d.d[key(x)] = (x, x)
        return d
    if n == 'Nullable':
        return a[0]
    if n == 'StringBuilder':
        return Sb(a[0] if a and isinstance(a[0], str) else '')
    if n == 'Object':
        return CsDict((w.O, w.O))
    if n == 'KeyValuePair':
        return Tup([('Key', a[0]), ('Value', a[1])])
    if n in ('Func', 'Action', 'EventHandler', 'Predicate', 'Comparison', 'Converter'):
        return a[0]
    if n == 'String':
        if isinstance(a[0], CsArr):
            return ''.join(chr(x.v) for x in a[0].items)
        if len(a) != 2 or not all(isinstance(x, N) for x in a):
            raise CompileError('string has no constructor for %d such arguments' % len(a))
        return chr(a[0].v) * a[1].v
    if n == 'UTF8Encoding':
        return w.nat('UTF8Encoding')
    if n in CS_NUMERIC:
        if a:
            raise CompileError('%s has no constructor with %d arguments' % (rt, len(a)))
        return w.default(rt)
    raise Unsupported('new %s' % rt)


CS_NUMERIC = ('Byte', 'UInt16', 'UInt32', 'UInt64', 'SByte', 'Int16', 'Int32', 'Int64')


def i32(v):
    return N('Int32', v)


def nums(w, xs):
    return [x.v for x in w.iterate(xs)]


def call_n(f, *a):
    """Calls a delegate with as many arguments as it takes."""
    g = f.fs[-1] if isinstance(f, Delegate) else f
    n = getattr(g, 'n', len(a))
    return f(*a[:n])


def order(w, f=None):
    """A key for Python's sort by a comparison or by the default one."""
    import functools
    return functools.cmp_to_key((lambda a, b: f(a, b).v) if f else w.compare)


def comparison(w, a):
    if not a:
        return order(w)
    f = a[0]
    if isinstance(f, Delegate):
        return order(w, f)
    if f is None or isinstance(f, NS):
        return order(w)
    return order(w, lambda x, y: w.invoke(f.rt, f, 'Compare', [(None, None, x), (None, None, y)]))


def native_get(w, o, name, targs=()):
    """A member of a native value: a value, or a Python callable for methods."""
    it = w.iterate
    if isinstance(o, Enumr):
        if name == 'MoveNext':
            return o.move
        if name == 'Current':
            return o.cur
        if name in ('Dispose', 'Reset'):
            return lambda: None
    if isinstance(o, Group) and name == 'Key':
        return o.key
    if isinstance(o, (Seq, Lazy)) and name == 'GetEnumerator':
        return lambda: Enumr(o.t, it(o))
    if isinstance(o, RT):
        return type_member(w, o, name)
    if isinstance(o, Refl):
        if name == 'Invoke':
            if o.kind == 'MethodInfo':
                return lambda this, args: w.call(o.m, o.rt, this, [a for a in (args.items if args else [])], None)
            return lambda args: w.construct(o.rt, [(None, None, a) for a in args.items])
        if name == 'Name':
            return o.m.name
    if isinstance(o, Tup):
        if name == 'ToString':
            return lambda: str(o)
        return o.get(name)
    if isinstance(o, Sb):
        if name == 'Append':
            def app(x, *_):
                o.s += w.text(x)
                return o
            return app
        if name == 'AppendFormat':
            def appf(f, *a):
                o.s += w.format(f, a[0].items if len(a) == 1 and isinstance(a[0], CsArr) else a)
                return o
            return appf
        if name == 'AppendLine':
            def appl(x=''):
                o.s += w.text(x) + '\n'
                return o
            return appl
        if name == 'Insert':
            def ins(k, x):
                o.s = o.s[:k.v] + w.text(x) + o.s[k.v:]
                return o
            return ins
        if name == 'ToString':
            return lambda *a: o.s
        if name == 'Length':
            return i32(len(o.s))
    if isinstance(o, Delegate):
        if name in ('Invoke', 'DynamicInvoke'):
            return o
        if name == 'Equals':
            return lambda x: w.equal(o, x)
        if name == 'Method':
            raise Unsupported('Delegate.Method')
        if name == 'GetInvocationList':
            return lambda: CsArr(w.nat('Delegate'), [Delegate([f]) for f in o.fs])
    if isinstance(o, N):
        if name == 'ToString':
            return lambda *a: w.spec(o, 0, a[0]) if a and isinstance(a[0], str) else w.text(o)
        if name == 'Value':
            return o
        if name == 'HasValue':
            return True
        if name == 'GetValueOrDefault':
            return lambda *a: o
        if name == 'Equals':
            return lambda x: w.equals(o, w.coerce(x, w.nat(o.k)) if isinstance(x, N) and isinstance(o.k, str) and w.fits(x, w.nat(o.k)) > 0 and not isinstance(x.k, RT) else x)
        if name == 'CompareTo':
            return lambda x: i32((o.v > x.v) - (o.v < x.v))
        if name == 'GetHashCode':
            return lambda: i32(o.v & 0x7fffffff)
        if name == 'HasFlag':
            return lambda x: o.v & x.v == x.v
    if isinstance(o, (bool, float)):
        if name == 'ToString':
            return lambda *a: w.text(o)
        if name == 'Value':
            return o
        if name == 'HasValue':
            return True
        if name == 'Equals':
            return lambda x: w.equal(o, x)
        if name == 'GetValueOrDefault':
            return lambda *a: o
        if name == 'CompareTo':
            return lambda x: i32(w.compare(o, x))
        if name == 'GetHashCode':
            return lambda: i32(hash(o) & 0x7fffffff)
    if isinstance(o, str):
        if name == 'Length':
            return i32(len(o))
        m = {'Equals': lambda x, *_: w.equal(o, x), 'ToString': lambda: o, 'ToUpper': lambda: o.upper(), 'ToLower': lambda: o.lower(),
             'StartsWith': lambda x, *_: o.startswith(w.text(x)), 'EndsWith': lambda x, *_: o.endswith(w.text(x)),
             'Contains': lambda x, *_: w.text(x) in o, 'Substring': lambda a, n=None: o[a.v:] if n is None else o[a.v:a.v + n.v],
             'Trim': lambda *a: o.strip(), 'IndexOf': lambda x, *_: i32(o.find(w.text(x))), 'Replace': lambda a, b: o.replace(w.text(a), w.text(b)),
             'ToCharArray': lambda: CsArr(w.nat('Char'), [N('Char', ord(c)) for c in o]), 'GetHashCode': lambda: i32(len(o)),
             'Split': lambda *a: CsArr(w.nat('String'), o.split(w.text(a[0]))), 'CompareTo': lambda x: i32(w.compare(o, x)),
             'PadLeft': lambda n, c=N('Char', 32): o.rjust(n.v, chr(c.v)), 'PadRight': lambda n, c=N('Char', 32): o.ljust(n.v, chr(c.v)),
             'LastIndexOf': lambda x, *_: i32(o.rfind(w.text(x))), 'TrimStart': lambda *a: o.lstrip(''.join(map(w.text, a)) or None),
             'TrimEnd': lambda *a: o.rstrip(''.join(map(w.text, a)) or None), 'Insert': lambda k, x: o[:k.v] + x + o[k.v:],
             'Remove': lambda k, n=None: o[:k.v] + ('' if n is None else o[k.v + n.v:]), 'ToUpperInvariant': lambda: o.upper(),
             'ToLowerInvariant': lambda: o.lower(), 'GetEnumerator': lambda: Enumr(w.nat('Char'), it(o)),
             'IndexOfAny': lambda cs: i32(min([o.find(chr(c.v)) for c in cs.items if chr(c.v) in o] or [-1]))}
        if name in m:
            return m[name]
    if isinstance(o, CsDict) and o.t[0] is w.O and o.t[1] is w.O and name in ('ToString', 'Equals', 'GetHashCode', 'GetType'):
        return {'ToString': lambda: 'System.Object', 'Equals': lambda x: x is o, 'GetHashCode': lambda: i32(id(o) & 0x7fffffff), 'GetType': lambda: w.O}[name]
    if isinstance(o, CsSet):
        ys = lambda x: {key(y): (y, y) for y in it(x)}

        def upd(new):
            o.d.clear()
            o.d.update(new)
        m = {'UnionWith': lambda x: upd(dict(o.d, **{}) | ys(x)), 'ExceptWith': lambda x: upd({k: v for k, v in o.d.items() if k not in ys(x)}),
             'IntersectWith': lambda x: upd({k: v for k, v in o.d.items() if k in ys(x)}), 'SetEquals': lambda x: set(o.d) == set(ys(x)),
             'IsSubsetOf': lambda x: set(o.d) <= set(ys(x)), 'IsSupersetOf': lambda x: set(o.d) >= set(ys(x)), 'Overlaps': lambda x: bool(set(o.d) & set(ys(x)))}
        if name in m:
            return m[name]
        if name in ('Keys', 'Values', 'ContainsKey', 'TryAdd'):
            raise Unsupported('HashSet.' + name)
    if isinstance(o, CsDict):
        d = o.d
        vals = lambda f: [f(x) for x in d.values()]
        if name == 'Count':
            return i32(len(d))
        if name == 'Keys':
            return CsList(o.t[0], vals(lambda x: x[0]))
        if name == 'Values':
            return CsList(o.t[1], vals(lambda x: x[1]))
        if name == 'ContainsKey':
            return lambda k: key(k) in d
        if name == 'Contains':
            return lambda k: (key(k.get('Key')) if isinstance(k, Tup) else key(k)) in d
        if name == 'Remove':
            def dr(k, *ref):
                if k is None:
                    w.throw('ArgumentNullException', 'key')
                x = d.pop(key(k), None)
                if ref:
                    ref[0].set(x[1] if x else w.default(o.t[1]))
                return x is not None
            return dr
        if name in ('Add', 'TryAdd'):
            def add(k, *v):
                if v and k is None:
                    w.throw('ArgumentNullException', 'key')
                if key(k) in d:
                    if v and name == 'Add':
                        w.throw('ArgumentException', 'An item with the same key has already been added')
                    return False
                d[key(k)] = (w.coerce(k, o.t[0]), w.coerce(v[0], o.t[1]) if v else k)
                return True
            return add
        if name == 'Clear':
            return lambda: d.clear()
        if name == 'TryGetValue':
            def tgv(k, ref):
                x = d.get(key(k))
                ref.set(x[1] if x else w.default(o.t[1]))
                return x is not None
            return tgv
        if name == 'ContainsValue':
            return lambda v: any(w.equals(v, x[1]) for x in d.values())
        if name == 'GetValueOrDefault':
            return lambda k, *z: d[key(k)][1] if key(k) in d else z[0] if z else w.default(o.t[1])
        if name == 'GetEnumerator':
            return lambda: Enumr(elem_type(w, o), it(o))
    if isinstance(o, (CsList, CsArr)):
        xs = o.items
        if name == 'Count' and True:
            return i32(len(xs)) if isinstance(o, CsList) else CountOf(len(xs), lambda *f: i32(len(xs) if not f else sum(1 for x in xs if f[0](x))))
        if name in ('Length',) and isinstance(o, CsArr):
            return i32(len(xs))
        if name == 'Contains':
            return lambda x: any(w.equals(w.coerce(x, o.t), y) for y in xs)
        if name == 'IndexOf':
            return lambda x: i32(next((i for i, y in enumerate(xs) if w.equals(w.coerce(x, o.t), y)), -1))
        if name == 'CopyTo':
            def copy(*a):
                if len(a) == 4:
                    array_copy(w, o, a[0].v, a[1], a[2].v, a[3].v)
                else:
                    array_copy(w, o, 0, a[0], a[1].v if len(a) > 1 else 0, len(xs))
            return copy
        if name == 'Clone' and isinstance(o, CsArr):
            return lambda: CsArr(o.t, list(xs))
        if name == 'GetLength' and isinstance(o, CsArr):
            return lambda k: i32(len(xs))
        if name == 'LongLength' and isinstance(o, CsArr):
            return N('Int64', len(xs))
        if name == 'Rank' and isinstance(o, CsArr):
            return i32(1)
        if name in ('IsReadOnly', 'IsFixedSize', 'IsSynchronized'):
            return name == 'IsFixedSize' and isinstance(o, CsArr)
        if isinstance(o, CsList) or name in ():
            def bad(k, n):
                if not 0 <= k < n:
                    w.throw('ArgumentOutOfRangeException', 'index %d of %d' % (k, n))
            if name == 'Add':
                return lambda x: xs.append(w.coerce(x, o.t))
            if name == 'RemoveAt':
                def rm(k):
                    bad(k.v, len(xs))
                    del xs[k.v]
                return rm
            if name == 'Remove':
                def rmv(x):
                    for i, y in enumerate(xs):
                        if w.equals(w.coerce(x, o.t), y):
                            del xs[i]
                            return True
                    return False
                return rmv
            if name == 'Insert':
                def ins(k, x):
                    bad(k.v, len(xs) + 1)
                    xs.insert(k.v, w.coerce(x, o.t))
                return ins
            if name == 'AddRange':
                return lambda ys: xs.extend(w.coerce(y, o.t) for y in list(it(ys)))
            if name == 'Clear':
                return lambda: xs.clear()
            if name == 'RemoveRange':
                def rr(a, n):
                    if a.v < 0 or n.v < 0 or a.v + n.v > len(xs):
                        w.throw('ArgumentException', 'range')
                    del xs[a.v:a.v + n.v]
                return rr
            if name == 'GetRange':
                return lambda a, n: CsList(o.t, xs[a.v:a.v + n.v])
            if name == 'Reverse':
                return lambda: xs.reverse()
            if name == 'Capacity':
                return i32(max(len(xs), 4))
            if name == 'InsertRange':
                def insr(k, ys):
                    bad(k.v, len(xs) + 1)
                    xs[k.v:k.v] = [w.coerce(y, o.t) for y in list(it(ys))]
                return insr
            if name == 'Sort':
                return lambda *a: xs.sort(key=comparison(w, a))
            fi = lambda f, ys: next((i for i, y in ys if f(y)), -1)
            en = lambda: list(enumerate(xs))

            def remove_all(f):
                n = len(xs)
                xs[:] = [x for x in list(xs) if not f(x)]
                return i32(n - len(xs))
            m = {'FindIndex': lambda f: i32(fi(f, en())), 'FindLastIndex': lambda f: i32(fi(f, en()[::-1])), 'Exists': lambda f: fi(f, en()) >= 0,
                 'Find': lambda f: next((y for y in list(xs) if f(y)), w.default(o.t)), 'FindAll': lambda f: CsList(o.t, [y for y in list(xs) if f(y)]),
                 'FindLast': lambda f: next((y for y in xs[::-1] if f(y)), w.default(o.t)), 'TrueForAll': lambda f: all(f(y) for y in list(xs)),
                 'RemoveAll': remove_all, 'ConvertAll': lambda f: loose(w, [f(y) for y in list(xs)]), 'LastIndexOf': lambda x: i32(fi(lambda y: w.equals(x, y), en()[::-1])),
                 'BinarySearch': None, 'TrimExcess': lambda: None, 'EnsureCapacity': lambda n: n}
            if m.get(name):
                return m[name]
            if name == 'AsReadOnly':
                return lambda: roc(w, o, o.t)
            if name == 'ForEach':
                return lambda f: [f(x) for x in list(xs)] and None
        if name == 'GetEnumerator':
            return lambda: Enumr(elem_type(w, o), it(o))
    m = linq(w, o, name, targs)
    if m is not None:
        return m
    if name == 'GetType':
        return lambda: w.type_of(o)
    if name == 'Equals':
        return lambda x: w.equals(o, x)
    if name == 'ToString':
        return lambda *a: w.text(o)
    if name == 'GetHashCode':
        return lambda: i32(hash(key(o)) & 0x7fffffff if isinstance(o, Tup) else id(o) & 0x7fffffff)
    if name in w.ext:
        return None
    if isinstance(o, str) and name in CASED:
        raise Unsupported('String.' + name)
    raise Unsupported('%s of %s' % (name, w.type_of(o)))


CASED = ()


class CountOf(N):
    """`Count` of an array: a property through an interface, or the LINQ method."""
    __slots__ = ('f',)

    def __init__(self, v, f):
        N.__init__(self, 'Int32', v)
        self.f = f

    def __call__(self, *a):
        return self.f(*a)


def roc(w, o, t):
    return w.construct(w.inst(w.by_name[('System.Collections.ObjectModel', 'ReadOnlyCollection', 1)], (t,)), [(None, None, o)])


def elem_type(w, o):
    if isinstance(o, (CsList, CsArr, Seq, Lazy, Enumr)):
        return o.t
    if isinstance(o, CsDict) and not isinstance(o, CsSet):
        return w.nat('KeyValuePair', *o.t)
    t = [w.type_of(o)]
    while t:
        x = t.pop()
        if x.native and x.d == 'IEnumerable' and x.args:
            return x.args[0]
        t += w.bases(x)
    return w.O


def loose(w, xs):
    """A list of values of types which are not declared."""
    ts = {w.type_of(x) if x is not None else w.O for x in xs}
    return CsList(ts.pop() if len(ts) == 1 and None not in xs else w.nat('ANY'), xs)


def array_copy(w, a, i, b, j, n):
    if n < 0 or i < 0 or j < 0:
        w.throw('ArgumentOutOfRangeException', 'copy')
    if i + n > len(a.items) or j + n > len(b.items):
        w.throw('ArgumentException', 'Destination array was not long enough.')
    b.items[j:j + n] = [w.coerce(x, b.t) for x in a.items[i:i + n]]


ENUMERABLE = set('''ToArray ToList Select Where First Last FirstOrDefault LastOrDefault Any All Skip Take Reverse SkipLast TakeLast Count LongCount ElementAt
    ElementAtOrDefault Aggregate SequenceEqual Cast OfType Concat Append Prepend Distinct Single SingleOrDefault Zip SelectMany TakeWhile SkipWhile OrderBy
    OrderByDescending ThenBy ThenByDescending ToDictionary ToHashSet GroupBy Min Max Sum Average Union Intersect Except DefaultIfEmpty AsEnumerable
    Contains Range Repeat Empty ToLookup Chunk MinBy MaxBy DistinctBy'''.split())


class Ordered(Seq):
    __slots__ = ('keys', 'src')


def linq(w, o, name, targs=()):
    if name not in ENUMERABLE:
        return None
    it = lambda: w.iterate(o)
    t = lambda: elem_type(w, o)
    any_ = w.nat('ANY')
    n_ = lambda x: x.v if isinstance(x, N) else x
    some = lambda x: x is not None

    def none():
        w.throw('InvalidOperationException', 'Sequence contains no elements')

    def first(f=None, d=0, rev=False):
        xs = it() if not rev else reversed(list(it()))
        for x in xs:
            if f is None or f(x):
                return x
        return w.default(t()) if d else none()

    def opt(*a):
        f = a[0] if a and isinstance(a[0], Delegate) else None
        return f

    def single(f=None, d=0):
        xs = [x for x in it() if f is None or f(x)]
        if len(xs) > 1:
            w.throw('InvalidOperationException', 'Sequence contains more than one element')
        return xs[0] if xs else w.default(t()) if d else none()

    def select(f):
        return Seq(any_, lambda: (call_n(f, x, i32(i)) for i, x in enumerate(it())))

    def where(f):
        return Seq(t(), lambda: (x for i, x in enumerate(it()) if call_n(f, x, i32(i))))

    def skip(n):
        import itertools
        return Seq(t(), lambda: itertools.islice(it(), max(n.v, 0), None))

    def take(n):
        def go():
            k = n.v
            if k > 0:
                for x in it():
                    yield x
                    k -= 1
                    if k == 0:
                        return
        return Seq(t(), go)

    def take_while(f):
        def go():
            for i, x in enumerate(it()):
                if not call_n(f, x, i32(i)):
                    return
                yield x
        return Seq(t(), go)

    def skip_while(f):
        def go():
            on = False
            for i, x in enumerate(it()):
                on = on or not call_n(f, x, i32(i))
                if on:
                    yield x
        return Seq(t(), go)

    def aggregate(*a):
        if len(a) == 1:
            f, g, i = a[0], None, it()
            z = next(i, None)
            if z is None:
                none()
        else:
            z, f, g, i = a[0], a[1], a[2] if len(a) > 2 else None, it()
        for x in i:
            z = f(z, x)
        return g(z) if g else z

    def seq_equal(ys, *_):
        a, b = list(it()), list(w.iterate(ys))
        return len(a) == len(b) and all(w.equals(x, y) for x, y in zip(a, b))

    def cast(f):
        def go():
            for x in it():
                if targs:
                    k = w.fits(x, targs[0])
                    if f and (k < 3 and not (k == 1 and targs[0] is w.O and x is not None) or x is None):
                        continue
                    x = Compiler(w, None).cast(x, targs[0])
                yield x
        return Seq(targs[0] if targs else w.O, go)

    def distinct(by=None):
        def go():
            seen = set()
            for x in it():
                k = key(by(x) if by else x)
                if k not in seen:
                    seen.add(k)
                    yield x
        return Seq(t(), go)

    def many(f, g=None):
        def go():
            for i, x in enumerate(it()):
                for y in w.iterate(call_n(f, x, i32(i))):
                    yield g(x, y) if g else y
        return Seq(any_, go)

    def zip_(ys, f=None):
        def go():
            for x, y in zip(it(), w.iterate(ys)):
                yield f(x, y) if f else Tup([('First', x), ('Second', y)])
        return Seq(any_, go)

    def ordered(src, keys):
        r = Ordered(elem_type(w, src), None)
        r.keys, r.src = keys, src

        def go():
            xs = list(w.iterate(src))
            for f, down in reversed(keys):
                xs.sort(key=lambda x: order(w)(f(x)), reverse=down)
            return xs
        r.f = go
        return r

    def to_dict(k=None, v=None, *_):
        out = []
        for x in it():
            if k is None:
                out.append((x.items[0][1], x.items[1][1]))
            else:
                out.append((k(x), v(x) if isinstance(v, Delegate) else x))
        d = CsDict((loose(w, [a for a, _ in out]).t, loose(w, [b for _, b in out]).t))
        for a, b in out:
            if a is None:
                w.throw('ArgumentNullException', 'key')
            if key(a) in d.d:
                w.throw('ArgumentException', 'An item with the same key has already been added')
            d.d[key(a)] = (a, b)
        return d

    def to_set(*_):
        d = CsSet((t(), t()))
        for x in it():
            d.d.setdefault(key(x), (x, x))
        return d

    def group(k, v=None):
        def go():
            gs = {}
            for x in it():
                a = k(x)
                gs.setdefault(key(a), (a, []))[1].append(v(x) if v else x)
            for a, xs in gs.values():
                g = Group(t(), lambda xs=xs: xs)
                g.key = a
                yield g
        return Seq(any_, go)

    def best(want, f, by=False):
        xs = [(f(x) if f else x, x) for x in it()]
        if not xs:
            none()
        r = xs[0]
        for x in xs[1:]:
            if w.compare(x[0], r[0]) * want > 0:
                r = x
        return r[1] if by else r[0]

    def total(f=None):
        z = None
        for x in it():
            x = f(x) if f else x
            z = x if z is None else binop(w, '+', z, x, True)
        if z is None:
            ty = t()
            return N(ty.d, 0) if ty.native and ty.d in INT else i32(0)
        return wrap('Int32', z.v) if isinstance(z, N) and z.k in ('Byte', 'SByte', 'Int16', 'UInt16') else z

    def average(f=None):
        xs = [n_(f(x) if f else x) for x in it()]
        return sum(xs) / len(xs) if xs else none()

    def sets(keep):
        def go(ys, *_):
            other = {key(y) for y in w.iterate(ys)}
            return distinct_of(lambda: (x for x in it() if (key(x) in other) == keep))
        return go

    def distinct_of(f):
        def go():
            seen = set()
            for x in f():
                if key(x) not in seen:
                    seen.add(key(x))
                    yield x
        return Seq(t(), go)

    def chain(*fs):
        def go():
            for f in fs:
                yield from f()
        return Seq(t(), go)

    def to_list(cls):
        def go():
            xs, ty = list(it()), t()
            if ty is any_:
                ty = loose(w, xs).t
            return cls(ty, xs)
        return go

    def at(k, d=False):
        xs = list(it())
        if not 0 <= k.v < len(xs):
            return w.default(t()) if d else w.throw('ArgumentOutOfRangeException', 'index')
        return xs[k.v]

    def default_if_empty(*z):
        def go():
            e = True
            for x in it():
                e = False
                yield x
            if e:
                yield z[0] if z else w.default(t())
        return Seq(t(), go)
    cnt = lambda *f: len([x for x in it() if not f or f[0](x)])
    m = {'ToArray': to_list(CsArr), 'ToList': to_list(CsList), 'Select': select, 'Where': where,
         'First': lambda *f: first(*f), 'Last': lambda *f: first(opt(*f), 0, True),
         'FirstOrDefault': lambda *f: first(opt(*f), 1) if not f or isinstance(f[0], Delegate) else next(iter(it()), f[0]),
         'LastOrDefault': lambda *f: first(opt(*f), 1, True),
         'Any': lambda *f: any(not f or f[0](x) for x in it()), 'All': lambda f: all(f(x) for x in it()),
         'Skip': skip, 'Take': take, 'Reverse': lambda: Seq(t(), lambda: list(it())[::-1]),
         'SkipLast': lambda n: Seq(t(), lambda: (lambda xs: xs[:max(len(xs) - n.v, 0)])(list(it()))),
         'TakeLast': lambda n: Seq(t(), lambda: (lambda xs: xs[max(len(xs) - n.v, 0):])(list(it()))),
         'Count': lambda *f: i32(cnt(*f)), 'LongCount': lambda *f: N('Int64', cnt(*f)), 'ElementAt': at, 'ElementAtOrDefault': lambda k: at(k, True),
         'Aggregate': aggregate, 'SequenceEqual': seq_equal, 'Cast': lambda: cast(False), 'OfType': lambda: cast(True),
         'Concat': lambda ys: chain(it, lambda: w.iterate(ys)), 'Append': lambda x: chain(it, lambda: [x]), 'Prepend': lambda x: chain(lambda: [x], it),
         'Distinct': lambda *_: distinct(), 'DistinctBy': lambda f: distinct(f), 'Single': lambda *f: single(*f), 'SingleOrDefault': lambda *f: single(opt(*f), 1),
         'Zip': zip_, 'SelectMany': many, 'TakeWhile': take_while, 'SkipWhile': skip_while,
         'OrderBy': lambda f, *_: ordered(o, [(f, False)]), 'OrderByDescending': lambda f, *_: ordered(o, [(f, True)]),
         'ThenBy': lambda f, *_: ordered(o.src, o.keys + [(f, False)]), 'ThenByDescending': lambda f, *_: ordered(o.src, o.keys + [(f, True)]),
         'ToDictionary': to_dict, 'ToHashSet': to_set, 'GroupBy': group, 'Min': lambda f=None: best(-1, f), 'Max': lambda f=None: best(1, f),
         'MinBy': lambda f: best(-1, f, True), 'MaxBy': lambda f: best(1, f, True), 'Sum': total, 'Average': average,
         'Union': lambda ys: distinct_of(lambda: __import__('itertools').chain(it(), w.iterate(ys))), 'Intersect': sets(True), 'Except': sets(False),
         'DefaultIfEmpty': default_if_empty, 'AsEnumerable': lambda: o, 'Contains': lambda x, *_: any(w.equals(x, y) for y in it())}
    return m.get(name)


def type_member(w, t, name):
    if name == 'FullName':
        return t.full()
    if name == 'Name':
        if t.native and t.d == 'Array':
            return type_member(w, t.args[0], 'Name') + '[]'
        n = len(t.args) if t.native else len(t.d.tparams)
        return t.name + ('`%d' % n if n else '')
    if name == 'Namespace':
        return NATIVE_NS.get(t.d, 'System') if t.native else t.d.ns
    if name == 'IsArray':
        return t.native and t.d == 'Array'
    if name == 'GetElementType':
        return lambda: t.args[0] if t.native and t.d == 'Array' else None
    if name in ('GetGenericArguments', 'GenericTypeArguments'):
        a = CsArr(w.nat('Type'), list(t.args) if not (t.native and t.d == 'Array') else [])
        return a if name[0] == 'G' and name[3] == 'e' else lambda: a
    if name == 'GetGenericTypeDefinition':
        return lambda: w.nat(t.d, *[w.O] * len(t.args)) if t.native else w.inst(t.d, [w.O] * len(t.args))
    if name == 'BaseType':
        return None if t is w.O else w.base_class(t) or w.O
    if name == 'GetHashCode':
        return lambda: i32(id(t) & 0x7fffffff)
    if name == 'IsAbstract':
        return not t.native and ('abstract' in t.d.mods or t.d.kind == 'interface')
    if name == 'GetType':
        return lambda: w.nat('Type')
    if name == 'IsAssignableFrom':
        return lambda x: x is not None and w.subtype(x, t)
    if name == 'IsSubclassOf':
        return lambda x: x is not t and w.subtype(t, x)
    if name == 'IsInstanceOfType':
        return lambda x: x is not None and w.fits(x, t) > 2
    if name in ('IsValueType',):
        return w.is_value(t)
    if name == 'IsPrimitive':
        return t.native and (t.d in INT or t.d in ('Boolean', 'Double', 'Single'))
    if name == 'IsInterface':
        return (not t.native and t.d.kind == 'interface') or (t.native and t.d[0] == 'I' and t.d[1].isupper() and t.d not in INT)
    if name == 'IsClass':
        return not w.is_value(t) and not type_member(w, t, 'IsInterface')
    if name == 'IsEnum':
        return not t.native and t.d.kind == 'enum'
    if name == 'IsGenericType':
        return bool(t.args)
    if name == 'ToString':
        return t.full
    if name in ('Equals',):
        return lambda x: x is t
    if name == 'GetMethod':
        def gm(n, *a):
            tys = next((x for x in a if isinstance(x, CsArr)), None)
            hits = []
            x, first = t, True
            while x is not None and not x.native:
                for m in x.d.members:
                    if m.kind == 'method' and m.name == n and 'public' in m.mods and (first or 'static' not in m.mods):
                        if tys is None or [w.resolve(p.type, x) for p in m.params] == tys.items:
                            hits.append(Refl('MethodInfo', x, m))
                x, first = w.base_class(x), False
            if tys is None and len(hits) > 1:
                raise Unsupported('AmbiguousMatchException')
            return hits[0] if hits else None
        return gm
    if name == 'GetConstructor':
        def gc(*a):
            tys = next(x for x in a if isinstance(x, CsArr))
            if t.native:
                return None
            for m in t.d.members:
                if m.kind == 'ctor' and 'public' in m.mods and [w.resolve(p.type, t) for p in m.params] == tys.items:
                    return Refl('ConstructorInfo', t, m)
            return None
        return gc
    if name == 'GetInterfaces':
        def gi():
            out, todo = [], [t]
            while todo:
                for b in w.bases(todo.pop()):
                    todo.append(b)
                    if type_member(w, b, 'IsInterface') and b not in out:
                        out.append(b)
            return CsArr(w.nat('Type'), out)
        return gi
    raise Unsupported('Type.%s' % name)


class NS:
    """A namespace or `Console.Error` in the middle of a member access."""
    def __init__(self, name):
        self.name = name


def enum_of(w, t):
    w.prepare(t)
    return {k: v for k, v in t.statics.items() if isinstance(v, N) and v.k is t}


def native_static(w, rt, name, targs=()):
    n = rt.d
    if n == 'Enumerable':
        if name == 'Range':
            return lambda a, k: CsList(w.nat('Int32'), [i32(a.v + i) for i in range(k.v)])
        if name == 'Repeat':
            return lambda x, k: CsList(w.type_of(x), [x] * k.v)
        if name == 'Empty':
            return lambda: CsArr(targs[0] if targs else w.O, [])
        if name in ENUMERABLE:
            def st(x, *a):
                if x is None:
                    w.throw('ArgumentNullException', 'source')
                return linq(w, x, name, targs)(*a)
            return st
    if n == 'Enum':
        def pick(f):
            return lambda t, *a: f(enum_of(w, t if isinstance(t, RT) else targs[0]), *(a if isinstance(t, RT) else (t,) + a))
        val = lambda x: x.v if isinstance(x, N) else x
        m = {'IsDefined': pick(lambda e, x: any(v.v == val(x) for v in e.values()) if isinstance(x, N) else x in e),
             'GetName': pick(lambda e, x: next((k for k, v in e.items() if v.v == val(x)), None)),
             'Parse': pick(lambda e, x, *_: e[x] if x in e else w.throw('ArgumentException', x))}
        if name in m:
            return m[name]
        if name in ('GetValues', 'GetNames'):
            def gv(t=None):
                t = t or targs[0]
                e = sorted(enum_of(w, t).items(), key=lambda kv: kv[1].v)
                return CsArr(t, [v for _, v in e]) if name == 'GetValues' else CsArr(w.nat('String'), [k for k, _ in e])
            return gv
        if name == 'TryParse':
            def tp(x, *a):
                e = enum_of(w, targs[0])
                a[-1].set(e.get(x, N(targs[0], 0)))
                return x in e
            return tp
    if n == 'Interlocked':
        def inc(d, old=False):
            def f(r):
                x = r.get()
                y = wrap(x.k, x.v + d)
                r.set(y)
                return y
            return f

        def add(r, v):
            x = r.get()
            y = wrap(x.k, x.v + v.v)
            r.set(y)
            return y

        def exchange(r, v):
            x = r.get()
            r.set(v)
            return x

        def cmpx(r, v, c):
            x = r.get()
            if w.equal(x, c):
                r.set(v)
            return x
        m = {'Increment': inc(1), 'Decrement': inc(-1), 'Add': add, 'Exchange': exchange, 'CompareExchange': cmpx, 'Read': lambda r: r.get()}
        if name in m:
            return m[name]
    if n == 'Volatile':
        return {'Read': lambda r: r.get(), 'Write': lambda r, v: r.set(v)}[name]
    if n == 'Debug':
        return lambda *a: None
    if n in ('Comparer', 'EqualityComparer') and name == 'Default':
        return NS(n + '.Default')
    if n == 'CultureInfo' and name in ('InvariantCulture', 'CurrentCulture'):
        return NS('CultureInfo')
    if n == 'StringComparison':
        return N('Int32', 0)
    if n == 'GC':
        return lambda *a: None
    if n == 'Environment' and name == 'NewLine':
        return '\n'
    if n == 'BitConverter':
        if name == 'IsLittleEndian':
            return True
        if name == 'GetBytes':
            def gb(x):
                k = INT[x.k][0] // 8 if isinstance(x, N) else 1
                v = x.v & MASK[x.k] if isinstance(x, N) else int(x)
                return CsArr(w.nat('Byte'), [N('Byte', b) for b in v.to_bytes(k, 'little')])
            return gb
        if name.startswith('To') and name[2:] in INT:
            def tb(b, at=i32(0)):
                k = INT[name[2:]][0] // 8
                if at.v < 0 or at.v + k > len(b.items):
                    w.throw('ArgumentException', 'startIndex')
                return wrap(name[2:], int.from_bytes(ints(b.items[at.v:at.v + k]), 'little'))
            return tb
    if n == 'Delegate' and name in ('Combine', 'Remove'):
        return lambda a, b: binop(w, '+' if name == 'Combine' else '-', a, b)
    if n in INT:
        b, s = INT[n]
        if name == 'MaxValue':
            return N(n, (1 << (b - 1)) - 1 if s else (1 << b) - 1)
        if name == 'MinValue':
            return N(n, -(1 << (b - 1)) if s else 0)
        if name in ('Parse', 'TryParse') and n != 'Char':
            def parse(x, *a):
                import re
                try:
                    if x is None or not re.fullmatch(r'\s*[+-]?[0-9]+\s*', x):
                        raise ValueError
                    v, ok = int(x), True
                except ValueError:
                    v, ok = 0, False
                    if name == 'Parse':
                        w.throw('FormatException' if x is not None else 'ArgumentNullException', 'Input string was not in a correct format.')
                b, s = INT[n]
                if not (-(1 << (b - 1)) if s else 0) <= v < (1 << (b - 1) if s else 1 << b):
                    v, ok = 0, False
                    if name == 'Parse':
                        w.throw('OverflowException', x)
                if name == 'Parse':
                    return N(n, v)
                a[-1].set(N(n, v))
                return ok
            return parse
        if name in ('IsUpper', 'IsLower', 'IsDigit', 'IsLetter') and n == 'Char':
            return lambda c: getattr(chr(c.v), name.lower())()
    if n == 'String':
        m = {'Format': lambda f, *a: w.format(f, a[0].items if len(a) == 1 and isinstance(a[0], CsArr) else a), 'Empty': '',
             'Join': lambda s, *xs: w.text(s).join(w.text(x) for x in (w.iterate(xs[0]) if len(xs) == 1 and not isinstance(xs[0], str) else xs)),
             'IsNullOrEmpty': lambda s: not s, 'IsNullOrWhiteSpace': lambda s: not (s or '').strip(),
             'Concat': lambda *xs: ''.join(w.text(x) for x in (w.iterate(xs[0]) if len(xs) == 1 and not isinstance(xs[0], (str, N)) else xs)),
             'Equals': lambda a, b, *_: a == b, 'Compare': lambda a, b, *_: i32(w.compare(a, b)), 'CompareOrdinal': lambda a, b: i32(w.compare(a, b)),
             'IsInterned': lambda x: x, 'Intern': lambda x: x}
        if name in m:
            return m[name]
    if n == 'Console':
        if name in ('Error', 'Out'):
            return NS('Console.Error')

        def out(*a):
            w.stderr += 1
        return out
    if n == 'Array':
        if name == 'AsReadOnly':
            return lambda a: w.throw('ArgumentNullException', 'array') if a is None else roc(w, a, a.t)
        if name == 'Empty':
            return lambda: CsArr(targs[0] if targs else w.O, [])
        if name in ('Copy', 'ConstrainedCopy'):
            def copy(*a):
                if any(x is None for x in a):
                    w.throw('ArgumentNullException', 'array')
                if len(a) == 3:
                    array_copy(w, a[0], 0, a[1], 0, a[2].v)
                else:
                    array_copy(w, a[0], a[1].v, a[2], a[3].v, a[4].v)
            return copy
        if name == 'IndexOf':
            return lambda a, x: native_get(w, a, 'IndexOf')(x)

        def resize(r, k):
            a = r.get()
            r.set(CsArr(a.t, a.items[:k.v] + [w.default(a.t) for _ in range(k.v - len(a.items))]))

        def reverse(a, i=None, k=None):
            if i is None:
                a.items.reverse()
            else:
                a.items[i.v:i.v + k.v] = a.items[i.v:i.v + k.v][::-1]

        def fill(a, x, i=i32(0), k=None):
            for j in range(i.v, len(a.items) if k is None else i.v + k.v):
                a.items[j] = w.coerce(x, a.t)

        def clear(a, i=i32(0), k=None):
            fill(a, w.default(a.t), i, k)
        of = lambda a, m: native_get(w, CsList(a.t, a.items), m)
        m = {'Resize': resize, 'Reverse': reverse, 'Fill': fill, 'Clear': clear, 'Sort': lambda a, *c: a.items.sort(key=comparison(w, c)),
             'Exists': lambda a, f: of(a, 'Exists')(f), 'Find': lambda a, f: of(a, 'Find')(f), 'FindIndex': lambda a, f: of(a, 'FindIndex')(f),
             'TrueForAll': lambda a, f: of(a, 'TrueForAll')(f), 'ForEach': lambda a, f: of(a, 'ForEach')(f),
             'ConvertAll': lambda a, f: (lambda l: CsArr(l.t, l.items))(of(a, 'ConvertAll')(f)),
             'FindAll': lambda a, f: CsArr(a.t, of(a, 'FindAll')(f).items)}
        if name in m:
            return m[name]
    if n == 'Buffer' and name == 'BlockCopy':
        def bc(a, i, b, j, k):
            if a.t.d not in ('Byte', 'SByte') or b.t.d not in ('Byte', 'SByte'):
                raise Unsupported('Buffer.BlockCopy of other than bytes')
            array_copy(w, a, i.v, b, j.v, k.v)
        return bc
    if n in ('Encoding', 'UTF8Encoding'):
        if name in ('UTF8', 'ASCII', 'Unicode', 'UTF32', 'Latin1', 'Default'):
            return NS('Encoding.' + name)
    if n == 'Math':
        def pick(f):
            def g(a, b):
                return binop(w, '+', wrap(a.k, f(a.v, b.v)), N(b.k, 0)) if isinstance(a, N) else f(a, b)
            return g
        m = {'Min': pick(min), 'Max': pick(max), 'Abs': lambda a: N(a.k, abs(a.v))}
        if name in m:
            return m[name]
    if n == 'Boolean':
        if name == 'TrueString':
            return 'True'
        if name == 'FalseString':
            return 'False'
    if n == 'Convert':
        if name.startswith('To') and name[2:] in INT:
            def conv(x):
                v = int(x) if isinstance(x, (bool, str)) else x.v
                b, s = INT[name[2:]]
                if not (-(1 << (b - 1)) if s else 0) <= v < (1 << (b - 1) if s else 1 << b):
                    w.throw('OverflowException', str(v))
                return N(name[2:], v)
            return conv
        if name == 'ToString':
            return lambda x, *_: w.text(x)
        if name == 'ToBoolean':
            return lambda x: x if isinstance(x, bool) else x.v != 0
    if n == 'Activator' and name == 'CreateInstance':
        return lambda t, *a: w.construct(t, [(None, None, x) for x in (a[0].items if len(a) == 1 and isinstance(a[0], CsArr) else a)])
    if n == 'Object':
        if name in ('ReferenceEquals', 'Equals'):
            return (lambda a, b: a is b) if name[0] == 'R' else (lambda a, b: b is None if a is None else w.equals(a, b))
    if n == 'Type' and name == 'EmptyTypes':
        return CsArr(w.nat('Type'), [])
    if n == 'BindingFlags':
        return N('Int32', 0)
    raise Unsupported('%s.%s' % (rt, name))


def ns_member(w, ns, name):
    if ns.name == 'Comparer.Default' and name == 'Compare':
        return lambda a, b: i32(w.compare(a, b))
    if ns.name == 'EqualityComparer.Default' and name == 'Equals':
        return lambda a, b: b is None if a is None else w.equals(a, b)
    if ns.name == 'Console.Error':
        def out(*a):
            w.stderr += 1
        return out
    if ns.name.startswith('Encoding.'):
        if name == 'GetString':
            def gs(b, at=None, n=None):
                if b is None:
                    w.throw('ArgumentNullException', 'bytes')
                xs = ints(w.iterate(b))
                if at is not None:
                    xs = xs[at.v:at.v + n.v]
                return xs.decode({'UTF8': 'utf8', 'ASCII': 'ascii', 'Unicode': 'utf-16-le', 'UTF32': 'utf-32-le', 'Latin1': 'latin1', 'Default': 'utf8'}[ns.name[9:]], 'replace')
            return gs
        enc = {'UTF8': 'utf8', 'ASCII': 'ascii', 'Unicode': 'utf-16-le', 'UTF32': 'utf-32-le', 'Latin1': 'latin1', 'Default': 'utf8'}[ns.name[9:]]
        if name == 'GetBytes':
            return lambda s: CsArr(w.nat('Byte'), [N('Byte', b) for b in s.encode(enc)])
        if name == 'GetByteCount':
            return lambda s: i32(len(s.encode(enc)))
    raise Unsupported('%s.%s' % (ns.name, name))


def native_index(w, o, k):
    if isinstance(k, Rest) and isinstance(o, (CsArr, CsList, str)):
        xs = o if isinstance(o, str) else o.items
        at = k.of(len(xs))
        if not k.one:
            if not 0 <= at[0] <= at[1] <= len(xs):
                w.throw('ArgumentOutOfRangeException', 'range')
            return xs[at[0]:at[1]] if isinstance(o, str) else CsArr(o.t, xs[at[0]:at[1]])
        k = i32(at)
    if isinstance(o, CsDict) and k is None:
        w.throw('ArgumentNullException', 'key')
    if isinstance(o, (CsArr, CsList)):
        if not 0 <= k.v < len(o.items):
            w.throw('IndexOutOfRangeException' if isinstance(o, CsArr) else 'ArgumentOutOfRangeException', 'index %d of %d' % (k.v, len(o.items)))
        return o.items[k.v]
    if isinstance(o, CsDict):
        x = o.d.get(key(k))
        if x is None:
            w.throw('KeyNotFoundException', 'key %s' % w.text(k))
        return x[1]
    if isinstance(o, str):
        if not 0 <= k.v < len(o):
            w.throw('IndexOutOfRangeException', 'index %d of %d' % (k.v, len(o)))
        return N('Char', ord(o[k.v]))
    raise Unsupported('indexing %s' % w.type_of(o))


def promote(a, b):
    if a == b and a in ('Int32', 'UInt32', 'Int64', 'UInt64'):
        return a
    for k in ('UInt64', 'Int64'):
        if k in (a, b):
            return k
    if 'UInt32' in (a, b):
        o = b if a == 'UInt32' else a
        return 'Int64' if o in ('SByte', 'Int16', 'Int32') else 'UInt32'
    return 'Int32'


def within(w, k, v):
    b, s = INT[k]
    if not (-(1 << (b - 1)) if s else 0) <= v < (1 << (b - 1) if s else 1 << b):
        w.throw('OverflowException', 'Arithmetic operation resulted in an overflow.')
    return N(k, v)


def user_op(w, op, a, b):
    """The operator a class defines."""
    for x in (a, b):
        if isinstance(x, Obj):
            f = w.find(x.rt, 'operator ' + op)
            if f:
                own = w.owner(x.rt, f[1][0])
                for m in f[1]:
                    if len(m.params) == 2:
                        r = w.bind(m, own, [(None, None, a), (None, None, b)], None)
                        if r:
                            return (w.call(m, own, None, r[0], None),)
    return None


def without(fa, fb):
    """Removes the last run of `fb`."""
    for i in range(len(fa) - len(fb), -1, -1):
        if fb and fa[i:i + len(fb)] == fb:
            return fa[:i] + fa[i + len(fb):]
    return fa


def binop(w, op, a, b, checked=False):
    if isinstance(a, Obj) or isinstance(b, Obj):
        r = user_op(w, op, a, b)
        if r:
            return r[0]
    if isinstance(a, N) and isinstance(b, N):
        if op == '==':
            return a.v == b.v
        if op == '!=':
            return a.v != b.v
        if op == '<':
            return a.v < b.v
        if op == '>':
            return a.v > b.v
        if op == '<=':
            return a.v <= b.v
        if op == '>=':
            return a.v >= b.v
        ak, bk = a.k, b.k
        if isinstance(ak, RT) or isinstance(bk, RT):
            k = ak if isinstance(ak, RT) else bk
            if op in '&|^':
                return N(k, a.v & b.v if op == '&' else a.v | b.v if op == '|' else a.v ^ b.v)
            return N('Int32', a.v - b.v) if op == '-' else N(k, a.v + b.v)
        if op in ('<<', '>>'):
            k = promote(ak, 'Int32') if ak not in ('UInt32', 'UInt64', 'Int64') else ak
            n = b.v & (63 if k in ('Int64', 'UInt64') else 31)
            return wrap(k, a.v << n if op == '<<' else a.v >> n)
        k = promote(ak, bk)
        x, y = a.v, b.v
        if checked and op in '+-*':
            return within(w, k, x + y if op == '+' else x - y if op == '-' else x * y)
        if op == '+':
            return wrap(k, x + y)
        if op == '-':
            return wrap(k, x - y)
        if op == '&':
            return wrap(k, x & y)
        if op == '|':
            return wrap(k, x | y)
        if op == '^':
            return wrap(k, x ^ y)
        if op == '*':
            return wrap(k, x * y)
        if op in ('/', '%'):
            if y == 0:
                w.throw('DivideByZeroException', 'Attempted to divide by zero.')
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return wrap(k, q if op == '/' else x - q * y)
    if op == '==':
        return w.equal(a, b)
    if op == '!=':
        return not w.equal(a, b)
    if isinstance(a, str) or isinstance(b, str):
        if op == '+':
            return w.text(a) + w.text(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return {'&': a and b, '|': a or b, '^': a != b}[op]
    if op in ('+', '-') and (isinstance(a, Delegate) or isinstance(b, Delegate)):
        fa = a.fs if a else []
        fb = b.fs if b else []
        fs = fa + fb if op == '+' else without(fa, fb)
        return Delegate(fs) if fs else None
    if a is None or b is None:
        # Lifted operators.
        return False if op in ('<', '>', '<=', '>=') else None
    if isinstance(a, (float, N)) and isinstance(b, (float, N)):
        x, y = (z.v if isinstance(z, N) else z for z in (a, b))
        return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y, '<': lambda: x < y, '>': lambda: x > y,
                '<=': lambda: x <= y, '>=': lambda: x >= y}[op]()
    raise Unsupported('%r %s %r' % (a, op, b))


# ---------------------------------------------------------------- compiling to closures

class Compiler:
    def __init__(self, w, rt, m=None):
        self.w, self.rt, self.m = w, rt, m
        self.tparams = (m.tparams or []) if m is not None else []
        self.checked = self.inside = False
        self.refs = {p.name for p in (m.params or []) if p.mod in ('ref', 'out')} if m is not None else set()

    def open(self, e):
        """What is expected of an expression whose type is not known before it is used."""
        return DEFAULT if e == ('default', None) or e[0] == 'cond' and ('default', None) in e[2:4] else None

    def rtype(self, t):
        """A function of the frame that gives the runtime type; constant where it can be."""
        w, rt = self.w, self.rt
        if self.tparams and mentions(t, self.tparams):
            return lambda fr: w.resolve(t, rt, fr.targs)
        x = w.resolve(t, rt)
        return lambda fr: x

    def static_type(self, t):
        if self.tparams and mentions(t, self.tparams):
            return None
        return self.w.resolve(t, self.rt)

    def function(self, body, params):
        scope = {p.name for p in params} | {'value'}
        if body is None:
            return lambda fr: None
        if body[0] == 'ebody':
            return self.expr(body[1], scope)
        return self.runner(body, self.stmt(body, scope))

    def runner(self, body, f):
        if yields(body):
            mt = self.m.type if self.m is not None else None
            el = self.rtype(mt[1][-1][1][0]) if mt and mt[0] == 'T' and mt[1][-1][1] else None

            def start(fr):
                L = fr.L.again() if isinstance(fr.L, Scope) else dict(fr.L)

                def go(give):
                    inner = L.again() if isinstance(L, Scope) else dict(L)
                    dict.__setitem__(inner, '<yield>', give)
                    f(Fr(fr.this, fr.rt, fr.targs, inner))
                return Lazy(self.w, go, el(fr) if el else self.w.O)
            return start

        def run(fr):
            r = f(fr)
            return r.v if type(r) is Ret else None
        return run

    # ------------------------------------------------------------ statements
    def block(self, stmts, scope):
        scope = set(scope)
        fs = []
        for s in stmts:
            if s[0] == 'localfn':
                scope.add(s[1].name)
        for s in stmts:
            if s[0] == 'localfn':
                fs.append(self.stmt(s, scope))
        for s in stmts:
            if s[0] != 'localfn':
                fs.append(self.stmt(s, scope))
        if len(fs) == 1:
            return fs[0]

        def run(fr):
            for f in fs:
                r = f(fr)
                if r is not None:
                    return r
        return run

    def stmt(self, s, scope):
        k = s[0]
        w = self.w
        if k == 'block':
            return self.block(s[1], scope)
        if k == 'expr':
            f = self.expr(s[1], scope)

            def run(fr):
                f(fr)
            return run
        if k == 'exprs':
            fs = [self.expr(e, scope) for e in s[1]]

            def runs(fr):
                for f in fs:
                    f(fr)
            return runs
        if k == 'local':
            t = self.rtype(s[1]) if s[1] else None
            fs = []
            for n, e in s[2]:
                st = self.static_type(s[1]) if s[1] else None
                f = self.expr(e, scope, st if s[1] else self.open(e)) if e is not None else None
                scope.add(n)
                fs.append((n, f))

            def local(fr):
                for n, f in fs:
                    v = f(fr) if f else None
                    if t is not None:
                        v = w.coerce(v, t(fr)) if f else w.default(t(fr))
                    else:
                        v = w.val(v)
                    fr.L[n] = v
            return local
        if k == 'decon':
            f = self.expr(s[2], scope)
            scope.update(s[1])
            return lambda fr: self.decon(fr, s[1], f(fr))
        if k == 'using':
            inner = set(scope)
            d, b = self.stmt(s[1], inner), self.stmt(s[2], inner)
            names = [n for n, _ in s[1][2]] if s[1][0] == 'local' else []

            def using(fr):
                d(fr)
                try:
                    return b(fr)
                finally:
                    for n in names[::-1]:
                        x = fr.L[n]
                        if isinstance(x, Obj) and w.find(x.rt, 'Dispose'):
                            w.invoke(x.rt, x, 'Dispose', [])
            return using
        if k == 'checked':
            old, self.checked = self.checked, s[1]
            f = self.stmt(s[2], scope)
            self.checked = old
            return f
        if k == 'localfn':
            m = s[1]
            c = Compiler(w, self.rt, m)
            c.tparams = self.tparams + (m.tparams or [])
            c.refs = c.refs | (self.refs - {p.name for p in m.params})
            c.checked = self.checked
            scope.add(m.name)
            own = frozenset(declared(m.body)) | {p.name for p in m.params} | ({'<yield>'} if yields(m.body) else set())
            body = None
            rty = c.rtype(m.type)

            def define(fr):
                def f(*a, targs=None):
                    nonlocal body
                    if body is None:
                        body = c.fn_in(m.body, m.params, scope)
                    L = Scope(fr.L, own)
                    for p, v in zip(m.params, a):
                        dict.__setitem__(L, p.name, v)
                    f2 = Fr(fr.this, fr.rt, dict(fr.targs or {}, **targs) if targs else fr.targs, L)
                    r = body(f2)
                    return w.coerce(r, rty(f2)) if isinstance(r, N) else r
                f.n = len(m.params)
                d = LocalFn([f])
                d.m, m.local = m, True
                fr.L[m.name] = d
            return define
        if k == 'if':
            c, a = self.expr(s[1], scope), self.stmt(s[2], set(scope) | self.pattern_vars(s[1]))
            scope.update(self.pattern_vars(s[1]))
            b = self.stmt(s[3], set(scope)) if s[3] else None

            def if_(fr):
                if c(fr):
                    return a(fr)
                if b is not None:
                    return b(fr)
            return if_
        if k in ('while', 'do'):
            c, b = (self.expr(s[1], scope), self.stmt(s[2], set(scope))) if k == 'while' else (self.expr(s[2], scope), self.stmt(s[1], set(scope)))
            first = k == 'do'
            inner = turn(s[2] if k == 'while' else s[1])

            def loop(fr):
                once = first
                n = 0
                while once or c(fr):
                    once = False
                    n += 1
                    if n > 5000000:
                        raise Unsupported('an endless loop')
                    r = b(inner(fr))
                    if r is not None:
                        if r is BREAK:
                            break
                        if r is not CONTINUE:
                            return r
            return loop
        if k == 'for':
            sc = set(scope)
            init = [self.stmt(x, sc) for x in s[1]]
            c = self.expr(s[2], sc) if s[2] else None
            step = [self.expr(x, sc) for x in s[3]]
            b = self.stmt(s[4], set(sc))
            inner = turn(s[4])

            def for_(fr):
                for f in init:
                    f(fr)
                n = 0
                while c is None or c(fr):
                    n += 1
                    if n > 5000000:
                        raise Unsupported('an endless loop')
                    r = b(inner(fr))
                    if r is not None:
                        if r is BREAK:
                            break
                        if r is not CONTINUE:
                            return r
                    for f in step:
                        f(fr)
            return for_
        if k == 'foreach':
            e = self.expr(s[3], scope)
            sc = set(scope)
            names = s[2]
            sc.update(names if isinstance(names, list) else [names])
            t = self.rtype(s[1]) if s[1] else None
            b = self.stmt(s[4], sc)
            inner = turn(('foreach', None, names, ('lit',), s[4]))

            def foreach(outer):
                for v in w.iterate(e(outer)):
                    fr = inner(outer)
                    if isinstance(names, list):
                        self.decon(fr, names, v)
                    else:
                        fr.L[names] = w.val(self.cast(v, t(fr)) if t else v)
                    r = b(fr)
                    if r is not None:
                        if r is BREAK:
                            break
                        if r is not CONTINUE:
                            return r
            return foreach
        if k == 'switch':
            return self.switch(s, scope)
        if k == 'return':
            if s[1] is None:
                return lambda fr: Ret(None)
            f = self.expr(s[1], scope, self.static_type(self.m.type) if self.m is not None and self.m.type and self.m.kind == 'method' else None)
            return lambda fr: Ret(f(fr))
        if k == 'yield':
            if s[1] is None:
                return lambda fr: Ret(None)
            f = self.expr(s[1], scope)

            def give(fr):
                fr.L['<yield>'](f(fr))
            return give
        if k == 'break':
            return lambda fr: BREAK
        if k == 'continue':
            return lambda fr: CONTINUE
        if k == 'goto':
            f = self.expr(s[1], scope) if s[1] else None
            return lambda fr: Goto(f(fr) if f else None)
        if k == 'throw':
            if s[1] is None:
                def rethrow(fr):
                    raise fr.L['<ex>']
                return rethrow
            f = self.expr(s[1], scope)

            def throw(fr):
                raise CsEx(f(fr))
            return throw
        if k == 'try':
            b = self.stmt(s[1], set(scope))
            cs = []
            for t, n, wh, body in s[2]:
                sc = set(scope) | ({n} if n else set())
                cs.append((self.rtype(t) if t else None, n, self.expr(wh, sc) if wh else None, self.stmt(body, sc)))
            fin = self.stmt(s[3], set(scope)) if s[3] else None

            def try_(fr):
                try:
                    return b(fr)
                except CsEx as x:
                    for t, n, wh, body in cs:
                        if t is None or w.subtype(x.obj.rt, t(fr)):
                            if n:
                                fr.L[n] = x.obj
                            if wh is None or wh(fr):
                                fr.L['<ex>'] = x
                                return body(fr)
                    raise
                finally:
                    if fin:
                        fin(fr)
            return try_
        raise Unsupported('statement ' + k)

    def fn_in(self, body, params, scope):
        sc = set(scope) | {p.name for p in params}
        if body[0] == 'ebody':
            return self.expr(body[1], sc)
        return self.runner(body, self.stmt(body, sc))

    def decon(self, fr, names, v):
        if isinstance(v, Tup):
            for n, (_, x) in zip(names, v.items):
                if n != '_':
                    fr.L[n] = x
        else:
            for n, x in zip(names, self.parts(v, len(names))):
                if n != '_':
                    fr.L[n] = x

    def parts(self, v, n):
        """What a value is taken apart into."""
        w = self.w
        if isinstance(v, Tup):
            return [x for _, x in v.items]
        if not isinstance(v, Obj):
            raise Unsupported('deconstruction of %r' % v)
        out = [None] * n

        def ref(i):
            def put(x):
                out[i] = x
            return (None, 'out', Ref(lambda: None, put))
        if w.find(v.rt, 'Deconstruct'):
            w.invoke(v.rt, v, 'Deconstruct', [ref(i) for i in range(n)])
        else:
            w.call_ext(v, 'Deconstruct', [ref(i) for i in range(n)])
        return out

    def pattern_vars(self, e):
        out = set()

        def go(x):
            if isinstance(x, tuple):
                if x and x[0] == 'pvar':
                    out.add(x[2])
                elif x and x[0] == 'pprops' and x[3]:
                    out.add(x[3])
                elif x and x[0] == 'lambda':
                    return
                elif x and x[0] == 'call':
                    for a in x[2]:
                        if a[1] == 'outvar':
                            out.add(a[2][1])
                for y in x:
                    go(y)
            elif isinstance(x, list):
                for y in x:
                    go(y)
        go(e)
        return out

    def pattern(self, p, scope):
        """A function of the frame and the value."""
        w = self.w
        k = p[0]
        if k == 'pany':
            return lambda fr, v: True
        if k == 'pnot':
            f = self.pattern(p[1], scope)
            return lambda fr, v: not f(fr, v)
        if k == 'por':
            f, g = self.pattern(p[1], scope), self.pattern(p[2], scope)
            return lambda fr, v: f(fr, v) or g(fr, v)
        if k == 'pvar':
            t = self.rtype(p[1]) if p[1] else None

            def var(fr, v):
                if t is None or (v is not None and (w.fits(v, t(fr)) >= 3 or t(fr) is w.O)):
                    if p[2] != '_':
                        fr.L[p[2]] = v
                    return True
                return False
            scope.add(p[2])
            return var
        if k == 'pand':
            f, g = self.pattern(p[1], scope), self.pattern(p[2], scope)
            return lambda fr, v: f(fr, v) and g(fr, v)
        if k == 'prel':
            f = self.expr(p[2], scope)
            return lambda fr, v: v is not None and binop(w, p[1], v, f(fr))
        if k == 'ptuple':
            fs = [self.pattern(x, scope) for x in p[1]]
            return lambda fr, v: v is not None and all(f(fr, x) for f, x in zip(fs, self.parts(v, len(fs))))
        if k == 'pprops':
            t = self.rtype(p[1]) if p[1] else None
            fs = [(n, self.pattern(x, scope)) for n, x in p[2]]
            if p[3]:
                scope.add(p[3])

            def props(fr, v):
                if v is None or (t is not None and w.fits(v, t(fr)) < 3):
                    return False
                for n, f in fs:
                    x = v
                    for y in n:
                        if x is None:
                            return False
                        x = w.get(x, y)
                    if not f(fr, x):
                        return False
                if p[3]:
                    fr.L[p[3]] = v
                return True
            return props
        t = self.as_type(p[1], scope)
        if t is not None:
            return lambda fr, v: v is not None and (w.fits(v, t(fr)) >= 3 or t(fr) is w.O)
        f = self.expr(p[1], scope)
        return lambda fr, v: w.equal(v, f(fr))

    def switch(self, s, scope):
        w = self.w
        e = self.expr(s[1], scope)
        sc = set(scope)
        labels, bodies, default = [], [], None
        for i, (ls, body) in enumerate(s[2]):
            for l in ls:
                if l is None:
                    default = i
                else:
                    labels.append((self.pattern(l[0], sc), self.expr(l[1], sc) if l[1] else None, i))
            bodies.append(body)
        if not sc - scope:
            sc = set(scope)
        bodies = [self.block(b, sc) for b in bodies]

        def run(fr):
            v = e(fr)
            while True:
                at = default
                for p, wh, i in labels:
                    if p(fr, v) and (wh is None or wh(fr)):
                        at = i
                        break
                if at is None:
                    return None
                r = bodies[at](fr)
                if r is BREAK:
                    return None
                if type(r) is Goto:
                    if r.v is None:
                        r = bodies[default](fr)
                        return None if r is BREAK else r
                    v = r.v
                    continue
                return r
        return run

    # ------------------------------------------------------------ expressions
    def as_type(self, e, scope):
        """If `e` denotes a type: a function of the frame which gives it."""
        parts = []
        x = e
        if x[0] == 'type':
            t = self.w.resolve(x[1], self.rt)
            return lambda fr: t
        while x[0] == 'mem' and not x[4]:
            parts.insert(0, (x[2], tuple(x[3])))
            x = x[1]
        if x[0] != 'id':
            return None
        parts.insert(0, (x[1], tuple(x[2])))
        n = parts[0][0]
        if not parts[0][1] and (n in scope or self.member_of(n) is not None):
            # A value, unless it is a property of the same name as its type (`Path`, say): then members of the
            # type are looked up on the type when the value has none.
            return None
        t = ('T', tuple(parts), 0, False)
        try:
            return self.rtype(t)
        except CompileError:
            return None

    def member_of(self, n):
        """(defining type, members, is static) of a simple name seen from the class and its enclosing ones."""
        t = self.rt
        while t is not None and not t.native:
            f = self.w.find(t, n)
            if f:
                return f
            if t.d.outer is None:
                return None
            t = self.w.inst(t.d.outer, t.args[:len(self.w.all_tparams(t.d.outer))])
        return None

    def args(self, args, scope):
        fs = []
        for name, mod, e in args:
            if mod in ('ref', 'out', 'outvar'):
                if mod == 'outvar':
                    scope.add(e[1])
                g, s = (None if mod == 'outvar' or e[:2] == ('id', '_') and '_' not in scope else self.expr(e, scope)), self.target(e, scope)
                fs.append((name, mod, g, s))
            else:
                fs.append((name, None, self.expr(e, scope, self.open(e)), None))

        def run(fr):
            out = []
            for name, mod, g, s in fs:
                if mod is None:
                    out.append((name, None, g(fr)))
                else:
                    out.append((name, mod, Ref(lambda g=g: g(fr) if g else None, lambda v, s=s: s(fr, v))))
            return out
        return run

    def target(self, e, scope):
        """A function of the frame and the value that assigns."""
        w = self.w
        k = e[0]
        if k == 'id':
            n = e[1]
            if n in self.refs and n in scope:
                t = next((self.rtype(p.type) for p in self.m.params if p.name == n), None)
                return lambda fr, v: fr.L[n].set(w.coerce(v, t(fr)) if t else v)
            if n == '_' and n not in scope:
                return lambda fr, v: None
            if len(e) == 4:
                ty = self.rtype(e[3]) if e[3] else None

                def outvar(fr, v):
                    fr.L[n] = w.coerce(v, ty(fr)) if ty else v
                return outvar
            if n in scope:
                def local(fr, v):
                    old = fr.L.get(n)
                    if isinstance(old, N) and isinstance(v, N) and old.k != v.k and isinstance(old.k, str) and isinstance(v.k, str):
                        v = wrap(old.k, v.v)
                    fr.L[n] = v
                return local
            f = self.member_of(n)
            if f is None:
                raise CompileError('%s: no %s to assign to' % (self.rt, n))
            t, ms = f
            if 'static' in ms[0].mods:
                return lambda fr, v: w.put_static(t, n, v)
            return lambda fr, v: w.put(fr.this, n, v)
        if k == 'mem':
            t = self.as_type(e[1], scope)
            n = e[2]
            if t is not None:
                return lambda fr, v: w.put_static(t(fr), n, v)
            o = self.expr(e[1], scope)
            return lambda fr, v: w.put(o(fr), n, v)
        if k == 'idx':
            o, a = self.expr(e[1], scope), self.args(e[2], scope)
            return lambda fr, v: w.put_index(o(fr), a(fr), v)
        if k == 'tuple':
            ts = [self.target(x, scope) for _, x in e[1]]

            def many(fr, v):
                for t, x in zip(ts, self.parts(v, len(ts))):
                    t(fr, x)
            return many
        if k == 'decl':
            scope.add(e[2])
            ty = self.rtype(e[1]) if e[1] else None

            def decl(fr, v):
                if e[2] != '_':
                    fr.L[e[2]] = w.coerce(v, ty(fr)) if ty else w.val(v)
            return decl
        raise Unsupported('assignment to ' + k)

    def expr(self, e, scope, want=None):
        """A function of the frame. `want`: the type expected, for `default` and `new()`."""
        w = self.w
        k = e[0]
        if k == 'lit':
            if e[1] in INT:
                v = N(e[1], e[2])
            else:
                v = e[2]
            return lambda fr: v
        if k == 'this':
            return lambda fr: fr.this
        if k == 'id':
            return self.ident(e, scope)
        if k == 'mem':
            return self.member(e, scope)
        if k == 'call':
            return self.call(e, scope)
        if k == 'idx':
            o, a = self.expr(e[1], scope), self.args(e[2], scope)
            if e[3]:
                def cidx(fr):
                    x = o(fr)
                    return None if x is None else w.index(x, a(fr))
                return cidx
            return lambda fr: w.index(o(fr), a(fr))
        if k == 'bin':
            return self.binary(e, scope)
        if k == 'assign':
            return self.assign(e, scope)
        if k == 'cond':
            c, a, b = self.expr(e[1], scope), self.expr(e[2], scope, want), self.expr(e[3], scope, want)
            return lambda fr: a(fr) if c(fr) else b(fr)
        if k == 'un':
            op = e[1]
            if op in ('++', '--'):
                return self.step(e[2], op, scope, False)
            if op == '-' and e[2][0] == 'lit' and e[2][1] in INT:
                kk = {'UInt32': 'Int64'}.get(e[2][1], e[2][1])
                v = N(kk, -e[2][2])
                return lambda fr: v
            f = self.expr(e[2], scope)
            if op == '!':
                return lambda fr: not f(fr)
            if op == '^':
                return lambda fr: Rest(f(fr))
            ck = self.checked

            def un(fr):
                x = f(fr)
                if x is None:
                    return None
                if isinstance(x, float):
                    return -x if op == '-' else x
                kk = promote(x.k, x.k)
                if op == '-':
                    return (within(w, 'Int64' if kk == 'UInt32' else kk, -x.v) if ck else wrap('Int64' if kk == 'UInt32' else kk, -x.v))
                if op == '~':
                    return wrap(kk, ~x.v)
                return wrap(kk, x.v)
            return un
        if k == 'post':
            return self.step(e[2], e[1], scope, True)
        if k == 'cast':
            t, f = self.rtype(e[1]), self.expr(e[2], scope)
            ck = self.checked
            return lambda fr: self.cast(f(fr), t(fr), ck)
        if k == 'as':
            t, f = self.rtype(e[2]), self.expr(e[1], scope)

            def as_(fr):
                v = f(fr)
                return v if v is not None and (w.fits(v, t(fr)) >= 3 or t(fr) is w.O) else None
            return as_
        if k == 'is':
            f, p = self.expr(e[1], scope), self.pattern(e[2], scope)
            return lambda fr: p(fr, f(fr))
        if k == 'new':
            return self.new(e, scope, want)
        if k == 'newarr':
            t = self.rtype(e[1]) if e[1] else None
            n = self.expr(e[2], scope) if e[2] else None
            items = [self.expr(x, scope) for x in e[3]] if e[3] is not None else None

            def arr(fr):
                ty = t(fr) if t else None
                if items is not None:
                    xs = [f(fr) for f in items]
                    ty = ty or (w.type_of(xs[0]) if xs else w.O)
                    return CsArr(ty, [w.coerce(x, ty) for x in xs])
                c = n(fr).v
                if c < 0:
                    w.throw('OverflowException', 'array size')
                return CsArr(ty, [w.default(ty)] * c)
            return arr
        if k == 'typeof':
            return self.rtype(e[1])
        if k == 'sizeof':
            t = self.rtype(e[1])
            return lambda fr: i32(INT[t(fr).d][0] // 8)
        if k == 'default':
            if e[1] is None:
                if want is DEFAULT:
                    return lambda fr: DEFAULT
                if want is not None:
                    v = w.default(want)
                    return lambda fr: v
                if self.m is not None and self.m.type:
                    t = self.rtype(self.m.type)
                    return lambda fr: w.default(t(fr))
                return lambda fr: None
            t = self.rtype(e[1])
            return lambda fr: w.default(t(fr))
        if k == 'lambda':
            return self.lambda_(e, scope)
        if k == 'tuple':
            fs = [(n, self.expr(x, scope)) for n, x in e[1]]
            names = None
            if self.m is not None and self.m.type and self.m.type[0] == 'TT':
                names = [n for _, n in self.m.type[1]]
                types = [self.rtype(t) for t, _ in self.m.type[1]]

            def tup(fr):
                out = []
                for i, (n, f) in enumerate(fs):
                    v = f(fr)
                    if names and i < len(names):
                        v = w.coerce(v, types[i](fr))
                    out.append((n or (names[i] if names and i < len(names) else None), v))
                return Tup(out)
            return tup
        if k == 'throwx':
            f = self.expr(e[1], scope)

            def throwx(fr):
                raise CsEx(f(fr))
            return throwx
        if k == 'swx':
            f = self.expr(e[1], scope)
            arms = []
            for p, wh, x in e[2]:
                sc = set(scope)
                pf = self.pattern(p, sc)
                arms.append((pf, self.expr(wh, sc) if wh else None, self.expr(x, sc, want)))

            def swx(fr):
                v = f(fr)
                for p, wh, x in arms:
                    if p(fr, v) and (wh is None or wh(fr)):
                        return x(fr)
                w.throw('InvalidOperationException', 'SwitchExpressionException')
            return swx
        if k == 'interp':
            fs = [x if isinstance(x, str) else (self.expr(x[0], scope), self.expr(x[1], scope) if x[1] else None, x[2]) for x in e[1]]
            return lambda fr: ''.join(f if isinstance(f, str) else w.spec(f[0](fr), f[1](fr).v if f[1] else 0, f[2]) for f in fs)
        if k == 'ref':
            return self.expr(e[1], scope)
        if k == 'checked':
            old, self.checked = self.checked, e[1]
            f = self.expr(e[2], scope, want)
            self.checked = old
            return f
        if k == 'range':
            lo, hi = (self.expr(x, scope) if x else None for x in e[1:])
            return lambda fr: Rest(lo(fr) if lo else None, hi(fr) if hi else None, False)
        if k == 'type':
            return self.rtype(e[1])
        raise Unsupported('expression ' + k)

    def cast(self, v, t, checked=False):
        w = self.w
        if isinstance(v, Tup) and not (t.native and (t.d in INT or t.d == 'String')):
            return v
        if t.native and t.d == 'Nullable':
            if v is None:
                return None
            t = t.args[0]
        if t.native and t.d in INT:
            if isinstance(v, N):
                return within(w, t.d, v.v) if checked else wrap(t.d, v.v)
            if isinstance(v, Obj):
                c = w.conversion(v, t)
                if c:
                    return w.call(c[1], c[0], None, [v], None)
            if isinstance(v, float):
                return wrap(t.d, int(v))
            if v is None:
                w.throw('NullReferenceException', 'cast')
            w.throw('InvalidCastException', 'to %s' % t)
        if t.native and t.d in ('Double', 'Single') and isinstance(v, N):
            return float(v.v)
        if not t.native and t.d.kind == 'enum' and isinstance(v, N):
            return N(t, v.v)
        if v is None:
            if w.is_value(t):
                w.throw('NullReferenceException', 'cast')
            return None
        if not t.native and t.d.kind != 'delegate' or isinstance(v, Obj):
            c = w.conversion(v, t) if w.fits(v, t) < 3 and t is not w.O else None
            if c:
                return w.call(c[1], c[0], None, [v], None)
        if w.fits(v, t) < 1 or (w.fits(v, t) == 2):
            w.throw('InvalidCastException', '%s to %s' % (w.type_of(v), t))
        return v

    def ident(self, e, scope):
        w, n = self.w, e[1]
        if n in scope:
            if n in self.refs:
                return lambda fr: fr.L[n].get()
            return lambda fr: fr.L[n]
        f = self.member_of(n)
        if f is not None:
            t, ms = f
            m = ms[0]
            if m.kind == 'method':
                if 'static' in m.mods:
                    return lambda fr: w.group(t, None, n)
                return lambda fr: w.group(fr.this.rt, fr.this, n)
            if 'static' in m.mods or 'const' in m.mods:
                return lambda fr: w.get_static(t, n)
            return lambda fr: w.get(fr.this, n)
        t = self.as_type(e, scope)
        if t is not None:
            return t
        t = self.imported(n)
        if t is not None:
            return lambda fr: w.get_static(t, n)
        raise CompileError('%s (%s): no %s' % (self.rt, self.rt.d.file, n))

    def imported(self, n):
        """The type whose static members are imported that has `n`."""
        for x in getattr(self.rt.d.usings, 'statics', ()):
            t = self.w.resolve(x, self.rt)
            if not t.native and self.w.find(t, n):
                return t
            if t.native:
                try:
                    self.w.get_static(t, n)
                    return t
                except Unsupported:
                    pass
        return None

    def member(self, e, scope):
        w = self.w
        _, oe, n, targs, cond = e
        if oe[0] == 'base':
            def base(fr):
                b = w.base_class(self.rt)
                f = w.find(b, n) if b else None
                if not f:
                    raise CompileError('%s: base has no %s' % (self.rt, n))
                t, ms = f
                if ms[0].kind != 'prop' or ms[0].get == 'auto':
                    return w.get(fr.this, n)
                return w.body(t, ms[0], 'get')(Fr(fr.this, t, None, {}))
            return base
        t = self.as_type(oe, scope)
        if t is not None:
            tas = [self.rtype(x) for x in targs]

            def static(fr):
                ty = t(fr)
                return native_static(w, ty, n, [x(fr) for x in tas]) if ty.native else w.get_static(ty, n)
            return static
        o = self.object_(oe, scope, n)

        def mem(fr):
            x = o(fr)
            if x is None and cond:
                return None
            if x is None and n == 'HasValue':
                return False
            if isinstance(x, NS):
                return ns_member(w, x, n)
            if isinstance(x, StaticOf):
                return w.get_static(x.t, n)
            return w.get(x, n)
        return mem

    def object_(self, e, scope, n):
        """The object before a dot: a name which is both a member and a type (`Path`) is the type if that has the member."""
        if e[0] == 'id' and e[1] not in scope and not e[2]:
            f = self.member_of(e[1])
            if f is not None and f[1][0].kind in ('prop', 'field', 'event'):
                x = self.w.lookup_type(e[1], 0, self.rt.d)
                if isinstance(x, Cls):
                    t = self.w.inst(x)
                    g = self.w.find(t, n)
                    static = g is not None and ('static' in g[1][0].mods or 'const' in g[1][0].mods)
                    if static:
                        s = StaticOf(t)
                        return lambda fr: s
        return self.expr(e, scope)

    def call(self, e, scope):
        w = self.w
        _, f, args = e
        a = self.args(args, scope)
        if f[0] == 'id':
            n = f[1]
            targs = [self.rtype(t) for t in f[2]]
            if n in scope:
                g = self.ident(f, scope)
                return lambda fr: self.apply(g(fr), a(fr), [x(fr) for x in targs])
            m = self.member_of(n)
            if m is None:
                if n in ('ReferenceEquals', 'Equals') and len(args) == 2:
                    return lambda fr: native_static(w, w.O, n)(*[x[2] for x in a(fr)])
                if n in ('GetType', 'ToString', 'GetHashCode') and not args or n == 'Equals' and len(args) == 1:
                    def own_native(fr):
                        x = fr.this
                        if n == 'Equals':
                            return w.equal(x, a(fr)[0][2])
                        return x.rt if n == 'GetType' else w.text(x) if n == 'ToString' else i32(id(x) & 0x7fffffff)
                    return own_native
                if n == 'MemberwiseClone':
                    def clone(fr):
                        o = Obj(fr.this.rt)
                        o.f = dict(fr.this.f)
                        return o
                    return clone
                t = self.imported(n)
                if t is not None:
                    def call_imported(fr):
                        if t.native:
                            return native_static(w, t, n, [x(fr) for x in targs])(*[x[2] for x in a(fr)])
                        return w.invoke(t, None, n, a(fr), [x(fr) for x in targs])
                    return call_imported
                raise CompileError('%s (%s): no method %s' % (self.rt, self.rt.d.file, n))
            t, ms = m
            if ms[0].kind != 'method':
                g = self.ident(f, scope)
                return lambda fr: self.apply(g(fr), a(fr))

            def call_own(fr):
                ta = [x(fr) for x in targs]
                start = t
                this = None
                if fr.this is not None and w.subtype(fr.this.rt, t):
                    this = fr.this
                    start = fr.this.rt
                mm, own, vals, tt = w.choose(w.find(start, n)[1], start, a(fr), ta, n)
                if 'static' in mm.mods:
                    this = None
                elif this is None:
                    raise CompileError('%s: %s needs an object' % (self.rt, n))
                return w.call(mm, own, this, vals, tt)
            return call_own
        if f[0] == 'mem':
            _, oe, n, tas, cond = f
            targs = [self.rtype(t) for t in tas]
            if oe[0] == 'base':
                def call_base(fr):
                    b = w.base_class(self.rt)
                    found = w.find(b, n) if b else None
                    if not found:
                        if n == 'ToString':
                            return fr.this.rt.full()
                        if n == 'Equals':
                            return fr.this is a(fr)[0][2]
                        if n == 'GetHashCode':
                            return i32(id(fr.this) & 0x7fffffff)
                        raise CompileError('%s: base has no %s' % (self.rt, n))
                    mm, own, vals, tt = w.choose(found[1], b, a(fr), [x(fr) for x in targs], n)
                    L = {p.name: v for p, v in zip(mm.params, vals)}
                    return w.body(own, mm)(Fr(fr.this, own, tt, L))
                return call_base
            t = self.as_type(oe, scope)
            if t is not None:
                def call_static(fr):
                    ty = t(fr)
                    if ty.native:
                        return self.apply(native_static(w, ty, n, [x(fr) for x in targs]), a(fr))
                    found = w.find(ty, n)
                    if found is None:
                        raise CompileError('%s (%s): %s has no %s' % (self.rt, self.rt.d.file, ty, n), ty)
                    if found[1][0].kind != 'method':
                        return self.apply(w.get_static(ty, n), a(fr))
                    mm, own, vals, tt = w.choose(found[1], ty, a(fr), [x(fr) for x in targs], n)
                    if 'static' not in mm.mods:
                        raise CompileError('%s (%s): %s.%s needs an object' % (self.rt, self.rt.d.file, ty, n))
                    return w.call(mm, own, None, vals, tt)
                return call_static
            o = self.object_(oe, scope, n)

            def call_mem(fr):
                x = o(fr)
                if x is None:
                    if cond:
                        return None
                    if n in w.ext:
                        return w.call_ext(x, n, a(fr), [y(fr) for y in targs])
                    if n == 'GetValueOrDefault':
                        v = a(fr)
                        return v[0][2] if v else None
                    w.throw('NullReferenceException', 'calling %s' % n)
                if isinstance(x, StaticOf):
                    return w.invoke(x.t, None, n, a(fr), [y(fr) for y in targs])
                if isinstance(x, NS):
                    return ns_member(w, x, n)(*[y[2] for y in a(fr)])
                if isinstance(x, Obj):
                    found = w.find(x.rt, n)
                    if found is not None:
                        if found[1][0].kind != 'method':
                            return self.apply(w.get(x, n), a(fr))
                        av = a(fr)
                        ta = [y(fr) for y in targs]
                        try:
                            mm, own, vals, tt = w.choose(found[1], x.rt, av, ta, n)
                        except CompileError:
                            if n in w.ext:
                                return w.call_ext(x, n, av, ta)
                            raise
                        if 'static' in mm.mods:
                            raise CompileError('%s (%s): %s.%s is static' % (self.rt, self.rt.d.file, x.rt, n))
                        return w.call(mm, own, x, vals, tt)
                    if n in w.ext:
                        return w.call_ext(x, n, a(fr), [y(fr) for y in targs])
                    if n == 'ToString':
                        return w.text(x)
                    if n == 'GetType':
                        return x.rt
                    if n == 'Equals':
                        return w.equals(x, a(fr)[0][2])
                    if n == 'GetHashCode':
                        return i32(id(x) & 0x7fffffff)
                    g = linq(w, x, n, [y(fr) for y in targs])
                    if g is not None:
                        return g(*[y[2] for y in a(fr)])
                    if n == 'Dispose':
                        return None
                    raise CompileError('%s (%s): %s has no method %s' % (self.rt, self.rt.d.file, x.rt, n), x.rt)
                g = (linq if n == 'Count' else native_get)(w, x, n, [y(fr) for y in targs])
                if g is None:
                    return w.call_ext(x, n, a(fr), [y(fr) for y in targs])
                return self.apply(g, a(fr))
            return call_mem
        g = self.expr(f, scope)
        return lambda fr: self.apply(g(fr), a(fr))

    def apply(self, g, args, targs=()):
        if g is None:
            self.w.throw('NullReferenceException', 'calling a delegate')
        if isinstance(g, LocalFn):
            w, m = self.w, g.m
            t = dict(zip(m.tparams, targs)) if targs else None
            b = w.bind(m, self.rt, args, t)
            if b is None:
                raise CompileError('%s: the local function %s does not take %s' % (self.rt, m.name, [repr(x[2])[:60] for x in args]))
            if m.tparams and t is None:
                t = {}
                for p, v in zip(m.params, b[0]):
                    w.infer(p.type, v.get() if isinstance(v, Ref) else v, m.tparams, t, self.rt)
                for x in m.tparams:
                    t.setdefault(x, w.O)
            return g.fs[0](*b[0], targs=t)
        if not callable(g):
            raise CompileError('%s: %r is not a method' % (self.rt, g))
        try:
            return g(*[x[2] for x in args])
        except TypeError as x:
            if 'argument' in str(x):
                raise Unsupported('call of %r: %s' % (g, x))
            raise

    def lambda_(self, e, scope):
        w = self.w
        names = [n for _, n in e[1]]
        types = [self.rtype(t) if t else None for t, _ in e[1]]
        sc = set(scope) | set(names)
        c = Compiler(w, self.rt, self.m)
        c.refs, c.tparams, c.checked, c.inside = self.refs - set(names), self.tparams, self.checked, True
        own = frozenset(declared(e[2])) | set(names)
        if e[2][0] == 'ebody':
            body = c.expr(e[2][1], sc)
        else:
            s = c.stmt(e[2], sc)

            def body(fr):
                r = s(fr)
                return r.v if type(r) is Ret else None

        def make(fr):
            def f(*a):
                L = Scope(fr.L, own)
                f2 = Fr(fr.this, fr.rt, fr.targs, L)
                for n, t, v in zip(names, types, a):
                    dict.__setitem__(L, n, w.coerce(v, t(fr)) if t else v)
                return body(f2)
            f.n = len(names)
            return Delegate([f])
        return make

    def binary(self, e, scope):
        w = self.w
        _, op, x, y = e
        if op == '&&':
            a = self.expr(x, scope)
            scope.update(self.pattern_vars(x))
            b = self.expr(y, scope)
            return lambda fr: a(fr) and b(fr)
        a, b = self.expr(x, scope), self.expr(y, scope)
        if op == '||':
            return lambda fr: a(fr) or b(fr)
        if op == '??':
            def coal(fr):
                v = a(fr)
                return b(fr) if v is None else v
            return coal
        ck = self.checked
        # A non-negative constant takes the other operand's unsigned type.
        if op not in ('<<', '>>'):
            for z, other in ((x, 1), (y, 0)):
                if z[0] == 'lit' and z[1] == 'Int32':
                    c = z[2]
                    if other == 0:
                        def konst(fr):
                            p = a(fr)
                            return binop(w, op, p, N(p.k if isinstance(p, N) and p.k in ('UInt32', 'UInt64') else 'Int32', c), ck)
                    else:
                        def konst(fr):
                            p = b(fr)
                            return binop(w, op, N(p.k if isinstance(p, N) and p.k in ('UInt32', 'UInt64') else 'Int32', c), p, ck)
                    return konst
        ck = self.checked
        return lambda fr: binop(w, op, a(fr), b(fr), ck)

    def assign(self, e, scope):
        w = self.w
        _, op, lhs, rhs = e
        r = self.expr(rhs, scope, self.type_of_target(lhs, scope))
        put = self.target(lhs, scope)
        if op == '=':
            def assign(fr):
                v = w.val(r(fr))
                put(fr, v)
                return v
            return assign
        g = self.expr(lhs, scope)
        if op == '??=':
            def coal(fr):
                v = g(fr)
                if v is None:
                    v = r(fr)
                    put(fr, v)
                return v
            return coal
        o, checked = op[:-1], self.checked

        def compound(fr):
            old = g(fr)
            v = binop(w, o, old, r(fr), checked)
            if checked and isinstance(old, N) and isinstance(v, N) and isinstance(old.k, str) and o not in ('<<', '>>', '&', '|', '^'):
                v = within(w, old.k, v.v)
            if isinstance(old, N) and isinstance(v, N) and old.k != v.k and isinstance(old.k, str):
                v = wrap(old.k, v.v)
            put(fr, v)
            return v
        return compound

    def type_of_target(self, e, scope):
        """The declared type of what is assigned to, if it is a member, for `default` and `new()`."""
        n = e[1] if e[0] == 'id' and e[1] not in scope else e[2] if e[0] == 'mem' and e[1] == ('this',) else None
        f = self.member_of(n) if n else None
        if f and f[1][0].kind in ('field', 'prop', 'event') and f[1][0].type:
            return self.w.resolve(f[1][0].type, f[0])
        return None

    def step(self, e, op, scope, post):
        g, put = self.expr(e, scope), self.target(e, scope)
        d = 1 if op == '++' else -1
        checked = self.checked

        def step(fr):
            old = g(fr)
            new = within(self.w, old.k, old.v + d) if checked else wrap(old.k, old.v + d)
            put(fr, new)
            return old if post else new
        return step

    def add(self, o, xs):
        if isinstance(o, Obj):
            self.w.invoke(o.rt, o, 'Add', [(None, None, x) for x in xs])
        else:
            native_get(self.w, o, 'Add')(*xs)

    def new(self, e, scope, want):
        w = self.w
        _, t, args, init = e
        if t is None:
            if want is None:
                raise Unsupported('new() of an unknown type')
            ty = lambda fr: want
        else:
            ty = self.rtype(t)
        a = self.args(args, scope)
        ini = []
        for x in init or []:
            if x[0] == 'set':
                ini.append(('set', x[1], self.expr(x[2], scope)))
            elif x[0] == 'into':
                ini.append(('into', x[1], [[self.expr(z, scope) for z in y[1]] for y in x[2] if y[0] == 'add']))
                if any(y[0] != 'add' for y in x[2]):
                    raise Unsupported('nested initializer')
            elif x[0] == 'put':
                ini.append(('put', self.expr(x[1], scope), self.expr(x[2], scope)))
            else:
                ini.append(('add', [self.expr(y, scope) for y in x[1]], None))

        def new(fr):
            o = w.construct(ty(fr), a(fr))
            for k, x, y in ini:
                if k == 'set':
                    w.put(o, x, y(fr))
                elif k == 'put':
                    w.put_index(o, [(None, None, x(fr))], y(fr))
                elif k == 'into':
                    p = w.get(o, x)
                    for z in y:
                        self.add(p, [q(fr) for q in z])
                else:
                    self.add(o, [z(fr) for z in x])
            return o
        return new


class StaticOf:
    def __init__(self, t):
        self.t = t
