"""Small programs in C# with what they print: what the interpreter is expected to know. Run: python3 tools/csfeatures.py"""
import os, sys, traceback
sys.path.insert(0, sys.argv[1] if len(sys.argv) > 1 else os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import csinterp
T=[]
def t(code,want,members='',usings=''): T.append((code,want,members,usings))
t('return string.Join(",", new List<int>{3,1,2}.OrderBy(x => x));','1,2,3')
t('var q = new Queue<int>(); q.Enqueue(1); q.Enqueue(2); return q.Dequeue() + "," + q.Count + q.Peek();','1,12')
t('var s = new Stack<int>(); s.Push(1); s.Push(2); var x = s.Pop(); return $"{x}{s.Count}{s.Peek()}";','211')
t('(int a, string b) = P(); (a, b) = (a + 1, b + "z"); var (c, _) = P(); return a + b + c;','2yz1','static (int, string) P() => (1, "y");')
t('int a = 1, b = 2; (a, b) = (b, a); return a + "" + b;','21')
t('object o = 5; return o is int n && n > 3 ? "big" : "small";','big')
t('object o = "s"; switch (o) { case int i when i > 2: return "i"; case string s: return "str" + s; default: return "d"; }','strs')
t('return nameof(System) + nameof(List<int>.Count);','SystemCount')
t('uint x = 7; return (x switch { 1u => "a", 7u => "b", _ => "c" });','b')
t('int? x = null; int? y = 4; return (x ?? 9) + "" + y.Value + x.HasValue + y.GetValueOrDefault() + x.GetValueOrDefault(3);','94False43')
t('var d = new Dictionary<string, int> { ["a"] = 1, ["b"] = 2 }; foreach (var kv in d) { if (kv.Key == "b") { return kv.Value.ToString(); } } return "";','2')
t('var d = new Dictionary<string, int> { { "a", 1 } }; foreach (KeyValuePair<string, int> kv in d) { return kv.Key; } return "";','a')
t('Func<int, int> f = null; f = n => n <= 1 ? 1 : n * f(n - 1); return f(5).ToString();','120')
t('int Fact(int n) { if (n <= 1) return 1; return n * Fact(n - 1); } return Fact(5).ToString();','120')
t('return Gen(3).Select((x, i) => x * i).Sum().ToString();','8','static IEnumerable<int> Gen(int n) { for (int i = 0; i < n; i++) { if (i == 7) yield break; yield return i + 1; } }')
t('try { throw new ArgumentException("bad"); } catch (ArgumentException e) when (e.Message == "bad") { return "caught"; } finally { }','caught')
t('try { Convert.ToByte(300); } catch (OverflowException) { return "o"; } return "n";','o')
t('var a = new byte[] { 1, 2, 3, 4 }; var b = new byte[2]; Array.Copy(a, 1, b, 0, 2); return b[0] + "" + b[1];','23')
t('var a = new byte[] { 1, 2, 3, 4 }; Buffer.BlockCopy(a, 0, a, 1, 2); return string.Join("", a);','1124')
t('return string.Join("/", Enumerable.Range(1, 3).Select(x => x.ToString()).ToArray());','1/2/3')
t('var l = new List<uint> { 1, 2, 3 }; l.RemoveAt(l.Count - 1); return l[l.Count - 1].ToString() + l.Last() + l.First() + l.Contains(2u);','221True')
t('var l = new List<int> { 5, 6 }; for (var e = l.GetEnumerator(); e.MoveNext(); ) { return e.Current.ToString(); } return "";','5')
t('using (var e = new List<int> { 5, 6 }.GetEnumerator()) { int s = 0; while (e.MoveNext()) { s += e.Current; } return s.ToString(); }','11')
t('ulong v = 0xFFFFFFFFFFFFFFFFUL; unchecked { return ((int) v).ToString() + (sbyte) 200 + (byte) -1 + (short) 40000; }','-1-56255-25536')
t('checked { try { int m = int.MaxValue; m = m + 1; return "no"; } catch (OverflowException) { return "ov"; } }','ov')
t('return (-7 / 2) + "," + (-7 % 3) + "," + (-7 >> 1) + "," + (1 << 33) + "," + (7u >> 1) + "," + (1L << 33);','-3,-1,-4,2,3,8589934592')
t('return (5 & 3 | 8 ^ 1) + "" + ~5 + (true ^ false) + (true & false) + (false | true);','9-6TrueFalseTrue')
t('const int K = 3; var s = 0; do { s += K; if (s == 6) continue; } while (s < 9); return s.ToString();','9')
t('var sb = new StringBuilder(); sb.Append("a").Append(1).AppendFormat("{0}-{1}", 2, "x").Append(\'c\'); return sb.ToString() + sb.Length;','a12-xc6')
t('return new P(3) { Y = 4 }.Sum().ToString() + new P(1).ToString();','7P1','sealed class P { public int X { get; } public int Y { get; set; } = 0; public P(int x) => X = x; public int Sum() => X + Y; public override string ToString() => $"P{X}"; }')
t('var p = new Pt(1, 2); var q = p; return q.X + "" + q.Y;','12','struct Pt { public int X; public int Y; public Pt(int x, int y) { X = x; Y = y; } }')
t('var p = new Pt { X = 1 }; var q = p; q.X = 5; return p.X + "" + q.X;','15','struct Pt { public int X; }')
t('return Box<int>.Make(4).Get().ToString();','4','class Box<T> { private readonly T v; private Box(T v) { this.v = v; } public static Box<T> Make(T v) => new Box<T>(v); public T Get() { return v; } }')
t('return Max(3, 9).ToString() + Max("a", "b");','9b','static T Max<T>(T a, T b) where T : IComparable<T> { return a.CompareTo(b) >= 0 ? a : b; }')
t('E e = E.B; return e.ToString() + (int) e + (e == E.B) + Enum.IsDefined(typeof(E), (byte) 9) + Enum.IsDefined(typeof(E), e);','B2TrueFalseTrue','enum E : byte { A = 0, B = 2 }')
t('Action<int> a = x => total += x; a += x => total += 10 * x; a(2); a?.Invoke(1); return total.ToString();','33','static int total = 0;')
t('EventHandler<int> h = null; h += (s, x) => log += x; h?.Invoke(null, 3); h(null, 4); return log;','34','static string log = "";')
t('return Sum(1, 2, 3).ToString() + Sum();','60','static int Sum(params int[] xs) { var t = 0; foreach (var x in xs) t += x; return t; }')
t('int x = 1; Inc(ref x); Out(out var y); Out(out int z); Out(out _); return x + "" + y + z;','277','static void Inc(ref int a) { a++; } static void Out(out int b) { b = 7; }')
t('return int.TryParse("12", out var n) ? n.ToString() : "no";','12')
t('lock (typeof(int)) { return "l"; }','l')
t('object o = new object(); return (o == null) + "" + object.ReferenceEquals(o, o) + ReferenceEquals(o, null) + Equals(1, 1);','FalseTrueFalseTrue')
t('var h = new HashSet<int> { 1, 2 }; return h.Add(2) + "" + h.Add(3) + h.Count + h.Contains(1) + h.Remove(1);','FalseTrue3TrueTrue')
t('var d = new SortedDictionary<int, string> { { 2, "b" }, { 1, "a" } }; return string.Join("", d.Values);','ab')
t('var l = new List<int> { 1, 2, 3, 4 }; return string.Join(",", l.Where(x => x % 2 == 0).ToDictionary(x => x, x => x * x).Select(kv => kv.Key + ":" + kv.Value));','2:4,4:16')
t('var l = new List<int> { 1, 2, 3, 4 }; l.Reverse(); l.Sort(); l.Insert(0, 9); return string.Join("", l) + l.FindIndex(x => x == 3) + l.Exists(x => x > 8) + l.IndexOf(4);','912343True4')
t('return string.Join("", new[] { 3, 4 }.Concat(new[] { 5 }).Reverse().Skip(1).Take(1)) + new[] { 1, 2 }.Length + new int[3].Length;','423')
t('return "abc".Substring(1) + "abc".Substring(0, 1) + "a,b".Split(\',\')[1] + "AbC".ToLower() + "x".PadLeft(3, \'0\') + "abc"[1] + "abc".LastIndexOf("c") + "abc".EndsWith("c");','bcababc00xb2True')
t('return string.Format("{0} {1:X2} {0}", 5, 10) + $"{255:x}" + $"{{}}" + string.Format("{0,4}|", 7);','5 0A 5ff{}   7|')
t('return typeof(List<int>).Name + typeof(T).Name + (typeof(int) == typeof(Int32)) + typeof(int).FullName;','List`1TTrueSystem.Int32')
t('return Encoding.UTF8.GetString(new byte[] { 0xc3, 0xa9 }) + Encoding.UTF8.GetBytes("é").Length;','é2')
t('var x = 10; x -= 3; x *= 2; x /= 4; x %= 2; x <<= 3; x |= 1; x &= 7; x ^= 2; return x.ToString();','3')
t('string s = null; s ??= "d"; var n = s?.Length ?? 0; return s + n;','d1')
t('var i = 0; goto end; i = 5; end: return i.ToString();','0')
t('for (int i = 0, j = 10; i < j; i++, j--) { if (i == 3) return i + "" + j; } return "";','37')
t('var m = new int[,] { { 1, 2 }, { 3, 4 } }; return m[1, 0].ToString();','3')
t('int[][] m = { new[] { 1 }, new[] { 2, 3 } }; return m[1][1].ToString();','3')
t('object o = new List<int> { 1 }; if (!(o is List<int> l)) return "no"; return l.Count.ToString();','1')
t('object o = null; return o is null ? "null" : "x";','null')
t('object o = 3; return o is not null ? "nn" : "n";','nn')
t('var l = new List<int> { 1, 2 }; return l is { Count: 2 } ? "two" : "other";','two')
t('int k = 5; return k is > 3 and < 9 ? "mid" : "out";','mid')
t('var a = new[] { 1, 2, 3 }; return a[^1] + "" + a[1..].Length;','32')
t('Debug.Assert(true, "x"); return "ok";','ok','','using System.Diagnostics;')
t('return new D().Hi() + ((B) new D()).Hi() + new D().Base();','dddb','class B { public virtual string Hi() { return "b"; } } class D : B { public override string Hi() => "dd".Substring(1); public string Base() => "d" + base.Hi(); }'.replace('"dd".Substring(1)','"d"'))
t('I i = new C(); return i.Go() + i.Name;','gon','interface I { string Go(); string Name { get; } } class C : I { string I.Go() { return "go"; } public string Name => "n"; }')
t('var c = new Cnt(); c[3] = 5; return c[3] + "" + c[4];','50','class Cnt { Dictionary<int, int> d = new Dictionary<int, int>(); public int this[int k] { get { return d.TryGetValue(k, out var v) ? v : 0; } set => d[k] = value; } }')
t('var v = new V(2) + new V(3); return v.X.ToString() + (v == new V(5)) + (int) v;','5True5','class V { public int X; public V(int x) { X = x; } public static V operator +(V a, V b) => new V(a.X + b.X); public static bool operator ==(V a, V b) { return a.X == b.X; } public static bool operator !=(V a, V b) { return !(a == b); } public static explicit operator int(V v) { return v.X; } public override bool Equals(object o) => o is V v && v == this; public override int GetHashCode() => X; }')
t('return Ext("ab") + "ab".Twice();','ababab','static string Ext(string s) { return s; }','') 
t('Func<int> f = () => { var z = 3; return z; }; Func<int, Func<int>> mk = x => () => x; var a = mk(1); var b = mk(2); return f() + "" + a() + b();','312')
t('var fs = new List<Func<int>>(); foreach (var x in new[] { 1, 2, 3 }) { fs.Add(() => x); } return string.Join("", fs.Select(f => f()));','123')
t('var fs = new List<Func<int>>(); for (var i = 0; i < 3; i++) { var j = i; fs.Add(() => j); } return string.Join("", fs.Select(f => f()));','012')
t('Func<int, int> sq = delegate (int x) { return x * x; }; return sq(4).ToString();','16')
t('try { try { throw new Exception("a"); } finally { log += "f"; } } catch (Exception e) { return log + e.Message; }','fa','static string log = "";')
t('return Math.Min(3, 4) + Math.Max(3u, 4u).ToString() + Math.Abs(-3);','343')
t('var b = BitConverter.GetBytes(258); return b[0] + "" + b[1] + b.Length;','214')
t('var seg = new ArraySegment<byte>(new byte[] { 1, 2, 3 }, 1, 2); return seg.Count + "" + seg.Offset + seg.Array[seg.Offset] + string.Join("", seg);','21223')
t('IReadOnlyList<int> l = new List<int> { 7 }; IEnumerable<int> e = l; return l[0] + "" + e.Count() + e.Any() + e.FirstOrDefault();','71True7')
t('var z = new Lazy<int>(() => 5); return z.Value.ToString();','5')
t('int n = 0; while (true) { if (++n > 4) break; } return n.ToString();','5')
t('var t = (Name: "a", Age: 3); return t.Name + t.Age + t.Item1;','a3a')
t('var t = Tuple.Create(1, "b"); return t.Item1 + t.Item2;','1b')
t('string r = ""; foreach (var (k, v) in new Dictionary<string, int> { { "a", 1 } }) { r += k + v; } return r;','a1')
t('return new string(\'x\', 3) + string.Empty + string.IsNullOrEmpty("") + char.IsDigit(\'3\') + (char) 65 + (int) \'a\' + (\'a\' + 1) + (char) (\'a\' + 1);','xxxTrueTrueA9798b')
t('Type t = typeof(List<>); return t.Name + typeof(int[]).Name;','List`1Int32[]')
t('return default(int) + "" + default(bool) + (default(string) == null) + default(E);','0FalseTrueA','enum E { A }')
t('var l = new List<int> { 1, 2, 3 }; l.RemoveAll(x => x > 1); return string.Join("", l) + string.Join(",", new List<int>(l) { 4 });','11,4')
t('var g = new[] { 1, 2, 3, 4 }.GroupBy(x => x % 2).Select(x => x.Key + ":" + x.Count()); return string.Join(" ", g);','1:2 0:2')
t('return new[] { 3, 1 }.Min() + "" + new[] { 3, 1 }.Max() + new[] { 1, 1 }.Distinct().Count() + new[] { 1 }.Single() + new[] { 1, 2 }.Zip(new[] { 3, 4 }, (a, b) => a * b).Sum();','131111'.replace('131111','1311')+'11')
t('return string.Join("", new object[] { 1, "a" }.OfType<string>()) + string.Join("", new[] { new[] { 1 }, new[] { 2 } }.SelectMany(x => x));','a12')
t('int x = 3; x = x > 2 ? x < 5 ? 1 : 2 : 3; return x.ToString();','1')
t('return M(b: 2, a: 1) + M(1);','1-21-9','static string M(int a, int b = 9) => a + "-" + b;')
t('var ms = new MemoryStream(new byte[] { 1, 2, 3 }); var r = ms.ReadByte(); var buf = new byte[5]; var n = ms.Read(buf, 0, 5); return r + "" + n + ms.ReadByte() + ms.Position + ms.Length;','12-133')
t('return Interlocked.Increment(ref n).ToString() + n;','11','static int n = 0;','using System.Threading;')
t('return (from x in new[] { 1, 2, 3 } where x > 1 select x * 2).Sum().ToString();','10')
t('var a = new int[] { 3, 1, 2 }; Array.Sort(a); Array.Reverse(a); Array.Resize(ref a, 4); return string.Join("", a) + Array.IndexOf(a, 1) + Array.Empty<int>().Length;','321020')
t('ReadOnlySpan<byte> s = new byte[] { 1, 2, 3 }; return s.Length + "" + s.Slice(1)[0];','32')
t('return GetX() is int v ? v.ToString() : "none";','none','static int? GetX() => null;')
t('return Weird().ToString();','3','''#region x
/// <summary>doc</summary>
[Obsolete("x")]
#pragma warning disable 1
static int Weird() { /* c */ return 3; }
#endregion''')
t('dynamic d = 3; return (d + 1).ToString();','4')
t('return Rec.Make().Inner.Val.ToString();','8','class Rec { public class In { public int Val = 8; } public In Inner = new In(); public static Rec Make() { return new Rec(); } }')
t('uint a = 3; uint b = 5; int c = -1; return (a - b) + "," + (a + c) + "," + (a > c) + "," + ((long) a - b);','4294967294,2,True,-2')
t('byte b = 200; b += 100; byte c = 255; c++; return b + "" + c + (b << 4) + (byte) (b + 1);','44070445')
t('ulong u = 1UL << 63; long s = (long) u; return s + "" + (u >> 63) + (s >> 63) + (long) (u >> 1);','-92233720368547758081-14611686018427387904')
t('var key = (1u, 2u); var d = new Dictionary<(uint, uint), string> { [key] = "k" }; return d[(1u, 2u)];','k')
t('var d = new Dictionary<Type, string> { { typeof(int), "i" } }; return d.TryGetValue(typeof(int), out var v) ? v + d.ContainsKey(typeof(string)) : "";','iFalse')
t('return S.Instance.N.ToString();','4','sealed class S { public static readonly S Instance = new S(); public readonly int N; private S() { N = 4; } }')
t('int s = 0; foreach (int x in Nums) { s += x; } return s.ToString();','6','static IEnumerable<int> Nums { get { yield return 1; yield return 2; yield return 3; } }')
t('return new L().Sum().ToString();','3','class L : IEnumerable<int> { public IEnumerator<int> GetEnumerator() { yield return 1; yield return 2; } IEnumerator IEnumerable.GetEnumerator() => GetEnumerator(); }','using System.Collections;')
t('try { object o = "s"; int x = (int) o; return "no"; } catch (InvalidCastException) { return "ice"; }','ice')
t('try { int[] a = new int[1]; a[1] = 2; return "no"; } catch (IndexOutOfRangeException e) { return e.GetType().Name; }','IndexOutOfRangeException')
t('int zero = 0; try { return (1 / zero).ToString(); } catch (DivideByZeroException) { return "dz"; }','dz')
t('var x = new { A = 1, B = "b" }; return x.A + x.B;','1b')
t('static int Twice(int v) => v * 2; return Twice(4).ToString();','8')
t('var r = new List<int>(); void Add(int v) { r.Add(v); if (v > 0) Add(v - 1); } Add(2); return string.Join("", r);','210')
t('int c = 0; void Inc() { c++; } Inc(); Inc(); Action a = Inc; a(); return c.ToString();','3')
t('int c = 0; Func<int> f = () => ++c; f(); f(); return c.ToString();','2')
t('bool ok = false; if (!ok) { ok = !ok; } return ok.ToString().ToLower();','true')
t('return Convert.ToInt32("12") + Convert.ToString(5) + ((IConvertible) 3 == null);','125False')
t('return "a" + null + 1.5 + true;','a1.5True')
t('var s = @"a\\b" + "\\t\\u0041\\x41" + \'\\n\'; return s.Length.ToString();','7')
t('return 1_000 + 0x1F + 0b101 + "";','1036')
t('var d = new Dictionary<int, long> { { 1, 5 } }; var v = d.ContainsKey(2) ? d[2] : default; return G<long>(v) + G<long>(default);','00','static string G<U>(U x) { return x.ToString(); }')
t('var v = 1 > 2 ? "a" : default; return F(v, default);','nz','static string F(string a, bool b) { return (a == null ? "n" : "s") + (b ? "y" : "z"); }')
bad=0
for code,want,members,usings in T:
    src='''using System; using System.Collections.Generic; using System.Linq; using System.Text; using System.IO; %s
namespace X { public static class T { %s
 public static string Run() { %s } }
 public static class Exts { public static string Twice(this string s) { return s + s; } } }'''%(usings,members,code)
    try:
        w=csinterp.World([('t.cs',src)])
        rt=w.inst(w.by_name[('X','T',0)])
        got=w.invoke(rt,None,'Run',[])
        if got!=want: bad+=1; print('DIFF',code,'\n   got',repr(got),'want',repr(want))
    except Exception as e:
        bad+=1; print('FAIL',code,'\n   ',type(e).__name__,str(e)[:200])
        if '-v' in sys.argv: traceback.print_exc()
print(len(T),'cases',bad,'bad')
