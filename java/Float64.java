import tlc2.value.impl.*;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;

/** TLC module override: interprets the operators of spec/Float64.tla. */
public class Float64 {
  private static final ConcurrentHashMap<String, Value> DEC = new ConcurrentHashMap<>();

  static double g(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null || t.elems.length != 2) throw new RuntimeException("not a double: " + v);
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  static Value m(double d) {
    long b = Double.doubleToLongBits(d);
    return new TupleValue(new Value[]{IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static String s(Value v) { return ((StringValue) v).val.toString(); }

  public static Value D(Value a) {
    String k = s(a);
    Value v = DEC.get(k);
    if (v == null) { v = m(Double.parseDouble(k)); DEC.put(k, v); }
    return v;
  }
  public static Value I(Value a) { return m(((IntValue) a).val); }
  public static Value S(Value a) { return m((double) (float) g(a)); }
  public static Value ToInt(Value a) {
    double d = g(a);
    if (!(Math.abs(d) < 2147483647.0)) throw new RuntimeException("ToInt of " + d);
    return IntValue.gen((int) d);
  }
  public static Value FAdd(Value a, Value c) { return m(g(a) + g(c)); }
  public static Value FSub(Value a, Value c) { return m(g(a) - g(c)); }
  public static Value FMul(Value a, Value c) { return m(g(a) * g(c)); }
  public static Value FDiv(Value a, Value c) { return m(g(a) / g(c)); }
  public static Value FLt(Value a, Value c) { return b(g(a) < g(c)); }
  public static Value FLe(Value a, Value c) { return b(g(a) <= g(c)); }
  public static Value FEq(Value a, Value c) { return b(g(a) == g(c)); }
  public static Value FMin(Value a, Value c) { return m(Math.min(g(a), g(c))); }
  public static Value FMax(Value a, Value c) { return m(Math.max(g(a), g(c))); }
  public static Value FNeg(Value a) { return m(-g(a)); }
  public static Value FAbs(Value a) { return m(Math.abs(g(a))); }
  public static Value FSqrt(Value a) { return m(Math.sqrt(g(a))); }
  public static Value FCbrt(Value a) { return m(Math.cbrt(g(a))); }
  public static Value FPow(Value a, Value c) { return m(Math.pow(g(a), g(c))); }
  public static Value FSin(Value a) { return m(Math.sin(g(a))); }
  public static Value FCos(Value a) { return m(Math.cos(g(a))); }
  public static Value FAtan2(Value a, Value c) { return m(Math.atan2(g(a), g(c))); }
  public static Value FLog10(Value a) { return m(Math.log10(g(a))); }
  public static Value FFloor(Value a) { return m(Math.floor(g(a))); }
  public static Value FCeil(Value a) { return m(Math.ceil(g(a))); }
  public static Value FMod(Value a, Value c) { return m(g(a) % g(c)); }
  public static Value IsNaN(Value a) { return b(Double.isNaN(g(a))); }
  public static Value IsFinite(Value a) { double d = g(a); return b(!Double.isNaN(d) && !Double.isInfinite(d)); }
  public static Value FStr(Value a) { return new StringValue(Double.toString(g(a))); }
  public static Value FSortDown(Value a) {
    TupleValue t = (TupleValue) a.toTuple();
    double[] d = new double[t.elems.length];
    for (int i = 0; i < d.length; i++) d[i] = -g(t.elems[i]);
    Arrays.sort(d);
    Value[] r = new Value[d.length];
    for (int i = 0; i < d.length; i++) r[i] = m(-d[i]);
    return new TupleValue(r);
  }
  public static Value Close(Value a, Value c, Value r, Value t) {
    double x = g(a), y = g(c);
    if (x == y || (Double.isNaN(x) && Double.isNaN(y))) return b(true);
    return b(Math.abs(x - y) <= g(t) + g(r) * Math.max(Math.abs(x), Math.abs(y)) && !Double.isInfinite(x) && !Double.isInfinite(y));
  }
}
