import tlc2.value.impl.*;
import java.math.BigInteger;
import java.util.*;

/** TLC module override: interprets the operators of spec/Text.tla. */
public class Text {
  static String s(Value v) { return ((StringValue) v).val.toString(); }
  static Value v(String x) { return new StringValue(x); }
  static Value seq(List<String> l) {
    Value[] r = new Value[l.size()];
    for (int i = 0; i < r.length; i++) r[i] = v(l.get(i));
    return new TupleValue(r);
  }
  static boolean space(char c) {
    return (c >= 9 && c <= 13) || c == 32 || c == 0x85 || c == 0xa0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200a)
        || c == 0x2028 || c == 0x2029 || c == 0x202f || c == 0x205f || c == 0x3000;
  }
  static String trim(String x) {
    int a = 0, b = x.length();
    while (a < b && space(x.charAt(a))) a++;
    while (b > a && space(x.charAt(b - 1))) b--;
    return x.substring(a, b);
  }
  public static Value Trim(Value a) { return v(trim(s(a))); }
  public static Value HasPrefix(Value a, Value p) { return Float64.b(s(a).startsWith(s(p))); }
  public static Value DropPrefix(Value a, Value p) { String x = s(a), q = s(p); return v(x.startsWith(q) ? x.substring(q.length()) : x); }
  public static Value Split(Value a, Value p) {
    String x = s(a), q = s(p);
    List<String> l = new ArrayList<>();
    int i = 0;
    for (;;) {
      int j = x.indexOf(q, i);
      if (j < 0) { l.add(x.substring(i)); return seq(l); }
      l.add(x.substring(i, j));
      i = j + q.length();
    }
  }
  public static Value CutFirst(Value a, Value p) {
    String x = s(a), q = s(p);
    int j = x.indexOf(q);
    return seq(j < 0 ? List.of(x) : List.of(x.substring(0, j), x.substring(j + q.length())));
  }
  public static Value TrimChars(Value a, Value l, Value r) {
    String x = s(a), cl = s(l), cr = s(r);
    int i = 0, j = x.length();
    while (i < j && cl.indexOf(x.charAt(i)) >= 0) i++;
    while (j > i && cr.indexOf(x.charAt(j - 1)) >= 0) j--;
    return v(x.substring(i, j));
  }
  public static Value Erase(Value a, Value c) { return v(s(a).replace(s(c), "")); }

  static final java.util.regex.Pattern NUM = java.util.regex.Pattern.compile("[+-]?(\\d+\\.?\\d*|\\.\\d+)([eE][+-]?\\d+)?");
  static final java.util.regex.Pattern SPECIAL = java.util.regex.Pattern.compile("(?i)([+-]?(inf|infinity))|nan");
  static final java.util.regex.Pattern INT = java.util.regex.Pattern.compile("[+-]?\\d+");
  static double num(String x, boolean single) {
    if (SPECIAL.matcher(x).matches()) {
      if (x.equalsIgnoreCase("nan")) return Double.NaN;
      return x.startsWith("-") ? Double.NEGATIVE_INFINITY : Double.POSITIVE_INFINITY;
    }
    if (!NUM.matcher(x).matches()) return 0;
    return single ? (double) Float.parseFloat(x) : Double.parseDouble(x);
  }
  static BigInteger integer(String x) {
    if (!INT.matcher(x).matches()) return BigInteger.ZERO;
    BigInteger n = new BigInteger(x.startsWith("+") ? x.substring(1) : x);
    return n.min(BigInteger.valueOf(Long.MAX_VALUE)).max(BigInteger.valueOf(Long.MIN_VALUE));
  }
  public static Value Numeric(Value a) { return Float64.b(NUM.matcher(s(a)).matches()); }
  public static Value ToF(Value a) { return Float64.m(num(s(a), false)); }
  public static Value ToS(Value a) { return Float64.m(num(s(a), true)); }
  public static Value IntOf(Value a) { return IntValue.gen(integer(s(a)).min(BigInteger.valueOf(Integer.MAX_VALUE)).max(BigInteger.valueOf(Integer.MIN_VALUE)).intValue()); }
  public static Value IntText(Value a) { return v(integer(s(a)).toString()); }
  public static Value HasBit(Value n, Value k) { return Float64.b((((IntValue) n).val >> ((IntValue) k).val & 1) == 1); }
  public static Value FTrunc(Value a) { double d = Float64.g(a); return Float64.m(d < 0 ? Math.ceil(d) : Math.floor(d)); }
  public static Value FromCodes(Value a) {
    TupleValue t = (TupleValue) a.toTuple();
    StringBuilder b = new StringBuilder();
    for (Value x : t.elems) b.appendCodePoint(((IntValue) x).val);
    return v(b.toString());
  }
}
