import tlc2.value.impl.*;
import tlc2.value.*;
import tlc2.util.FP64;

/** TLC overrides of module DReal: IEEE double arithmetic. No DREAM formula in here. */
public final class DReal {
  /** A double as a TLC value. Never stored in a state: it is an intermediate of expression evaluation only. */
  public static final class RV extends Value {
    final double x;
    RV(double x) { this.x = x; }
    public byte getKind() { return STRINGVALUE; }
    public int compareTo(Object o) { return Double.compare(x, d((Value) o)); }
    public boolean equals(Object o) { return o instanceof Value && (o instanceof RV || o instanceof StringValue || o instanceof IntValue) && x == d((Value) o); }
    public long fingerPrint(long fp) { return FP64.Extend(fp, Double.toString(x)); }
    public boolean member(Value v) { throw new RuntimeException("DReal: member"); }
    public boolean isFinite() { throw new RuntimeException("DReal: isFinite"); }
    public Value takeExcept(ValueExcept e) { throw new RuntimeException("DReal: except"); }
    public Value takeExcept(ValueExcept[] e) { throw new RuntimeException("DReal: except"); }
    public int size() { throw new RuntimeException("DReal: size"); }
    public boolean isNormalized() { return true; }
    public Value normalize() { return this; }
    public void deepNormalize() { }
    public boolean isDefined() { return true; }
    public IValue deepCopy() { return this; }
    public boolean isAtom() { return true; }
    public boolean mutates() { return false; }
    public StringBuffer toString(StringBuffer sb, int o, boolean swallow) { return sb.append('"').append(Double.toString(x)).append('"'); }
  }
  private static double d(Value v) {
    if (v instanceof RV) return ((RV) v).x;
    if (v instanceof StringValue) return Double.parseDouble(((StringValue) v).val.toString());
    if (v instanceof IntValue) return ((IntValue) v).val;
    throw new RuntimeException("DReal: not a real: " + v);
  }
  private static Value s(double x) { return new RV(x); }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  private static int i(Value v) { return ((IntValue) v).val; }
  private static Value n(double x) {
    if (x != x) return IntValue.gen(0);        // the gap below makes such a case an undecided one
    if (x > 1e9) return IntValue.gen(1000000000);
    if (x < -1e9) return IntValue.gen(-1000000000);
    return IntValue.gen((int) x);
  }
  public static Value R(Value a) { return s(i(a)); }
  public static Value RQ(Value p, Value q) { return s((double) i(p) / (double) i(q)); }
  public static Value RPi() { return s(Math.PI); }
  public static Value RVal(Value x) { return s(d(x)); }
  public static Value RVals(Value q) {
    Value[] x = seq(q), y = new Value[x.length];
    for (int k = 0; k < x.length; k++) y[k] = s(d(x[k]));
    return new TupleValue(y);
  }
  public static Value RStr(Value x) { return new StringValue(Double.toString(d(x))); }
  public static Value RAdd(Value x, Value y) { return s(d(x) + d(y)); }
  public static Value RSub(Value x, Value y) { return s(d(x) - d(y)); }
  public static Value RMul(Value x, Value y) { return s(d(x) * d(y)); }
  public static Value RDiv(Value x, Value y) { return s(d(x) / d(y)); }
  public static Value RNeg(Value x) { return s(-d(x)); }
  public static Value RAbs(Value x) { return s(Math.abs(d(x))); }
  public static Value RMax(Value x, Value y) { return s(Math.max(d(x), d(y))); }
  public static Value RMin(Value x, Value y) { return s(Math.min(d(x), d(y))); }
  public static Value RSqrt(Value x) { return s(Math.sqrt(d(x))); }
  public static Value RSin(Value x) { return s(Math.sin(d(x))); }
  public static Value RCos(Value x) { return s(Math.cos(d(x))); }
  public static Value RAsin(Value x) { return s(Math.asin(d(x))); }
  public static Value RAcos(Value x) { return s(Math.acos(d(x))); }
  public static Value RAtan(Value x) { return s(Math.atan(d(x))); }
  public static Value RExp(Value x) { return s(Math.exp(d(x))); }
  public static Value RLn(Value x) { return s(Math.log(d(x))); }
  public static Value RLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value RLeq(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value REq(Value x, Value y) { return b(d(x) == d(y)); }
  public static Value RIsNaN(Value x) { double v = d(x); return b(v != v); }
  public static Value RRint(Value x) { return n(Math.rint(d(x))); }
  public static Value RTrunc(Value x) { double v = d(x); return n(v < 0 ? Math.ceil(v) : Math.floor(v)); }
  public static Value RFloat(Value x) { return s((double) (float) d(x)); }
  public static Value RRintGap(Value x) { double v = d(x); return s(v != v ? 0 : Math.abs(Math.abs(v - Math.rint(v)) - 0.5)); }
  public static Value RTruncGap(Value x) { double v = d(x); return s(v != v ? 0 : Math.abs(v - Math.rint(v))); }
  private static Value[] seq(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("DReal: not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  private static double[] ds(Value v) {
    Value[] x = seq(v); double[] r = new double[x.length];
    for (int k = 0; k < r.length; k++) r[k] = d(x[k]);
    return r;
  }
  public static Value RSum(Value q) { double a = 0.0; for (double v : ds(q)) a += v; return s(a); }
  public static Value RDot(Value p, Value q) {
    double[] x = ds(p), y = ds(q); double a = 0.0;
    for (int k = 0; k < x.length; k++) a += x[k] * y[k];
    return s(a);
  }
  public static Value RMaxAbs(Value q) { double a = 0.0; for (double v : ds(q)) { if (v != v) return s(v); a = Math.max(a, Math.abs(v)); } return s(a); }
  /** [i \in 1..n |-> sum of val[k] over all k with idx[k] = i]: a scatter-add into a zero sequence. */
  public static Value RScatter(Value n, Value idx, Value val) {
    double[] a = new double[i(n)]; Value[] ix = seq(idx); double[] v = ds(val);
    for (int k = 0; k < v.length; k++) { int j = i(ix[k]); if (j >= 1 && j <= a.length) a[j - 1] += v[k]; }
    Value[] y = new Value[a.length];
    for (int k = 0; k < y.length; k++) y[k] = s(a[k]);
    return new TupleValue(y);
  }
  public static Value RClose(Value x, Value y, Value scale, Value tol) {
    double a = d(x), c = d(y), sc = Math.max(Math.abs(d(scale)), 1e-300);
    return b(a == c || Math.abs(a - c) <= d(tol) * sc);
  }
}
