import tlc2.overrides.*;
import tlc2.value.impl.*;
import tlc2.tool.EvalControl;

/** Evaluates the operators of FP.tla as IEEE-754 doubles. An FP number is an opaque TLC value (never put in a
 *  state variable or a set); TLA+ integers are accepted wherever an FP number is expected. */
public class FPOverrides implements ITLCOverrides {
  public Class[] get() { return new Class[]{FPOverrides.class}; }
  static final class D extends UserObj {
    final double v; D(double v){this.v=v;}
    public int compareTo(Value o){ return Double.compare(v, d(o)); }
    public boolean member(Value o){ return false; }
    public boolean isFinite(){ return true; }
    public StringBuffer toString(StringBuffer sb,int off,boolean sw){ return sb.append('"').append(Double.toString(v)).append('"'); }
  }
  static double d(Value x){
    if (x instanceof UserValue) return ((D)((UserValue)x).userObj).v;
    if (x instanceof IntValue) return ((IntValue)x).val;
    throw new RuntimeException("not a number: "+x);
  }
  static Value v(double x){ return new UserValue(new D(x)); }
  static Value b(boolean x){ return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static String s(Value a){ return ((StringValue)a).val.toString(); }
  static double parse(String t){
    if (t.equals("nan")||t.equals("NaN")) return Double.NaN;
    if (t.equals("inf")) return Double.POSITIVE_INFINITY;
    if (t.equals("-inf")) return Double.NEGATIVE_INFINITY;
    return Double.parseDouble(t);
  }
  @TLAPlusOperator(identifier="++", module="FP", warn=false) public static Value add(Value a, Value b){ return v(d(a)+d(b)); }
  @TLAPlusOperator(identifier="--", module="FP", warn=false) public static Value sub(Value a, Value b){ return v(d(a)-d(b)); }
  @TLAPlusOperator(identifier="**", module="FP", warn=false) public static Value mul(Value a, Value b){ return v(d(a)*d(b)); }
  @TLAPlusOperator(identifier="//", module="FP", warn=false) public static Value div(Value a, Value b){ return v(d(a)/d(b)); }
  @TLAPlusOperator(identifier="Neg", module="FP", warn=false) public static Value neg(Value a){ return v(-d(a)); }
  @TLAPlusOperator(identifier="FAbs", module="FP", warn=false) public static Value abs(Value a){ return v(Math.abs(d(a))); }
  @TLAPlusOperator(identifier="Sqrt", module="FP", warn=false) public static Value sqrt(Value a){ return v(Math.sqrt(d(a))); }
  @TLAPlusOperator(identifier="Cos", module="FP", warn=false) public static Value cos(Value a){ return v(Math.cos(d(a))); }
  @TLAPlusOperator(identifier="Sin", module="FP", warn=false) public static Value sin(Value a){ return v(Math.sin(d(a))); }
  @TLAPlusOperator(identifier="Tan", module="FP", warn=false) public static Value tan(Value a){ return v(Math.tan(d(a))); }
  @TLAPlusOperator(identifier="Atan2", module="FP", warn=false) public static Value atan2(Value y, Value x){ return v(Math.atan2(d(y),d(x))); }
  @TLAPlusOperator(identifier="Exp", module="FP", warn=false) public static Value exp(Value a){ return v(Math.exp(d(a))); }
  @TLAPlusOperator(identifier="Log", module="FP", warn=false) public static Value log(Value a){ return v(Math.log(d(a))); }
  @TLAPlusOperator(identifier="Sinh", module="FP", warn=false) public static Value sinh(Value a){ return v(Math.sinh(d(a))); }
  @TLAPlusOperator(identifier="Cosh", module="FP", warn=false) public static Value cosh(Value a){ return v(Math.cosh(d(a))); }
  @TLAPlusOperator(identifier="Asinh", module="FP", warn=false) public static Value asinh(Value a){
    double x=d(a), y=Math.abs(x); double r=Math.log(y+Math.sqrt(y*y+1)); return v(x<0?-r:r); }
  @TLAPlusOperator(identifier="Pow", module="FP", warn=false) public static Value pow(Value a, Value b){ return v(Math.pow(d(a),d(b))); }
  @TLAPlusOperator(identifier="FMin", module="FP", warn=false) public static Value min(Value a, Value b){ return v(Math.min(d(a),d(b))); }
  @TLAPlusOperator(identifier="FMax", module="FP", warn=false) public static Value max(Value a, Value b){ return v(Math.max(d(a),d(b))); }
  @TLAPlusOperator(identifier="Lt", module="FP", warn=false) public static Value lt(Value a, Value c){ return b(d(a)<d(c)); }
  @TLAPlusOperator(identifier="Le", module="FP", warn=false) public static Value le(Value a, Value c){ return b(d(a)<=d(c)); }
  @TLAPlusOperator(identifier="FEq", module="FP", warn=false) public static Value feq(Value a, Value c){ return b(d(a)==d(c)); }
  @TLAPlusOperator(identifier="IsFin", module="FP", warn=false) public static Value fin(Value a){ double x=d(a); return b(!Double.isNaN(x)&&!Double.isInfinite(x)); }
  @TLAPlusOperator(identifier="IsInf", module="FP", warn=false) public static Value inf(Value a){ return b(Double.isInfinite(d(a))); }
  @TLAPlusOperator(identifier="FloorInt", module="FP", warn=false) public static Value floorInt(Value a){ return IntValue.gen((int)Math.floor(d(a))); }
  @TLAPlusOperator(identifier="Str", module="FP", warn=false) public static Value str(Value a){ return new StringValue(String.format("%.9g",d(a))); }
  @TLAPlusOperator(identifier="Lit", module="FP", warn=false) public static Value lit(Value a){ return v(parse(s(a))); }
  @TLAPlusOperator(identifier="Nums", module="FP", warn=false) public static Value nums(Value a){
    String t=s(a).trim(); if (t.isEmpty()) return new TupleValue(new Value[0]);
    String[] p=t.split(" +"); Value[] r=new Value[p.length];
    for(int i=0;i<p.length;i++) r[i]=v(parse(p[i]));
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier="Sum", module="FP", warn=false) public static Value sum(OpValue op, Value n){
    int N=((IntValue)n).val; double s=0, c=0; Value[] args=new Value[1];
    for(int i=0;i<N;i++){ args[0]=IntValue.gen(i); double y=d(op.eval(args, EvalControl.Clear))-c; double t=s+y; c=(t-s)-y; s=t; }
    return v(s);
  }
  /** component-wise sum of vector-valued operator (tuple of dimension k) */
  @TLAPlusOperator(identifier="SumV", module="FP", warn=false) public static Value sumv(OpValue op, Value n, Value k){
    int N=((IntValue)n).val, K=((IntValue)k).val; double[] s=new double[K]; Value[] args=new Value[1];
    for(int i=0;i<N;i++){ args[0]=IntValue.gen(i); TupleValue tv=(TupleValue)op.eval(args, EvalControl.Clear).toTuple();
      for(int j=0;j<K;j++) s[j]+=d(tv.elems[j]); }
    Value[] r=new Value[K]; for(int j=0;j<K;j++) r[j]=v(s[j]);
    return new TupleValue(r);
  }
}
