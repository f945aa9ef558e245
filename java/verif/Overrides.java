package verif;

import java.io.BufferedWriter;
import java.io.File;
import java.io.FileWriter;
import java.util.HashMap;
import java.util.Map;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Evaluation of the operators of spec/Num.tla (defined there over the real numbers) on exact rationals. */
public final class Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    public Class[] get() { return new Class[] { Overrides.class }; }

    static Num c(Value v) { return Num.coerce(v); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "N", module = "Num", warn = false)
    public static Value lit(Value a) { return c(a); }
    @TLAPlusOperator(identifier = "Add", module = "Num", warn = false)
    public static Value add(Value a, Value b) { return Num.add(c(a), c(b)); }
    @TLAPlusOperator(identifier = "Sub", module = "Num", warn = false)
    public static Value sub(Value a, Value b) { return Num.sub(c(a), c(b)); }
    @TLAPlusOperator(identifier = "Mul", module = "Num", warn = false)
    public static Value mul(Value a, Value b) { return Num.mul(c(a), c(b)); }
    @TLAPlusOperator(identifier = "Div", module = "Num", warn = false)
    public static Value div(Value a, Value b) { return Num.div(c(a), c(b)); }
    @TLAPlusOperator(identifier = "++", module = "Num", warn = false)
    public static Value add2(Value a, Value b) { return Num.add(c(a), c(b)); }
    @TLAPlusOperator(identifier = "--", module = "Num", warn = false)
    public static Value sub2(Value a, Value b) { return Num.sub(c(a), c(b)); }
    @TLAPlusOperator(identifier = "**", module = "Num", warn = false)
    public static Value mul2(Value a, Value b) { return Num.mul(c(a), c(b)); }
    @TLAPlusOperator(identifier = "//", module = "Num", warn = false)
    public static Value div2(Value a, Value b) { return Num.div(c(a), c(b)); }
    @TLAPlusOperator(identifier = "Neg", module = "Num", warn = false)
    public static Value neg(Value a) { return c(a).neg(); }
    @TLAPlusOperator(identifier = "Abs", module = "Num", warn = false)
    public static Value abs(Value a) { return c(a).abs(); }
    @TLAPlusOperator(identifier = "Lt", module = "Num", warn = false)
    public static Value lt(Value a, Value b) { Num x = c(a), y = c(b); return b(x.cls != Num.NAN && y.cls != Num.NAN && Num.cmp(x, y) < 0); }
    @TLAPlusOperator(identifier = "Le", module = "Num", warn = false)
    public static Value le(Value a, Value b) { Num x = c(a), y = c(b); return b(x.cls != Num.NAN && y.cls != Num.NAN && Num.cmp(x, y) <= 0); }
    @TLAPlusOperator(identifier = "Eq", module = "Num", warn = false)
    public static Value eq(Value a, Value b) { Num x = c(a), y = c(b); return b(x.cls != Num.NAN && y.cls != Num.NAN && Num.cmp(x, y) == 0); }
    @TLAPlusOperator(identifier = "NMin", module = "Num", warn = false)
    public static Value min(Value a, Value b) { Num x = c(a), y = c(b); return Num.cmp(x, y) <= 0 ? x : y; }
    @TLAPlusOperator(identifier = "NMax", module = "Num", warn = false)
    public static Value max(Value a, Value b) { Num x = c(a), y = c(b); return Num.cmp(x, y) >= 0 ? x : y; }
    @TLAPlusOperator(identifier = "Sqrt", module = "Num", warn = false)
    public static Value sqrt(Value a) { return Num.sqrt(c(a)); }
    @TLAPlusOperator(identifier = "Sin", module = "Num", warn = false)
    public static Value sin(Value a) { return Num.sincos(c(a), true); }
    @TLAPlusOperator(identifier = "Cos", module = "Num", warn = false)
    public static Value cos(Value a) { return Num.sincos(c(a), false); }
    @TLAPlusOperator(identifier = "Atan2", module = "Num", warn = false)
    public static Value atan2(Value y, Value x) { return Num.atan2(c(y), c(x)); }
    @TLAPlusOperator(identifier = "Exp2", module = "Num", warn = false)
    public static Value exp2(Value a) { return Num.exp2(c(a)); }
    @TLAPlusOperator(identifier = "Floor", module = "Num", warn = false)
    public static Value floor(Value a) { return Num.floor(c(a)); }
    @TLAPlusOperator(identifier = "Pi", module = "Num", warn = false)
    public static Value pi() { return PI; }
    static final Num PI = Num.pi();
    @TLAPlusOperator(identifier = "IsFin", module = "Num", warn = false)
    public static Value isfin(Value a) { return b(c(a).cls == Num.FIN); }
    @TLAPlusOperator(identifier = "IsNaN", module = "Num", warn = false)
    public static Value isnan(Value a) { return b(c(a).cls == Num.NAN); }
    @TLAPlusOperator(identifier = "Mag", module = "Num", warn = false)
    public static Value mag(Value a) { return Num.fromDouble(c(a).m); }
    @TLAPlusOperator(identifier = "Exact", module = "Num", warn = false)
    public static Value exact(Value a) { Num x = c(a); return x.withM(x.absUp()); }
    @TLAPlusOperator(identifier = "Widen", module = "Num", warn = false)
    public static Value widen(Value a, Value e) { Num x = c(a), y = c(e); return x.withM(x.m + Math.abs(y.approx()) * (1 + 1e-12)); }

    /** Within(out, exp, k, p): |out - exp| <= k * 2^-p * Mag(exp) + tiny(p) */
    static boolean within(Num out, Num exp, double k, int p) {
        if (exp.cls != Num.FIN) return out.cls == exp.cls;
        if (out.cls != Num.FIN) return false;
        if (Double.isInfinite(exp.m)) return true;
        if (out.n.equals(exp.n) && out.d.equals(exp.d)) return true;
        double tiny = p < 40 ? 1e-36 : 1e-300;
        double lim = k * Math.scalb(exp.m, -p) * (1 + 1e-9) + tiny;
        double diff = Math.abs(Num.sub(out, exp).approx());
        return diff <= lim;
    }
    @TLAPlusOperator(identifier = "Within", module = "Num", warn = false)
    public static Value within(Value out, Value exp, Value k, Value p) {
        return b(within(c(out), c(exp), c(k).approx(), ((IntValue) p).val));
    }
    static Value[] elems(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        return t.elems;
    }
    /** WithinSeq(out, exp, k, p): same length and element-wise Within */
    @TLAPlusOperator(identifier = "WithinSeq", module = "Num", warn = false)
    public static Value withinSeq(Value out, Value exp, Value k, Value p) {
        Value[] x = elems(out), y = elems(exp);
        if (x.length != y.length) return BoolValue.ValFalse;
        double kk = c(k).approx(); int pp = ((IntValue) p).val;
        for (int i = 0; i < x.length; i++) if (!within(c(x[i]), c(y[i]), kk, pp)) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    @TLAPlusOperator(identifier = "NumSeq", module = "Num", warn = false)
    public static Value numSeq(Value s) {
        Value[] x = elems(s); Value[] r = new Value[x.length];
        for (int i = 0; i < x.length; i++) r[i] = c(x[i]);
        return new TupleValue(r);
    }
    /** Sgn(a, k, p): sign of a if it exceeds its rounding bound k*2^-p*Mag(a), else 0 */
    @TLAPlusOperator(identifier = "Sgn", module = "Num", warn = false)
    public static Value sgn(Value a, Value k, Value p) {
        Num x = c(a);
        if (x.cls == Num.PINF) return IntValue.gen(1);
        if (x.cls == Num.NINF) return IntValue.gen(-1);
        if (x.cls == Num.NAN || x.n.signum() == 0) return IntValue.gen(0);
        double lim = c(k).approx() * Math.scalb(x.m, -((IntValue) p).val);
        if (lim > 0 && Math.abs(x.approx()) <= lim) return IntValue.gen(0);
        return IntValue.gen(x.n.signum());
    }
    @TLAPlusOperator(identifier = "Str", module = "Num", warn = false)
    public static Value str(Value a) { Num x = c(a); return new StringValue(x.cls == Num.FIN && x.n.bitLength() + x.d.bitLength() < 64 ? x.key() : Double.toHexString(x.approx())); }

    static Value force(Value v) {
        if (v instanceof Num || v instanceof StringValue || v instanceof IntValue || v instanceof BoolValue) return v;
        Value t = v.toTuple();
        if (t == null) return v;
        Value[] x = ((TupleValue) t).elems, r = new Value[x.length];
        for (int i = 0; i < x.length; i++) r[i] = force(x[i]);
        return new TupleValue(r);
    }
    /** Force(x): x, evaluated (a sequence given by a function is otherwise evaluated anew at every use) */
    @TLAPlusOperator(identifier = "Force", module = "Num", warn = false)
    public static Value forced(Value a) { return force(a); }

    // ---- output of generated cases ----
    static final Map<String, BufferedWriter> out = new HashMap<>();
    static synchronized void write(String file, String line) {
        try {
            BufferedWriter w = out.get(file);
            if (w == null) {
                w = new BufferedWriter(new FileWriter(new File(file), true), 1 << 16);
                out.put(file, w);
                final BufferedWriter ww = w;
                Runtime.getRuntime().addShutdownHook(new Thread(() -> { try { synchronized (Overrides.class) { ww.close(); } } catch (Exception e) { } }));
            }
            w.write(line); w.write('\n');
        } catch (java.io.IOException e) { throw new RuntimeException(e); }
    }
    static void flat(Value v, StringBuilder sb) {
        if (v instanceof Num) { Num x = (Num) v; if (sb.length() > 0) sb.append(' '); sb.append(x.cls == Num.FIN && ((x.d.bitCount() == 1 && x.n.bitLength() <= 53) || x.d.bitLength() > 60 || x.n.bitLength() > 60) ? Double.toHexString(x.approx()) : x.key()); return; }
        if (v instanceof StringValue) { if (sb.length() > 0) sb.append(' '); sb.append(((StringValue) v).val.toString()); return; }
        if (v instanceof IntValue) { if (sb.length() > 0) sb.append(' '); sb.append(((IntValue) v).val); return; }
        if (v instanceof BoolValue) { if (sb.length() > 0) sb.append(' '); sb.append(((BoolValue) v).val ? 1 : 0); return; }
        for (Value e : elems(v)) flat(e, sb);
    }
    /** Emit(args): append one line, the flattened sequence args, to the file named by -Dverif.cases */
    @TLAPlusOperator(identifier = "Emit", module = "Num", minLevel = 1, warn = false)
    public static Value emit(Value args) {
        StringBuilder sb = new StringBuilder();
        flat(args, sb);
        write(System.getProperty("verif.cases"), sb.toString());
        return BoolValue.ValTrue;
    }
    /** Reject(line, clauses): record that a trace line was not accepted */
    @TLAPlusOperator(identifier = "Reject", module = "Num", minLevel = 1, warn = false)
    public static Value reject(Value l, Value what) {
        write(System.getProperty("verif.rejects"), l + " " + what.toUnquotedString());
        return BoolValue.ValTrue;
    }
    static java.util.Random rng;
    /** Pick(s): an element of the non-empty sequence s, pseudo-randomly (seed -Dverif.seed) */
    @TLAPlusOperator(identifier = "Pick", module = "Num", minLevel = 1, warn = false)
    public static synchronized Value pick(Value s) {
        if (rng == null) rng = new java.util.Random(Long.getLong("verif.seed", 1L));
        Value[] x = elems(s);
        return x[rng.nextInt(x.length)];
    }
    /** Rnd(lo, hi): a pseudo-random integer in lo..hi */
    @TLAPlusOperator(identifier = "Rnd", module = "Num", minLevel = 1, warn = false)
    public static synchronized Value rnd(Value lo, Value hi) {
        if (rng == null) rng = new java.util.Random(Long.getLong("verif.seed", 1L));
        int a = ((IntValue) lo).val, b = ((IntValue) hi).val;
        return IntValue.gen(a + rng.nextInt(b - a + 1));
    }
}
