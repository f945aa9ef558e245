package verif;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;

import tlc2.util.FP64;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/**
 * A "tracked number": the value TLC works with for elements of the set Num of spec/Num.tla.
 * v = num/den is an exact rational (transcendental results are rounded to ~2^-200 relative), m >= |v|
 * is the magnitude that the evaluation passed through (a double, used only to scale rounding bounds).
 */
public final class Num extends Value {
    public static final int FIN = 0, NAN = 1, PINF = 2, NINF = 3;
    final int cls;
    final BigInteger n, d;
    final double m;

    static final int LIMIT = 3000, KEEP = 600;

    private Num(int cls) { this.cls = cls; n = BigInteger.ZERO; d = BigInteger.ONE; m = Double.POSITIVE_INFINITY; }
    public static final Num NaN = new Num(NAN), PosInf = new Num(PINF), NegInf = new Num(NINF);

    private Num(BigInteger n, BigInteger d, double m) { this.cls = FIN; this.n = n; this.d = d; this.m = m; }

    static Num mk(BigInteger n, BigInteger d, double m) {
        if (d.signum() == 0) return NaN;
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (n.signum() == 0) return new Num(BigInteger.ZERO, BigInteger.ONE, m);
        if (d.bitLength() > 1) {
            if (d.bitCount() == 1) {
                int s = Math.min(n.getLowestSetBit(), d.bitLength() - 1);
                if (s > 0) { n = n.shiftRight(s); d = d.shiftRight(s); }
            } else {
                BigInteger g = n.gcd(d);
                if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            }
        }
        if (n.bitLength() + d.bitLength() > LIMIT && d.bitCount() != 1) {
            // keep ~KEEP significant bits
            int sh = KEEP - (n.bitLength() - d.bitLength());
            if (sh >= 0) { n = n.shiftLeft(sh).divide(d); d = BigInteger.ONE.shiftLeft(sh); }
            else { n = n.divide(d.shiftLeft(-sh)).shiftLeft(-sh); d = BigInteger.ONE; }
            int s = Math.min(n.getLowestSetBit(), d.bitLength() - 1);
            if (s > 0) { n = n.shiftRight(s); d = d.shiftRight(s); }
        } else if (d.bitCount() == 1 && n.bitLength() > LIMIT) {
            int s = n.bitLength() - KEEP;
            n = n.shiftRight(s).shiftLeft(s);
            int k = Math.min(n.getLowestSetBit(), d.bitLength() - 1);
            if (k > 0) { n = n.shiftRight(k); d = d.shiftRight(k); }
        }
        return new Num(n, d, m);
    }

    static Num lit(BigInteger n, BigInteger d) {
        Num r = mk(n, d, 0);
        if (r.cls != FIN) return r;
        return new Num(r.n, r.d, r.absUp());
    }
    static Num of(long k) { return lit(BigInteger.valueOf(k), BigInteger.ONE); }

    /** |v| rounded up (slightly) to a double */
    double absUp() {
        if (n.signum() == 0) return 0;
        return Math.abs(approx()) * (1 + 1e-12) + Double.MIN_VALUE;
    }
    double approx() {
        if (cls == NAN) return Double.NaN;
        if (cls == PINF) return Double.POSITIVE_INFINITY;
        if (cls == NINF) return Double.NEGATIVE_INFINITY;
        int nb = n.bitLength(), db = d.bitLength();
        int ns = Math.max(0, nb - 60), ds = Math.max(0, db - 60);
        double q = (double) n.shiftRight(ns).longValue() / (double) d.shiftRight(ds).longValue();
        return Math.scalb(q, ns - ds);
    }

    // ---- parsing ----
    static Num parse(String s0) {
        String s = s0.trim();
        String t = s.startsWith("-") || s.startsWith("+") ? s.substring(1) : s;
        boolean neg = s.startsWith("-");
        if (t.startsWith("nan")) return NaN;
        if (t.startsWith("inf")) return neg ? NegInf : PosInf;
        BigInteger n, d = BigInteger.ONE;
        if (t.startsWith("0x") || t.startsWith("0X")) {
            int p = t.indexOf('p');
            int exp = p >= 0 ? Integer.parseInt(t.substring(p + 1)) : 0;
            String man = p >= 0 ? t.substring(2, p) : t.substring(2);
            int dot = man.indexOf('.');
            if (dot >= 0) { exp -= 4 * (man.length() - dot - 1); man = man.substring(0, dot) + man.substring(dot + 1); }
            n = new BigInteger(man, 16);
            if (exp >= 0) n = n.shiftLeft(exp); else d = d.shiftLeft(-exp);
        } else if (t.indexOf('/') >= 0) {
            int k = t.indexOf('/');
            n = new BigInteger(t.substring(0, k)); d = new BigInteger(t.substring(k + 1));
        } else {
            BigDecimal b = new BigDecimal(t);
            if (b.scale() >= 0) { n = b.unscaledValue(); d = BigInteger.TEN.pow(b.scale()); }
            else { n = b.toBigInteger(); }
        }
        return lit(neg ? n.negate() : n, d);
    }
    static Num coerce(Value v) {
        if (v instanceof Num) return (Num) v;
        if (v instanceof IntValue) return of(((IntValue) v).val);
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        throw new RuntimeException("not a number: " + v);
    }

    // ---- arithmetic ----
    static Num add(Num a, Num b) {
        if (a.cls != FIN || b.cls != FIN) {
            if (a.cls == NAN || b.cls == NAN) return NaN;
            if (a.cls == FIN) return b;
            if (b.cls == FIN) return a;
            return a.cls == b.cls ? a : NaN;
        }
        double m = a.m + b.m;
        if (a.d.equals(b.d)) return mk(a.n.add(b.n), a.d, m);
        return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d), m);
    }
    Num neg() {
        if (cls == NAN) return NaN;
        if (cls == PINF) return NegInf;
        if (cls == NINF) return PosInf;
        return new Num(n.negate(), d, m);
    }
    static Num sub(Num a, Num b) { return add(a, b.neg()); }
    int sign() { return cls == PINF ? 1 : cls == NINF ? -1 : n.signum(); }
    static Num mul(Num a, Num b) {
        if (a.cls != FIN || b.cls != FIN) {
            int s = a.sign() * b.sign();
            if (a.cls == NAN || b.cls == NAN || s == 0) return NaN;
            return s > 0 ? PosInf : NegInf;
        }
        return mk(a.n.multiply(b.n), a.d.multiply(b.d), a.m * b.m);
    }
    static Num div(Num a, Num b) {
        if (a.cls != FIN || b.cls != FIN) {
            if (a.cls == FIN && b.cls != NAN) return of(0);
            return NaN;
        }
        if (b.n.signum() == 0) return NaN;
        double ab = Math.abs(b.approx());
        return mk(a.n.multiply(b.d), a.d.multiply(b.n), (a.m / ab) * Math.max(1.0, b.m / ab));
    }
    static int cmp(Num a, Num b) { // both not NaN
        if (a.cls == FIN && b.cls == FIN) {
            if (a.d.equals(b.d)) return a.n.compareTo(b.n);
            int sa = a.n.signum(), sb = b.n.signum();
            if (sa != sb) return sa - sb;
            return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
        }
        int ra = a.cls == PINF ? 1 : a.cls == NINF ? -1 : 0, rb = b.cls == PINF ? 1 : b.cls == NINF ? -1 : 0;
        return Integer.compare(ra, rb);
    }
    Num abs() { return sign() < 0 ? neg() : this; }

    // ---- transcendental, to ~ 2^-200 ----
    static final MathContext MC = new MathContext(64, RoundingMode.HALF_EVEN);
    static BigDecimal big(Num a) { return new BigDecimal(a.n).divide(new BigDecimal(a.d), new MathContext(90, RoundingMode.HALF_EVEN)); }
    static Num dec(BigDecimal b, double m) {
        BigInteger n, d = BigInteger.ONE;
        // to a dyadic with 220 significant bits (keeps later arithmetic cheap)
        if (b.signum() == 0) return new Num(BigInteger.ZERO, BigInteger.ONE, m);
        BigInteger un = b.unscaledValue();
        BigInteger dn = BigInteger.ONE;
        if (b.scale() >= 0) dn = BigInteger.TEN.pow(b.scale()); else un = un.multiply(BigInteger.TEN.pow(-b.scale()));
        int sh = 220 - (un.bitLength() - dn.bitLength());
        if (sh >= 0) { n = un.shiftLeft(sh).divide(dn); d = d.shiftLeft(sh); }
        else { n = un.divide(dn.shiftLeft(-sh)).shiftLeft(-sh); }
        Num r = mk(n, d, m);
        return new Num(r.n, r.d, Math.max(m, r.absUp()));
    }
    static final BigDecimal PI = new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798214808651328230664709384460955058223172535940812848111745028410270193852110555964462294895493038196");
    static final BigDecimal TWO = BigDecimal.valueOf(2);
    static Num pi() { return dec(PI.round(MC), 0); }

    static Num sqrt(Num a) {
        if (a.cls == PINF) return a;
        if (a.cls != FIN || a.n.signum() < 0) return NaN;
        if (a.n.signum() == 0) return new Num(BigInteger.ZERO, BigInteger.ONE, Math.sqrt(a.m));
        // exact if perfect square, else 220 bits
        BigInteger rn = a.n.sqrt(), rd = a.d.sqrt();
        double r = Math.sqrt(a.approx());
        double m = a.m / r;
        if (rn.multiply(rn).equals(a.n) && rd.multiply(rd).equals(a.d)) return fixm(mk(rn, rd, m));
        int sh = 440 - (a.n.bitLength() - a.d.bitLength());
        if ((sh & 1) != 0) sh++;
        BigInteger x = sh >= 0 ? a.n.shiftLeft(sh).divide(a.d) : a.n.divide(a.d.shiftLeft(-sh));
        BigInteger q = x.sqrt();
        int h = sh / 2;
        return fixm(h >= 0 ? mk(q, BigInteger.ONE.shiftLeft(h), m) : mk(q.shiftLeft(-h), BigInteger.ONE, m));
    }
    static Num fixm(Num r) { return new Num(r.n, r.d, Math.max(r.m, r.absUp())); }

    static BigDecimal sinB(BigDecimal x) { // |x| <= ~0.8 after reduction
        BigDecimal t = x, s = x, x2 = x.multiply(x, MC);
        for (int k = 1; k < 60; k++) {
            t = t.multiply(x2, MC).divide(BigDecimal.valueOf((2L * k) * (2L * k + 1)), MC).negate();
            if (t.signum() == 0) break;
            BigDecimal s2 = s.add(t, MC);
            if (s2.compareTo(s) == 0) break;
            s = s2;
        }
        return s;
    }
    static BigDecimal cosB(BigDecimal x) {
        BigDecimal t = BigDecimal.ONE, s = BigDecimal.ONE, x2 = x.multiply(x, MC);
        for (int k = 1; k < 60; k++) {
            t = t.multiply(x2, MC).divide(BigDecimal.valueOf((2L * k - 1) * (2L * k)), MC).negate();
            if (t.signum() == 0) break;
            BigDecimal s2 = s.add(t, MC);
            if (s2.compareTo(s) == 0) break;
            s = s2;
        }
        return s;
    }
    static Num sincos(Num a, boolean sine) {
        if (a.cls != FIN) return NaN;
        BigDecimal x = big(a);
        BigDecimal half = PI.divide(TWO);
        BigDecimal q = x.divide(half, 0, RoundingMode.HALF_EVEN);
        BigDecimal r = x.subtract(q.multiply(half)).round(MC);
        int k = q.toBigInteger().mod(BigInteger.valueOf(4)).intValue();
        BigDecimal v;
        if (sine) v = k == 0 ? sinB(r) : k == 1 ? cosB(r) : k == 2 ? sinB(r).negate() : cosB(r).negate();
        else v = k == 0 ? cosB(r) : k == 1 ? sinB(r).negate() : k == 2 ? cosB(r).negate() : sinB(r);
        Num t = dec(v, 0);
        return new Num(t.n, t.d, Math.min(t.m + a.m, 1 + a.m));
    }
    static BigDecimal atanB(BigDecimal x) {
        // halve the argument 3 times: atan x = 2 atan( x / (1+sqrt(1+x^2)) )
        int k = 0;
        while (x.abs().compareTo(new BigDecimal("0.1")) > 0) {
            x = x.divide(BigDecimal.ONE.add(BigDecimal.ONE.add(x.multiply(x, MC)).sqrt(MC)), MC);
            k++;
        }
        BigDecimal t = x, s = x, x2 = x.multiply(x, MC);
        for (int i = 1; i < 80; i++) {
            t = t.multiply(x2, MC).negate();
            BigDecimal s2 = s.add(t.divide(BigDecimal.valueOf(2L * i + 1), MC), MC);
            if (s2.compareTo(s) == 0) break;
            s = s2;
        }
        return s.multiply(TWO.pow(k), MC);
    }
    static Num atan2(Num y, Num x) {
        if (x.cls != FIN || y.cls != FIN) return NaN;
        int sx = x.n.signum(), sy = y.n.signum();
        BigDecimal half = PI.divide(TWO).round(MC);
        BigDecimal v;
        if (sx == 0 && sy == 0) return of(0);
        BigDecimal bx = big(x).abs(), by = big(y).abs();
        if (bx.compareTo(by) >= 0) v = atanB(by.divide(bx, MC));
        else v = half.subtract(atanB(bx.divide(by, MC)));
        if (sx < 0) v = PI.round(MC).subtract(v);
        if (sy < 0) v = v.negate();
        double h = Math.hypot(x.approx(), y.approx());
        return dec(v, Math.abs(v.doubleValue()) + (x.m + y.m) / h);
    }
    static final BigDecimal LN2 = new BigDecimal("0.693147180559945309417232121458176568075500134360255254120680009493393621969694715605863326996418687");
    static Num exp2(Num a) {
        if (a.cls != FIN) return NaN;
        BigDecimal x = big(a);
        BigDecimal q = x.setScale(0, RoundingMode.HALF_EVEN);
        BigDecimal r = x.subtract(q).multiply(LN2, MC);
        BigDecimal t = BigDecimal.ONE, s = BigDecimal.ONE;
        for (int k = 1; k < 60; k++) {
            t = t.multiply(r, MC).divide(BigDecimal.valueOf(k), MC);
            BigDecimal s2 = s.add(t, MC);
            if (s2.compareTo(s) == 0) break;
            s = s2;
        }
        int e = q.intValueExact();
        Num f = dec(s, 0);
        Num p = e >= 0 ? lit(BigInteger.ONE.shiftLeft(e), BigInteger.ONE) : lit(BigInteger.ONE, BigInteger.ONE.shiftLeft(-e));
        Num v = mul(f, p);
        return new Num(v.n, v.d, v.m * (1 + a.m));
    }
    static Num floor(Num a) {
        if (a.cls != FIN) return NaN;
        BigInteger[] qr = a.n.divideAndRemainder(a.d);
        BigInteger q = qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
        return lit(q, BigInteger.ONE);
    }
    Num withM(double m2) { return cls == FIN ? new Num(n, d, m2) : this; }
    static Num fromDouble(double x) {
        if (Double.isNaN(x)) return NaN;
        if (Double.isInfinite(x)) return x > 0 ? PosInf : NegInf;
        BigDecimal b = new BigDecimal(x);
        BigInteger n, d = BigInteger.ONE;
        if (b.scale() >= 0) { n = b.unscaledValue(); d = BigInteger.TEN.pow(b.scale()); } else n = b.toBigInteger();
        return lit(n, d);
    }

    // ---- Value plumbing ----
    @Override public byte getKind() { return STRINGVALUE; }
    @Override public int compareTo(Object o) {
        Num b = coerce((Value) o);
        if (cls == NAN || b.cls == NAN) return Integer.compare(cls, b.cls);
        return cmp(this, b);
    }
    @Override public boolean equals(Object o) {
        if (!(o instanceof Value)) return false;
        if (!(o instanceof Num || o instanceof IntValue || o instanceof StringValue)) return false;
        Num b = coerce((Value) o);
        if (cls == NAN || b.cls == NAN) return cls == b.cls;
        return cmp(this, b) == 0;
    }
    @Override public boolean member(Value v) { throw new RuntimeException("member of a number"); }
    @Override public boolean isFinite() { throw new RuntimeException("a number is not a set"); }
    @Override public Value takeExcept(ValueExcept ex) { if (ex.idx >= ex.path.length) return ex.value; throw new RuntimeException("EXCEPT on a number"); }
    @Override public Value takeExcept(ValueExcept[] ex) { Value r = this; for (ValueExcept e : ex) r = r.takeExcept(e); return r; }
    @Override public int size() { throw new RuntimeException("size of a number"); }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    String key() { return cls == NAN ? "nan" : cls == PINF ? "inf" : cls == NINF ? "-inf" : d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d; }
    @Override public long fingerPrint(long fp) { return FP64.Extend(FP64.Extend(fp, STRINGVALUE), key()); }
    @Override public void write(IValueOutputStream vos) throws java.io.IOException { new StringValue(key()).write(vos); }
    @Override public StringBuffer toString(StringBuffer sb, int off, boolean sw) {
        if (cls != FIN) return sb.append(key());
        if (n.bitLength() + d.bitLength() < 40) return sb.append(key());
        return sb.append(approx());
    }
}
