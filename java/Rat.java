// TLC module override for spec/Rat.tla: exact rational arithmetic on strings
// "n", "n/d" (reduced, d>0) and the three tokens "nan", "inf", "-inf".
// TLC's own integers are 32-bit, which is why the arithmetic is done here.
// Every operator is total: an operand that is not a number yields "nan" and
// every comparison with "nan" is FALSE.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;

import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public final class Rat {
    private Rat() {}

    // ---------------------------------------------------------------- numbers
    static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;
    static final MathContext MC = new MathContext(60, RoundingMode.HALF_EVEN);

    static final class Q {
        final BigInteger n, d; // d == 0: n = 0 nan, 1 inf, -1 -inf
        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
        boolean fin() { return d.signum() != 0; }
        boolean nan() { return d.signum() == 0 && n.signum() == 0; }
    }
    static final Q NAN = new Q(ZERO, ZERO), INF = new Q(ONE, ZERO), NINF = new Q(ONE.negate(), ZERO);
    static final Q Q0 = new Q(ZERO, ONE), Q1 = new Q(ONE, ONE);

    static Q mk(BigInteger n, BigInteger d) {
        if (d.signum() == 0) return NAN;
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (!d.equals(ONE)) {
            BigInteger g = n.gcd(d);
            if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
        }
        return new Q(n, d);
    }
    static Q parse(String s) {
        try {
            if (s.equals("nan")) return NAN;
            if (s.equals("inf")) return INF;
            if (s.equals("-inf")) return NINF;
            int k = s.indexOf('/');
            if (k >= 0) return mk(new BigInteger(s.substring(0, k)), new BigInteger(s.substring(k + 1)));
            int e = s.indexOf('.');
            if (e >= 0 || s.indexOf('e') >= 0 || s.indexOf('E') >= 0) return ofDec(new BigDecimal(s));
            return new Q(new BigInteger(s), ONE);
        } catch (RuntimeException ex) { return NAN; }
    }
    static Q of(Value v) {
        if (v instanceof StringValue) return parse(((StringValue) v).getVal().toString());
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), ONE);
        return NAN;
    }
    static Value out(Q q) {
        if (!q.fin()) return new StringValue(q.n.signum() == 0 ? "nan" : q.n.signum() > 0 ? "inf" : "-inf");
        return new StringValue(q.d.equals(ONE) ? q.n.toString() : q.n + "/" + q.d);
    }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static Q add(Q a, Q b) {
        if (!a.fin() || !b.fin()) {
            if (a.nan() || b.nan()) return NAN;
            if (a.fin()) return b;
            if (b.fin()) return a;
            return a.n.equals(b.n) ? a : NAN;
        }
        if (a.d.equals(b.d)) return mk(a.n.add(b.n), a.d);
        return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    static Q neg(Q a) { return new Q(a.n.negate(), a.d); }
    static Q sub(Q a, Q b) { return add(a, neg(b)); }
    static Q mul(Q a, Q b) {
        if (!a.fin() || !b.fin()) {
            int s = a.n.signum() * b.n.signum();
            return (a.nan() || b.nan() || s == 0) ? NAN : s > 0 ? INF : NINF;
        }
        return mk(a.n.multiply(b.n), a.d.multiply(b.d));
    }
    static Q div(Q a, Q b) {
        if (!a.fin() || !b.fin()) {
            if (a.fin() && !b.nan()) return Q0;
            if (!b.fin() || a.nan()) return NAN;
            int s = a.n.signum() * (b.n.signum() < 0 ? -1 : 1);
            return s > 0 ? INF : NINF;
        }
        if (b.n.signum() == 0) return a.n.signum() == 0 ? NAN : a.n.signum() > 0 ? INF : NINF;
        return mk(a.n.multiply(b.d), a.d.multiply(b.n));
    }
    /** null when unordered */
    static Integer cmp(Q a, Q b) {
        if (a.nan() || b.nan()) return null;
        if (!a.fin() || !b.fin()) {
            int x = a.fin() ? 0 : a.n.signum(), y = b.fin() ? 0 : b.n.signum();
            return Integer.compare(x, y);
        }
        return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
    }

    // ------------------------------------------------- 60-digit transcendental
    static BigDecimal dec(Q a) { return new BigDecimal(a.n).divide(new BigDecimal(a.d), MC); }
    static Q ofDec(BigDecimal x) {
        BigInteger u = x.unscaledValue();
        int s = x.scale();
        return s >= 0 ? mk(u, BigInteger.TEN.pow(s)) : new Q(u.multiply(BigInteger.TEN.pow(-s)), ONE);
    }
    static BigDecimal exp(BigDecimal x) {
        MathContext m = new MathContext(80, RoundingMode.HALF_EVEN);
        int k = 0;
        BigDecimal y = x;
        while (y.abs().compareTo(BigDecimal.ONE) > 0) { y = y.divide(BigDecimal.valueOf(2), m); k++; }
        BigDecimal t = BigDecimal.ONE, s = BigDecimal.ONE;
        for (int i = 1; i < 80; i++) { t = t.multiply(y, m).divide(BigDecimal.valueOf(i), m); s = s.add(t, m); }
        for (int i = 0; i < k; i++) s = s.multiply(s, m);
        return s.round(MC);
    }
    static BigDecimal log(BigDecimal x) {
        MathContext m = new MathContext(80, RoundingMode.HALF_EVEN);
        double g = Math.log(x.doubleValue());
        if (Double.isInfinite(g) || Double.isNaN(g)) return null;
        BigDecimal y = new BigDecimal(g);
        for (int i = 0; i < 4; i++) { // Halley-type iteration: y += 2 (x-e^y)/(x+e^y)
            BigDecimal e = exp(y);
            y = y.add(BigDecimal.valueOf(2).multiply(x.subtract(e, m), m).divide(x.add(e, m), m), m);
        }
        return y.round(MC);
    }
    static Q qexp(Q a) {
        if (a.nan()) return NAN;
        if (!a.fin()) return a.n.signum() > 0 ? INF : Q0;
        BigDecimal x = dec(a);
        if (x.abs().compareTo(BigDecimal.valueOf(5000)) > 0) return x.signum() > 0 ? INF : Q0;
        return ofDec(exp(x));
    }
    static Q qlog(Q a) {
        if (!a.fin() || a.n.signum() < 0) return (!a.nan() && a.n.signum() > 0) ? INF : NAN;
        if (a.n.signum() == 0) return NINF;
        if (cmp(a, Q1) == 0) return Q0;
        BigDecimal r = log(dec(a));
        return r == null ? NAN : ofDec(r);
    }
    static Q qipow(Q a, int n) {
        if (n < 0) return div(Q1, qipow(a, -n));
        if (n > 4096) return NAN;
        return new Q(a.n.pow(n), a.d.pow(n));
    }
    static Q qpow(Q a, Q b) {
        if (!a.fin() || !b.fin()) return NAN;
        if (b.d.equals(ONE) && b.n.bitLength() < 12
            && (long) a.n.bitLength() * Math.abs(b.n.intValue()) < 200000) {
            int n = b.n.intValue();
            if (n < 0 && a.n.signum() == 0) return INF;
            return qipow(a, n);
        }
        if (a.n.signum() < 0) return NAN;
        if (a.n.signum() == 0) return b.n.signum() > 0 ? Q0 : INF;
        return qexp(mul(b, qlog(a)));
    }
    static Q qsqrt(Q a) {
        if (!a.fin() || a.n.signum() < 0) return NAN;
        BigInteger[] r1 = a.n.sqrtAndRemainder(), r2 = a.d.sqrtAndRemainder();
        if (r1[1].signum() == 0 && r2[1].signum() == 0) return new Q(r1[0], r2[0]);
        return ofDec(dec(a).sqrt(MC));
    }

    // ------------------------------------------------------- TLA+ operators
    public static Value RAdd(Value a, Value b) { return out(add(of(a), of(b))); }
    public static Value RSub(Value a, Value b) { return out(sub(of(a), of(b))); }
    public static Value RMul(Value a, Value b) { return out(mul(of(a), of(b))); }
    public static Value RDiv(Value a, Value b) { return out(div(of(a), of(b))); }
    public static Value ToRat(Value a) { return out(of(a)); }
    public static Value RNeg(Value a) { return out(neg(of(a))); }
    public static Value RAbs(Value a) { Q q = of(a); return out(q.n.signum() < 0 ? neg(q) : q); }
    public static Value RLt(Value a, Value b) { Integer c = cmp(of(a), of(b)); return bool(c != null && c < 0); }
    public static Value RLe(Value a, Value b) { Integer c = cmp(of(a), of(b)); return bool(c != null && c <= 0); }
    public static Value REq(Value a, Value b) { Integer c = cmp(of(a), of(b)); return bool(c != null && c == 0); }
    public static Value RMin(Value a, Value b) { Q x = of(a), y = of(b); Integer c = cmp(x, y); return out(c == null ? NAN : c <= 0 ? x : y); }
    public static Value RMax(Value a, Value b) { Q x = of(a), y = of(b); Integer c = cmp(x, y); return out(c == null ? NAN : c >= 0 ? x : y); }
    public static Value RFin(Value a) { return bool(of(a).fin()); }
    public static Value RExp(Value a) { return out(qexp(of(a))); }
    public static Value RLog(Value a) { return out(qlog(of(a))); }
    public static Value RPow(Value a, Value b) { return out(qpow(of(a), of(b))); }
    public static Value RSqrt(Value a) { return out(qsqrt(of(a))); }
    /** largest integer <= a, clamped to +-10^9 (0 for nan) */
    public static Value RFloor(Value a) {
        Q q = of(a);
        BigInteger lim = BigInteger.valueOf(1000000000L);
        if (!q.fin()) return IntValue.gen(q.n.signum() * 1000000000);
        BigInteger[] r = q.n.divideAndRemainder(q.d);
        BigInteger f = r[1].signum() < 0 ? r[0].subtract(ONE) : r[0];
        return IntValue.gen(f.min(lim).max(lim.negate()).intValue());
    }
    static Value[] elems(Value s) {
        Value t = s.toTuple();
        return t == null ? new Value[0] : ((TupleValue) t).elems;
    }
    public static Value RSum(Value s) {
        Q r = Q0;
        for (Value v : elems(s)) r = add(r, of(v));
        return out(r);
    }
    public static Value RDot(Value s, Value t) {
        Value[] a = elems(s), b = elems(t);
        if (a.length != b.length) return out(NAN);
        Q r = Q0;
        for (int i = 0; i < a.length; i++) r = add(r, mul(of(a[i]), of(b[i])));
        return out(r);
    }
    /** |a-b| <= tol * max(1,|a|,|b|); equal infinities are close; nan never is */
    public static Value RClose(Value a, Value b, Value tol) {
        Q x = of(a), y = of(b);
        if (x.nan() || y.nan()) return bool(false);
        if (!x.fin() || !y.fin()) return bool(cmp(x, y) == 0);
        Q m = Q1, ax = x.n.signum() < 0 ? neg(x) : x, ay = y.n.signum() < 0 ? neg(y) : y;
        if (cmp(ax, m) > 0) m = ax;
        if (cmp(ay, m) > 0) m = ay;
        Q d = sub(x, y);
        if (d.n.signum() < 0) d = neg(d);
        return bool(cmp(d, mul(of(tol), m)) <= 0);
    }
    static final BigDecimal PI = new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798214808651");
    public static Value RPi() { return out(ofDec(PI)); }
    /** sin(pi x), to about 60 digits */
    public static Value RSinPi(Value a) {
        Q q = of(a);
        if (!q.fin()) return out(NAN);
        BigInteger two = BigInteger.valueOf(2);
        BigInteger n = q.n.mod(q.d.multiply(two));                 // x in [0, 2)
        int sg = 1;
        if (n.compareTo(q.d) >= 0) { n = n.subtract(q.d); sg = -1; }  // x in [0, 1)
        if (n.multiply(two).compareTo(q.d) > 0) n = q.d.subtract(n);  // x in [0, 1/2]
        if (n.signum() == 0) return out(Q0);
        MathContext m = new MathContext(90, RoundingMode.HALF_EVEN);
        BigDecimal x = new BigDecimal(n).divide(new BigDecimal(q.d), m).multiply(PI, m), x2 = x.multiply(x, m), t = x, r = x;
        for (int i = 2; i < 120; i += 2) {
            t = t.multiply(x2, m).divide(BigDecimal.valueOf((long) i * (i + 1)), m).negate();
            r = r.add(t, m);
        }
        r = r.round(MC);
        return out(ofDec(sg > 0 ? r : r.negate()));
    }
    /** Phi(x) = 1/2 + phi(x) * (x + x^3/3 + x^5/(3*5) + ...), to about 40 digits */
    public static Value RNormCdf(Value a) {
        Q q = of(a);
        if (q.nan()) return out(NAN);
        if (!q.fin()) return out(q.n.signum() > 0 ? Q1 : Q0);
        MathContext m = new MathContext(100, RoundingMode.HALF_EVEN);
        BigDecimal x = new BigDecimal(q.n).divide(new BigDecimal(q.d), m);
        if (x.abs().compareTo(BigDecimal.valueOf(14)) > 0) return out(x.signum() > 0 ? Q1 : Q0);
        BigDecimal x2 = x.multiply(x, m), t = x, s = x;
        for (int i = 3; i < 2000; i += 2) {
            t = t.multiply(x2, m).divide(BigDecimal.valueOf(i), m);
            s = s.add(t, m);
            if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-70")) < 0) break;
        }
        BigDecimal pi = new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534211706798");
        BigDecimal phi = exp(x2.divide(BigDecimal.valueOf(-2), m)).divide(pi.multiply(BigDecimal.valueOf(2), m).sqrt(m), m);
        return out(ofDec(new BigDecimal("0.5").add(phi.multiply(s, m), m).round(MC)));
    }
    /** a rounded to 50 significant digits (keeps long recursions affordable) */
    public static Value RRound(Value a) {
        Q q = of(a);
        if (!q.fin() || q.n.bitLength() + q.d.bitLength() < 400) return out(q);
        return out(ofDec(new BigDecimal(q.n).divide(new BigDecimal(q.d), new MathContext(50, RoundingMode.HALF_EVEN))));
    }
    /** a to the nearest multiple of 2^-100: fixed point, for long sums */
    public static Value RFix(Value a) {
        Q q = of(a);
        if (!q.fin()) return out(q);
        BigInteger n = q.n.shiftLeft(101).divide(q.d).add(ONE).shiftRight(1);
        return out(mk(n, ONE.shiftLeft(100)));
    }
    /** the same value, with nested functions over 1..n evaluated once and for all */
    static Value force(Value v) {
        if (v instanceof StringValue || v instanceof IntValue || v instanceof BoolValue) return v;
        if (v instanceof tlc2.value.impl.RecordValue) return v;
        Value t = v.toTuple();
        if (t == null) return v;
        Value[] e = ((TupleValue) t).elems, r = new Value[e.length];
        for (int i = 0; i < e.length; i++) r[i] = force(e[i]);
        return new TupleValue(r);
    }
    public static Value Force(Value v) { return force(v); }
    /** concatenation of a sequence of sequences */
    public static Value Flat(Value v) {
        ArrayList<Value> r = new ArrayList<>();
        for (Value x : elems(v)) for (Value y : elems(x)) r.add(y);
        return new TupleValue(r.toArray(new Value[0]));
    }
    interface Op { Q f(Q a, Q b); }
    /** elementwise on (nested) sequences; a number is the same for all elements */
    static Value map2(Value a, Value b, Op o) {
        boolean sa = a instanceof StringValue || a instanceof IntValue, sb = b instanceof StringValue || b instanceof IntValue;
        if (sa && sb) return out(o.f(of(a), of(b)));
        Value[] x = sa ? null : elems(a), y = sb ? null : elems(b);
        if (x != null && y != null && x.length != y.length) return out(NAN);
        int n = x != null ? x.length : y.length;
        Value[] r = new Value[n];
        for (int i = 0; i < n; i++) r[i] = map2(x == null ? a : x[i], y == null ? b : y[i], o);
        return new TupleValue(r);
    }
    public static Value VAdd(Value a, Value b) { return map2(a, b, (x, y) -> add(x, y)); }
    public static Value VSub(Value a, Value b) { return map2(a, b, (x, y) -> sub(x, y)); }
    public static Value VMul(Value a, Value b) { return map2(a, b, (x, y) -> mul(x, y)); }
    public static Value VDiv(Value a, Value b) { return map2(a, b, (x, y) -> div(x, y)); }
    public static Value VFix(Value a) { return map2(a, IntValue.gen(0), (x, y) -> of(RFix(out(x)))); }
    /** number of elements of a sequence not above c */
    public static Value VCountLe(Value s, Value c) {
        Q t = of(c);
        int n = 0;
        for (Value v : elems(s)) { Integer k = cmp(of(v), t); if (k != null && k <= 0) n++; }
        return IntValue.gen(n);
    }
    /** 12-digit decimal rendering, for messages only */
    public static Value RShow(Value a) {
        Q q = of(a);
        if (!q.fin()) return out(q);
        return new StringValue(new BigDecimal(q.n).divide(new BigDecimal(q.d), new MathContext(12)).toString());
    }
}
