import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.LinkedHashMap;
import java.util.Map;
import tlc2.value.IValue;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * TLC override of module Num: exact rational arithmetic of unbounded precision.
 * A number is the TLA+ string "n/d" (gcd 1, d > 1) or "n", large dyadic ones "xNpK" (hexadecimal N over 2^K); the non-finite results
 * of floating point code are "inf", "-inf" and "nan".
 */
public class Num {
    static final class Q {
        final BigInteger n, d; // d > 0 for finite numbers, d = 0: inf (n=1), -inf (n=-1), nan (n=0)
        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
        boolean fin() { return d.signum() != 0; }
        boolean nan() { return d.signum() == 0 && n.signum() == 0; }
    }
    static final BigInteger I0 = BigInteger.ZERO, I1 = BigInteger.ONE;
    static final Q NAN = new Q(I0, I0), PINF = new Q(I1, I0), NINF = new Q(I1.negate(), I0), ZERO = new Q(I0, I1), ONE = new Q(I1, I1);

    /** n/d in lowest terms; beyond 300 bits (128 bits when d is not a power of two) rounded to 240 significant bits. */
    static Q mk(BigInteger n, BigInteger d) {
        int ds = d.signum();
        if (ds == 0) return new Q(BigInteger.valueOf(n.signum()), I0);
        if (ds < 0) { n = n.negate(); d = d.negate(); }
        if (n.signum() == 0) return ZERO;
        int db = d.bitLength();
        if (db == 1) return new Q(n, d);
        if (d.getLowestSetBit() == db - 1) return dyad(n, db - 1);
        if (n.bitLength() <= 128 && db <= 128) {
            BigInteger g = n.gcd(d);
            if (!g.equals(I1)) { n = n.divide(g); d = d.divide(g); }
            return new Q(n, d);
        }
        int s = 242 - (n.bitLength() - db);
        BigInteger m = (s >= 0 ? n.shiftLeft(s) : n).divide(s >= 0 ? d : d.shiftLeft(-s));
        return s >= 0 ? dyad(m, s) : new Q(m.shiftLeft(-s), I1);
    }
    /** n / 2^k, k >= 0 */
    static Q dyad(BigInteger n, int k) {
        int nb = n.bitLength();
        if (nb > 300 && k > 0) {
            int drop = Math.min(nb - 240, k);
            n = n.add(I1.shiftLeft(drop - 1)).shiftRight(drop);
            k -= drop;
        }
        if (n.signum() == 0) return ZERO;
        int t = Math.min(n.getLowestSetBit(), k);
        if (t > 0) { n = n.shiftRight(t); k -= t; }
        return new Q(n, I1.shiftLeft(k));
    }

    private static final int CACHE = 1 << 16;
    private static final ThreadLocal<Map<String, Q>> cache = ThreadLocal.withInitial(() ->
        new LinkedHashMap<String, Q>(CACHE, 0.75f, false) {
            protected boolean removeEldestEntry(Map.Entry<String, Q> e) { return size() > CACHE; }
        });

    static Q get(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), I1);
        String s = ((StringValue) v).getVal().toString();
        Map<String, Q> c = cache.get();
        Q q = c.get(s);
        if (q == null) { q = parse(s); c.put(s, q); }
        return q;
    }
    static Q parse(String s) {
        if (s.equals("nan")) return NAN;
        if (s.equals("inf")) return PINF;
        if (s.equals("-inf")) return NINF;
        if (s.charAt(0) == 'x') { int p = s.indexOf('p'); return dyad(new BigInteger(s.substring(1, p), 16), Integer.parseInt(s.substring(p + 1))); }
        int i = s.indexOf('/');
        if (i >= 0) return mk(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
        if (s.indexOf('.') >= 0 || s.indexOf('e') >= 0) return dec(new BigDecimal(s));
        return new Q(new BigInteger(s), I1);
    }
    static Q dec(BigDecimal b) {
        if (b.scale() <= 0) return new Q(b.toBigIntegerExact(), I1);
        return mk(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
    }
    static Value put(Q q) {
        if (!q.fin()) return new StringValue(q.n.signum() == 0 ? "nan" : q.n.signum() > 0 ? "inf" : "-inf");
        int db = q.d.bitLength();
        if (db == 1) return new StringValue(q.n.toString());
        if ((db > 63 || q.n.bitLength() > 63) && q.d.getLowestSetBit() == db - 1)
            return new StringValue("x" + q.n.toString(16) + "p" + (db - 1));
        return new StringValue(q.n + "/" + q.d);
    }
    static Q add(Q a, Q b) {
        if (!a.fin() || !b.fin()) {
            if (a.nan() || b.nan()) return NAN;
            if (a.fin()) return b;
            if (b.fin()) return a;
            return a.n.signum() == b.n.signum() ? a : NAN;
        }
        if (a.d.equals(b.d)) return mk(a.n.add(b.n), a.d);
        return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    static Q neg(Q a) { return new Q(a.n.negate(), a.d); }
    static Q mul(Q a, Q b) {
        if (!a.fin() || !b.fin()) {
            if (a.nan() || b.nan()) return NAN;
            int s = a.n.signum() * b.n.signum();
            return s == 0 ? NAN : s > 0 ? PINF : NINF;
        }
        return mk(a.n.multiply(b.n), a.d.multiply(b.d));
    }
    static Q div(Q a, Q b) {
        if (!a.fin() || !b.fin()) {
            if (a.nan() || b.nan() || (!a.fin() && !b.fin())) return NAN;
            if (!b.fin()) return ZERO;
            int s = a.n.signum() * (b.n.signum() < 0 ? -1 : 1);
            return s > 0 ? PINF : NINF;
        }
        if (b.n.signum() == 0) return a.n.signum() == 0 ? NAN : a.n.signum() > 0 ? PINF : NINF;
        return mk(a.n.multiply(b.d), a.d.multiply(b.n));
    }
    /** -1, 0, 1; null when either side is nan. */
    static Integer cmp(Q a, Q b) {
        if (a.nan() || b.nan()) return null;
        if (!a.fin() || !b.fin()) {
            int x = a.fin() ? 0 : a.n.signum(), y = b.fin() ? 0 : b.n.signum();
            return Integer.compare(x, y);
        }
        return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
    }

    static final MathContext MC = new MathContext(70);
    static final int DIG = 50;
    static BigDecimal bd(Q a) { return new BigDecimal(a.n).divide(new BigDecimal(a.d), MC); }
    static Q rounded(BigDecimal b) { return dec(b.round(new MathContext(DIG)).stripTrailingZeros()); }

    static BigDecimal expBD(BigDecimal x) {
        int k = 0;
        BigDecimal y = x;
        while (y.abs().compareTo(new BigDecimal("0.05")) > 0) { y = y.divide(new BigDecimal(2), MC); k++; }
        BigDecimal t = BigDecimal.ONE, s = BigDecimal.ONE;
        for (int i = 1; i < 200; i++) {
            t = t.multiply(y, MC).divide(new BigDecimal(i), MC);
            s = s.add(t, MC);
            if (t.signum() == 0 || t.abs().compareTo(new BigDecimal("1e-75")) < 0) break;
        }
        for (int i = 0; i < k; i++) s = s.multiply(s, MC);
        return s;
    }
    static BigDecimal LN2 = null;
    static BigDecimal atanhLn(BigDecimal m) { // ln m for m near 1
        BigDecimal z = m.subtract(BigDecimal.ONE).divide(m.add(BigDecimal.ONE), MC), z2 = z.multiply(z, MC), t = z, s = z;
        for (int i = 3; i < 2000; i += 2) {
            t = t.multiply(z2, MC);
            BigDecimal u = t.divide(new BigDecimal(i), MC);
            s = s.add(u, MC);
            if (u.signum() == 0 || u.abs().compareTo(new BigDecimal("1e-75")) < 0) break;
        }
        return s.multiply(new BigDecimal(2), MC);
    }
    static synchronized BigDecimal ln2() { if (LN2 == null) LN2 = atanhLn(new BigDecimal(2)); return LN2; }
    static BigDecimal lnBD(Q a) {
        int e = a.n.bitLength() - a.d.bitLength();
        BigInteger n = a.n, d = a.d;
        if (e > 0) d = d.shiftLeft(e); else n = n.shiftLeft(-e);
        BigDecimal m = new BigDecimal(n).divide(new BigDecimal(d), MC); // in (1/2, 2)
        return atanhLn(m).add(ln2().multiply(new BigDecimal(e), MC), MC);
    }

    // ---- operators of the TLA+ module ---------------------------------------------------
    public static Value RAdd(Value a, Value b) { return put(add(get(a), get(b))); }
    public static Value RSub(Value a, Value b) { return put(add(get(a), neg(get(b)))); }
    public static Value RMul(Value a, Value b) { return put(mul(get(a), get(b))); }
    public static Value RDiv(Value a, Value b) { return put(div(get(a), get(b))); }
    public static Value RNeg(Value a) { return put(neg(get(a))); }
    static Q abs(Q a) { return a.n.signum() < 0 ? neg(a) : a; }
    public static Value RAbs(Value a) { return put(abs(get(a))); }
    public static Value RLt(Value a, Value b) { Integer c = cmp(get(a), get(b)); return c != null && c < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RLe(Value a, Value b) { Integer c = cmp(get(a), get(b)); return c != null && c <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value REq(Value a, Value b) { Integer c = cmp(get(a), get(b)); return c != null && c == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RMax(Value a, Value b) { Q x = get(a), y = get(b); Integer c = cmp(x, y); return c == null ? put(NAN) : put(c >= 0 ? x : y); }
    public static Value RMin(Value a, Value b) { Q x = get(a), y = get(b); Integer c = cmp(x, y); return c == null ? put(NAN) : put(c <= 0 ? x : y); }
    public static Value RFin(Value a) { return get(a).fin() ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RNaN(Value a) { return get(a).nan() ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value R(Value a) { return put(get(a)); }
    public static Value RExp(Value a) {
        Q x = get(a);
        if (x.nan()) return put(NAN);
        if (!x.fin()) return put(x.n.signum() > 0 ? PINF : ZERO);
        if (x.n.signum() == 0) return put(ONE);
        BigDecimal b = bd(x);
        if (b.compareTo(new BigDecimal(4000)) > 0) return put(PINF);   // beyond any double precision number
        if (b.compareTo(new BigDecimal(-4000)) < 0) return put(ZERO);
        return put(rounded(expBD(b)));
    }
    public static Value RLn(Value a) {
        Q x = get(a);
        if (x.nan()) return put(NAN);
        if (!x.fin()) return put(x.n.signum() > 0 ? PINF : NAN);
        if (x.n.signum() < 0) return put(NAN);
        if (x.n.signum() == 0) return put(NINF);
        if (x.n.equals(x.d)) return put(ZERO);
        return put(rounded(lnBD(x)));
    }
    public static Value RRound(Value a) { // 50 significant digits
        Q x = get(a);
        return put(x);
    }
    public static Value RCeil(Value a) { // smallest integer >= a, as a TLA+ integer
        Q x = get(a);
        BigInteger[] qr = x.n.divideAndRemainder(x.d);
        BigInteger r = qr[1].signum() > 0 ? qr[0].add(I1) : qr[0];
        return IntValue.gen(r.intValueExact());
    }
    static Value[] elems(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        return t.elems;
    }
    static Q get(Value[] es, int i) { return get(es[i]); }
    public static Value RSum(Value s) {
        Q acc = ZERO;
        for (Value e : elems(s)) acc = add(acc, get(e));
        return put(acc);
    }
    public static Value RDot(Value s, Value t) {
        Value[] a = elems(s), b = elems(t);
        if (a.length != b.length) throw new RuntimeException("RDot: lengths differ: " + a.length + ", " + b.length);
        Q acc = ZERO;
        for (int i = 0; i < a.length; i++) acc = add(acc, mul(get(a[i]), get(b[i])));
        return put(acc);
    }
    public static Value RMaxAbs(Value s) {
        Q acc = ZERO;
        for (Value e : elems(s)) {
            Q x = abs(get(e));
            Integer c = cmp(acc, x);
            if (c == null) return put(NAN);
            if (c < 0) acc = x;
        }
        return put(acc);
    }
    public static Value RMaxOf(Value s) { return ext(s, 1); }
    public static Value RMinOf(Value s) { return ext(s, -1); }
    static Value ext(Value s, int sg) {
        Q acc = null;
        for (Value e : elems(s)) {
            Q x = get(e);
            if (x.nan()) return put(NAN);
            if (acc == null || cmp(x, acc) * sg > 0) acc = x;
        }
        return put(acc);
    }
    /** Decimal rendering for messages. */
    public static Value RShow(Value a) {
        Q x = get(a);
        if (!x.fin()) return put(x);
        return new StringValue(new BigDecimal(x.n).divide(new BigDecimal(x.d), new MathContext(12)).stripTrailingZeros().toString());
    }
}
