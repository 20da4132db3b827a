import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** TLC accelerators for the operators of spec/Words.tla (which defines them). */
public class WordsOv implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] { WordsOv.class }; }

  private static final Value[] E0 = new Value[0];
  private static final IntValue[] SMALL = new IntValue[65536];
  static { for (int i = 0; i < 65536; i++) SMALL[i] = IntValue.gen(i); }

  private static Value[] limbs(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    return ((TupleValue) v.toTuple()).elems;
  }
  private static int iv(Value v) { return ((IntValue) v).val; }
  private static String sv(Value v) { return ((StringValue) v).val.toString(); }

  private static long toLong(Value[] l) {          // up to 64 bits
    long r = 0;
    for (int i = l.length - 1; i >= 0; i--) r = (r << 16) | iv(l[i]);
    return r;
  }
  private static BigInteger toBig(Value[] l) {
    if (l.length <= 3) return BigInteger.valueOf(toLong(l));
    byte[] b = new byte[l.length * 2 + 1];
    for (int i = 0; i < l.length; i++) {
      int x = iv(l[i]);
      b[b.length - 1 - 2 * i] = (byte) x;
      b[b.length - 2 - 2 * i] = (byte) (x >> 8);
    }
    return new BigInteger(b);
  }
  private static long mask(int n) { return n >= 64 ? -1L : (1L << n) - 1; }
  private static Value fromLong(int n, long v) {
    v &= mask(n);
    int nl = (n + 15) / 16;
    Value[] r = new Value[nl];
    for (int i = 0; i < nl; i++) { r[i] = SMALL[(int) (v & 0xffff)]; v >>>= 16; }
    return new TupleValue(r);
  }
  private static Value fromBig(int n, BigInteger v) {
    int nl = (n + 15) / 16;
    v = v.and(BigInteger.ONE.shiftLeft(n).subtract(BigInteger.ONE));
    Value[] r = new Value[nl];
    byte[] b = v.toByteArray();
    for (int i = 0; i < nl; i++) {
      int lo = b.length - 1 - 2 * i, hi = lo - 1;
      int x = (lo >= 0 ? b[lo] & 255 : 0) | (hi >= 0 ? (b[hi] & 255) << 8 : 0);
      r[i] = SMALL[x];
    }
    return new TupleValue(r);
  }
  private static BigInteger sgn(int n, BigInteger v) {
    return v.testBit(n - 1) ? v.subtract(BigInteger.ONE.shiftLeft(n)) : v;
  }
  private static long sgn(int n, long v) { return n >= 64 ? v : (v << (64 - n)) >> (64 - n); }

  private static int amount(Value[] l) {
    for (int i = 2; i < l.length; i++) if (iv(l[i]) != 0) return 1 << 30;
    if (l.length >= 2 && iv(l[1]) >= 16384) return 1 << 30;
    return (l.length >= 2 ? iv(l[1]) << 16 : 0) + (l.length >= 1 ? iv(l[0]) : 0);
  }

  @TLAPlusOperator(identifier = "WTrunc", module = "Words", warn = false)
  public static Value WTrunc(Value n, Value w) {
    int nb = iv(n); Value[] l = limbs(w);
    if (l.length <= 4 && nb <= 64) return fromLong(nb, toLong(l));
    return fromBig(nb, toBig(l));
  }

  @TLAPlusOperator(identifier = "WBin", module = "Words", warn = false)
  public static Value WBin(Value op, Value nv, Value av, Value bv) {
    int n = iv(nv); Value[] la = limbs(av), lb = limbs(bv); String o = sv(op);
    if (n <= 64) {
      long a = toLong(la);
      switch (o) {
        case "Shl": { int k = amount(lb); return fromLong(n, k >= n ? 0 : a << k); }
        case "Shr": { int k = amount(lb); return fromLong(n, k >= n ? 0 : a >>> k); }
        case "Shrs": { int k = amount(lb); if (k >= n) k = n - 1; return fromLong(n, sgn(n, a) >> k); }
      }
      long b = toLong(lb);
      switch (o) {
        case "Add": return fromLong(n, a + b);
        case "Sub": return fromLong(n, a - b);
        case "Mul": return fromLong(n, a * b);
        case "And": return fromLong(n, a & b);
        case "Or":  return fromLong(n, a | b);
        case "Eor": return fromLong(n, a ^ b);
        case "DivU": if (b == 0) return new TupleValue(E0); return fromLong(n, Long.divideUnsigned(a, b));
        case "ModU": if (b == 0) return new TupleValue(E0); return fromLong(n, Long.remainderUnsigned(a, b));
      }
    }
    BigInteger a = toBig(la), b;
    switch (o) {
      case "Shl": { int k = amount(lb); return fromBig(n, k >= n ? BigInteger.ZERO : a.shiftLeft(k)); }
      case "Shr": { int k = amount(lb); return fromBig(n, k >= n ? BigInteger.ZERO : a.shiftRight(k)); }
      case "Shrs": { int k = amount(lb); if (k >= n) k = n - 1; return fromBig(n, sgn(n, a).shiftRight(k)); }
    }
    b = toBig(lb);
    switch (o) {
      case "Add": return fromBig(n, a.add(b));
      case "Sub": return fromBig(n, a.subtract(b));
      case "Mul": return fromBig(n, a.multiply(b));
      case "And": return fromBig(n, a.and(b));
      case "Or":  return fromBig(n, a.or(b));
      case "Eor": return fromBig(n, a.xor(b));
      case "MulhU": return fromBig(n, a.multiply(b).shiftRight(n));
      case "MulhS": return fromBig(n, sgn(n, a).multiply(sgn(n, b)).shiftRight(n));
      case "DivU": if (b.signum() == 0) return new TupleValue(E0); return fromBig(n, a.divide(b));
      case "ModU": if (b.signum() == 0) return new TupleValue(E0); return fromBig(n, a.mod(b));
      case "DivS": if (b.signum() == 0) return new TupleValue(E0); return fromBig(n, sgn(n, a).divide(sgn(n, b)));
      case "ModS": if (b.signum() == 0) return new TupleValue(E0); return fromBig(n, sgn(n, a).remainder(sgn(n, b)));
    }
    throw new RuntimeException("WBin: unknown operation " + o);
  }

  @TLAPlusOperator(identifier = "WUn", module = "Words", warn = false)
  public static Value WUn(Value op, Value nv, Value av) {
    int n = iv(nv); Value[] la = limbs(av);
    switch (sv(op)) {
      case "Not": return n <= 64 ? fromLong(n, ~toLong(la)) : fromBig(n, toBig(la).not());
      case "Neg": return n <= 64 ? fromLong(n, -toLong(la)) : fromBig(n, toBig(la).negate());
      case "Bswap": {
        BigInteger a = toBig(la), r = BigInteger.ZERO;
        for (int i = 0; i < n / 8; i++)
          r = r.shiftLeft(8).or(a.shiftRight(8 * i).and(BigInteger.valueOf(255)));
        return fromBig(n, r);
      }
    }
    throw new RuntimeException("WUn");
  }

  @TLAPlusOperator(identifier = "WCmp", module = "Words", warn = false)
  public static Value WCmp(Value nv, Value s, Value av, Value bv) {
    int n = iv(nv);
    BigInteger a = toBig(limbs(av)), b = toBig(limbs(bv));
    if (iv(s) == 1) { a = sgn(n, a); b = sgn(n, b); }
    return IntValue.gen(a.compareTo(b));
  }

  @TLAPlusOperator(identifier = "WConv", module = "Words", warn = false)
  public static Value WConv(Value n1, Value s1, Value n2, Value av) {
    int a = iv(n1), b = iv(n2); Value[] l = limbs(av);
    if (a <= 64 && b <= 64) {
      long v = toLong(l);
      return fromLong(b, b <= a || iv(s1) == 0 ? v : sgn(a, v));
    }
    BigInteger v = toBig(l);
    return fromBig(b, b <= a || iv(s1) == 0 ? v : sgn(a, v));
  }

  @TLAPlusOperator(identifier = "WCount", module = "Words", warn = false)
  public static Value WCount(Value op, Value nv, Value av) {
    BigInteger a = toBig(limbs(av));
    switch (sv(op)) {
      case "Popcount": return IntValue.gen(a.bitCount());
      case "High": return IntValue.gen(a.bitLength() - 1);
      case "Low": return IntValue.gen(a.signum() == 0 ? -1 : a.getLowestSetBit());
    }
    throw new RuntimeException("WCount");
  }

  // ---- PureSeq of spec/Firm.tla ------------------------------------------
  private static final class Seq {
    int n; int[] op, d, a, b, c, x, mb, ms, qb, qs; boolean[] same; Value[] k; boolean[] two;
  }
  private static final java.util.concurrent.ConcurrentHashMap<Key, Seq> SEQS = new java.util.concurrent.ConcurrentHashMap<>();
  private static final class Key {
    final Object o; Key(Object o) { this.o = o; }
    public int hashCode() { return System.identityHashCode(o); }
    public boolean equals(Object p) { return p instanceof Key && ((Key) p).o == o; }
  }
  private static final java.util.List<String> OPS = java.util.Arrays.asList("Const", "Id", "Mux", "Add", "Sub", "Mul", "And", "Or", "Eor",
    "Cmp", "Conv", "Shl", "Shr", "Shrs", "Not", "Minus", "Sel", "Off");
  private static Value fld(RecordValue r, String f) { return (Value) r.select(new StringValue(f)); }
  private static Seq decode(Value[] ns, Value[] M) {
    Seq s = new Seq(); int n = s.n = ns.length;
    s.op = new int[n]; s.d = new int[n]; s.a = new int[n]; s.b = new int[n]; s.c = new int[n]; s.x = new int[n];
    s.mb = new int[n]; s.ms = new int[n]; s.qb = new int[n]; s.qs = new int[n]; s.same = new boolean[n]; s.k = new Value[n];
    s.two = new boolean[n];
    for (int j = 0; j < n; j++) {
      RecordValue r = (RecordValue) ns[j].toRcd();
      s.op[j] = OPS.indexOf(sv(fld(r, "o")));
      if (s.op[j] < 0) throw new RuntimeException("PureSeq: operation " + fld(r, "o"));
      s.d[j] = iv(fld(r, "d"));
      Value[] in = limbs(fld(r, "i"));
      if (in.length > 0) s.a[j] = iv(in[0]);
      if (in.length > 1) { s.b[j] = iv(in[1]); s.two[j] = true; }
      if (in.length > 2) s.c[j] = iv(in[2]);
      RecordValue m = (RecordValue) M[iv(fld(r, "m")) - 1].toRcd(), q = (RecordValue) M[iv(fld(r, "q")) - 1].toRcd();
      s.mb[j] = iv(fld(m, "b")); s.qb[j] = iv(fld(q, "b")); s.qs[j] = iv(fld(q, "s"));
      s.same[j] = iv(fld(r, "m")) == iv(fld(r, "q"));
      Value[] x = limbs(fld(r, "x"));
      switch (s.op[j]) {
        case 0: s.k[j] = fld(r, "x"); break;
        case 9: case 16: s.x[j] = iv(x[0]); break;
        case 11: case 12: case 13: s.x[j] = iv(fld(m, "ms")); break;
        case 17: s.x[j] = (int) toLong(x); break;
      }
    }
    return s;
  }
  private static long fit(Seq s, int j, long b) {
    if (s.qb[j] == s.mb[j]) return b;
    if (s.mb[j] <= s.qb[j] || s.qs[j] == 0) return b & mask(s.mb[j]);
    return sgn(s.qb[j], b) & mask(s.mb[j]);
  }
  @TLAPlusOperator(identifier = "PureSeq", module = "Firm", warn = false)
  public static Value PureSeq(Value ev, Value nsv, Value mv) {
    Key key = new Key(nsv);
    Seq s = SEQS.get(key);
    if (s == null) { s = decode(limbs(nsv), limbs(mv)); SEQS.put(key, s); }
    Value[] e = limbs(ev).clone();
    for (int j = 0; j < s.n; j++) {
      int d = s.d[j];
      if (d == 0) continue;
      Value r;
      switch (s.op[j]) {
        case 0: r = s.k[j]; break;
        case 1: r = e[s.a[j] - 1]; break;
        case 2: {
          Value[] c = limbs(e[s.a[j] - 1]);
          if (c.length == 0) { r = new TupleValue(E0); break; }
          boolean z = true;
          for (Value w : c) if (iv(w) != 0) z = false;
          r = z ? e[s.b[j] - 1] : e[s.c[j] - 1]; break;
        }
        default: {
          Value[] la = limbs(e[s.a[j] - 1]), lb = s.two[j] ? limbs(e[s.b[j] - 1]) : null;
          if (la.length == 0 || (lb != null && lb.length == 0)) { r = new TupleValue(E0); break; }
          int n = s.mb[j];
          long a = toLong(la), b = lb == null ? 0 : toLong(lb), v;
          switch (s.op[j]) {
            case 3: v = s.same[j] ? a + b : a + fit(s, j, b); break;
            case 4: v = s.same[j] ? a - b : a - fit(s, j, b); break;
            case 5: v = s.same[j] ? a * b : a * fit(s, j, b); break;
            case 6: v = s.same[j] ? a & b : a & fit(s, j, b); break;
            case 7: v = s.same[j] ? a | b : a | fit(s, j, b); break;
            case 8: v = s.same[j] ? a ^ b : a ^ fit(s, j, b); break;
            case 9: {
              int q = s.qb[j], z;
              z = s.qs[j] == 1 ? Long.compare(sgn(q, a), sgn(q, b)) : Long.compareUnsigned(a, b);
              v = (s.x[j] & (z == 0 ? 1 : z < 0 ? 2 : 4)) != 0 ? 1 : 0; n = 1; break;
            }
            case 10: v = n <= s.qb[j] || s.qs[j] == 0 ? a : sgn(s.qb[j], a); break;
            case 11: case 12: case 13: {
              int k = s.x[j] != 0 ? (int) Long.remainderUnsigned(b, s.x[j]) : amount(lb);
              if (s.op[j] == 11) v = k >= n ? 0 : a << k;
              else if (s.op[j] == 12) v = k >= n ? 0 : a >>> k;
              else v = sgn(n, a) >> (k >= n ? n - 1 : k);
              break;
            }
            case 14: v = ~a; break;
            case 15: v = -a; break;
            case 16: v = a + fit(s, j, b) * s.x[j]; break;
            case 17: v = a + (long) s.x[j]; break;
            default: throw new RuntimeException("PureSeq");
          }
          r = fromLong(n, v);
        }
      }
      e[d - 1] = r;
    }
    return new TupleValue(e);
  }
}
