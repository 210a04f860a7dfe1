import java.math.BigInteger;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

/** TLC module override for CircuitEval.tla: PolyVal. */
public class CircuitEval {
  static final class C {
    boolean big; BigInteger bp; long p; int n;
    char[] op; int[] x, y;          // per node (1-based)
    BigInteger[] bv; long[] lv;     // values (1-based)
    int[][] fixed, sel, adv, cls; int[] slot, birth, death;
    boolean[][] seen; BigInteger[][] fx; // memo of Fixd
    final Value holder;
    C(Value v) { holder = v; }
  }
  private static final ThreadLocal<IdentityHashMap<Value, C>> CACHE = ThreadLocal.withInitial(IdentityHashMap::new);

  private static Value get(RecordValue r, String k) { return r.select(new StringValue(k)); }
  private static int i(Value v) { return ((IntValue) v).val; }
  static Value[] elems(Value v) { return ((TupleValue) v.toTuple()).elems; }
  private static int[] ints(Value v) {
    Value[] e = elems(v); int[] r = new int[e.length];
    for (int k = 0; k < r.length; k++) r[k] = i(e[k]);
    return r;
  }
  private static int[][] grid(Value v) {
    Value[] e = elems(v); int[][] r = new int[e.length][];
    for (int k = 0; k < r.length; k++) r[k] = ints(e[k]);
    return r;
  }
  private static C compile(Value cv) {
    RecordValue r = (RecordValue) cv.toRcd();
    C c = new C(cv);
    RecordValue f = (RecordValue) get(r, "f").toRcd();
    c.big = ((BoolValue) get(f, "big")).val;
    if (c.big) c.bp = BigField.num(get(f, "p")); else c.p = i(get(f, "p"));
    c.n = i(get(r, "n"));
    Value[] vals = elems(get(r, "vals"));
    c.bv = new BigInteger[vals.length + 1]; c.lv = new long[vals.length + 1];
    for (int k = 0; k < vals.length; k++) { if (c.big) c.bv[k + 1] = BigField.num(vals[k]); else c.lv[k + 1] = i(vals[k]); }
    Value[] nodes = elems(get(r, "nodes"));
    c.op = new char[nodes.length + 1]; c.x = new int[nodes.length + 1]; c.y = new int[nodes.length + 1];
    for (int k = 0; k < nodes.length; k++) {
      RecordValue nd = (RecordValue) nodes[k].toRcd();
      char o = ((StringValue) get(nd, "t")).val.toString().charAt(0);
      c.op[k + 1] = o;
      switch (o) {
        case 'c': c.x[k + 1] = i(get(nd, "v")); break;
        case 's': c.x[k + 1] = i(get(nd, "c")); break;
        case 'f': case 'a': c.x[k + 1] = i(get(nd, "c")); c.y[k + 1] = i(get(nd, "r")); break;
        case 'n': c.x[k + 1] = i(get(nd, "a")); break;
        case '+': case '*': c.x[k + 1] = i(get(nd, "a")); c.y[k + 1] = i(get(nd, "b")); break;
        case 'k': c.x[k + 1] = i(get(nd, "a")); c.y[k + 1] = i(get(nd, "v")); break;
        default: throw new IllegalArgumentException("node kind " + o);
      }
    }
    c.fixed = grid(get(r, "fixed")); c.sel = grid(get(r, "sel")); c.adv = grid(get(r, "adv"));
    if (get(r, "cls") != null) {
      c.cls = grid(get(r, "cls")); c.slot = ints(get(r, "slot")); c.birth = ints(get(r, "birth")); c.death = ints(get(r, "death"));
    }
    c.seen = new boolean[c.op.length][c.n]; c.fx = new BigInteger[c.op.length][c.n];
    return c;
  }
  private static C of(Value cv) {
    IdentityHashMap<Value, C> m = CACHE.get();
    C c = m.get(cv);
    if (c == null) {
      if (m.size() > 400) m.clear();
      c = compile(cv);
      m.put(cv, c);
    }
    return c;
  }
  private static int wrap(C c, int r) { return Math.floorMod(r + c.n, c.n); }
  private static boolean zero(C c, int v) { return c.big ? c.bv[v].signum() == 0 : c.lv[v] == 0; }
  private static BigInteger val(C c, int v) { return c.big ? c.bv[v] : BigInteger.valueOf(c.lv[v]); }
  private static BigInteger mod(C c) { return c.big ? c.bp : BigInteger.valueOf(c.p); }
  /** the value determined by selectors and fixed cells, or null */
  private static BigInteger fixd(C c, int e, int r) {
    if (c.seen[e][r]) return c.fx[e][r];
    BigInteger v = null, x, y;
    switch (c.op[e]) {
      case 'c': v = val(c, c.x[e]); break;
      case 's': v = BigInteger.valueOf(c.sel[c.x[e]][r]); break;
      case 'f': v = val(c, c.fixed[c.x[e]][wrap(c, r + c.y[e])]); break;
      case 'a': break;
      case 'n': x = fixd(c, c.x[e], r); if (x != null) v = x.negate().mod(mod(c)); break;
      case 'k':
        x = fixd(c, c.x[e], r);
        if (zero(c, c.y[e])) v = BigInteger.ZERO; else if (x != null) v = x.multiply(val(c, c.y[e])).mod(mod(c));
        break;
      case '+': x = fixd(c, c.x[e], r); y = fixd(c, c.y[e], r); if (x != null && y != null) v = x.add(y).mod(mod(c)); break;
      default:
        x = fixd(c, c.x[e], r); y = fixd(c, c.y[e], r);
        if ((x != null && x.signum() == 0) || (y != null && y.signum() == 0)) v = BigInteger.ZERO;
        else if (x != null && y != null) v = x.multiply(y).mod(mod(c));
    }
    c.fx[e][r] = v; c.seen[e][r] = true;
    return v;
  }
  private static boolean vanishes(C c, int e, int r) { BigInteger v = fixd(c, e, r); return v != null && v.signum() == 0; }
  private static Value slotVal(C c, int q, Value[] a, int t, int col, int row) {
    if (q <= 0 || c.birth[q - 1] > t || t > c.death[q - 1])
      throw new IllegalStateException("cell not assigned: column " + col + " row " + row + " step " + t);
    return a[c.slot[q - 1] - 1];
  }
  /** scratch of one evaluation: memo per node */
  private static final class W { long[] l; BigInteger[] b; int[] stamp; int now; }
  private static final ThreadLocal<W> WS = ThreadLocal.withInitial(W::new);

  private static long lev(C c, int e, int r, Value[] a, int t, W w) {
    if (w.stamp[e] == w.now) return w.l[e];
    long v;
    switch (c.op[e]) {
      case 'c': v = c.lv[c.x[e]]; break;
      case 's': v = c.sel[c.x[e]][r]; break;
      case 'f': v = c.lv[c.fixed[c.x[e]][wrap(c, r + c.y[e])]]; break;
      case 'a': {
        int row = wrap(c, r + c.y[e]);
        if (a == null) v = c.lv[c.adv[c.x[e]][row]];
        else { int q = c.cls[c.x[e]][row]; v = q < 0 ? c.lv[-q] : i(slotVal(c, q, a, t, c.x[e], row)); }
        break;
      }
      case 'n': v = Math.floorMod(-lev(c, c.x[e], r, a, t, w), c.p); break;
      case '+': v = (lev(c, c.x[e], r, a, t, w) + lev(c, c.y[e], r, a, t, w)) % c.p; break;
      case 'k': v = c.lv[c.y[e]] == 0 ? 0 : c.lv[c.y[e]] * lev(c, c.x[e], r, a, t, w) % c.p; break;
      default:
        v = vanishes(c, c.x[e], r) || vanishes(c, c.y[e], r) ? 0
            : lev(c, c.x[e], r, a, t, w) * lev(c, c.y[e], r, a, t, w) % c.p;
    }
    w.stamp[e] = w.now; w.l[e] = v;
    return v;
  }
  private static BigInteger bev(C c, int e, int r, Value[] a, int t, W w) {
    if (w.stamp[e] == w.now) return w.b[e];
    BigInteger v;
    switch (c.op[e]) {
      case 'c': v = c.bv[c.x[e]]; break;
      case 's': v = BigInteger.valueOf(c.sel[c.x[e]][r]); break;
      case 'f': v = c.bv[c.fixed[c.x[e]][wrap(c, r + c.y[e])]]; break;
      case 'a': {
        int row = wrap(c, r + c.y[e]);
        if (a == null) v = c.bv[c.adv[c.x[e]][row]];
        else { int q = c.cls[c.x[e]][row]; v = q < 0 ? c.bv[-q] : BigField.num(slotVal(c, q, a, t, c.x[e], row)); }
        break;
      }
      case 'n': v = bev(c, c.x[e], r, a, t, w).negate().mod(c.bp); break;
      case '+': v = bev(c, c.x[e], r, a, t, w).add(bev(c, c.y[e], r, a, t, w)).mod(c.bp); break;
      case 'k': v = zero(c, c.y[e]) ? BigInteger.ZERO : c.bv[c.y[e]].multiply(bev(c, c.x[e], r, a, t, w)).mod(c.bp); break;
      default:
        v = vanishes(c, c.x[e], r) || vanishes(c, c.y[e], r) ? BigInteger.ZERO
            : bev(c, c.x[e], r, a, t, w).multiply(bev(c, c.y[e], r, a, t, w)).mod(c.bp);
    }
    w.stamp[e] = w.now; w.b[e] = v;
    return v;
  }
  public static Value PolyVal(Value cv, Value ev, Value rv, Value av, Value tv) {
    C c = of(cv);
    Value[] a = elems(av);
    if (a.length == 0) a = null;
    W w = WS.get();
    if (w.stamp == null || w.stamp.length < c.op.length) {
      w.stamp = new int[c.op.length]; w.l = new long[c.op.length]; w.b = new BigInteger[c.op.length]; w.now = 0;
    }
    w.now++;
    if (c.big) return BigField.val(bev(c, i(ev), i(rv), a, i(tv), w));
    return IntValue.gen((int) lev(c, i(ev), i(rv), a, i(tv), w));
  }
  public static Value Vanishes(Value cv, Value ev, Value rv) {
    return vanishes(of(cv), i(ev), i(rv)) ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
}
