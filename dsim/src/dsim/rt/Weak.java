package dsim.rt;

import java.util.ArrayList;
import java.util.IdentityHashMap;
import java.util.concurrent.atomic.AtomicBoolean;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;
import java.util.concurrent.atomic.AtomicReference;

/**
 * Weak-memory model for plain fields of the code under test: a read may return any older value not yet overwritten by a
 * write that happens-before it. Happens-before edges: volatile and atomic accesses, monitors, thread start and join, and
 * everything built on them.
 */
public final class Weak {

  public static boolean on;
  static double pStale;
  static boolean hoist;
  public static int staleReads;

  static final class W {
    final Object v;
    final int tid;
    final int stamp;
    /** a volatile write: every volatile read that follows sees it or a later one */
    boolean vol;

    W(Object v, int tid, int stamp) {
      this.v = v;
      this.tid = tid;
      this.stamp = stamp;
    }
  }

  static final class Loc {
    final ArrayList<W> ws = new ArrayList<>();
    int[] lastRead = new int[8];
  }

  private static final IdentityHashMap<Object, IdentityHashMap<Object, Loc>> locs = new IdentityHashMap<>();
  private static final IdentityHashMap<Object, int[]> clocks = new IdentityHashMap<>();

  static void reset() {
    on = false;
    hoist = false;
    staleReads = 0;
    locs.clear();
    clocks.clear();
  }

  public static void enable(double p, boolean hoistReads) {
    on = true;
    pStale = p;
    hoist = hoistReads;
  }

  private static int[] vc(Sim.Task t) {
    if (t.vc == null) {
      t.vc = new int[t.id + 1];
      t.vc[t.id] = 1;
    }
    return t.vc;
  }

  private static int at(int[] v, int i) {
    return i < v.length ? v[i] : 0;
  }

  private static int[] merge(int[] a, int[] b) {
    if (b == null) {
      return a;
    }
    int[] r = a != null && a.length >= b.length ? a : java.util.Arrays.copyOf(a == null ? new int[0] : a, b.length);
    for (int i = 0; i < b.length; i++) {
      if (b[i] > r[i]) {
        r[i] = b[i];
      }
    }
    return r;
  }

  static void fork(Sim.Task parent, Sim.Task child) {
    if (!on) {
      return;
    }
    int[] c = vc(child);
    if (parent != null) {
      child.vc = merge(c, vc(parent));
      parent.vc[parent.id]++;
    } else {
      // started by the harness after everything before had come to rest
      for (Sim.Task t : Sim.tasks) {
        if (t != child) {
          c = merge(c, vc(t));
          t.vc[t.id]++;
        }
      }
      child.vc = c;
    }
  }

  static void exit(Sim.Task t) {
  }

  static void join(Sim.Task t) {
    if (on && Sim.cur != null) {
      Sim.cur.vc = merge(vc(Sim.cur), vc(t));
    }
  }

  public static void acquire(Object o) {
    if (on && Sim.cur != null && o != null) {
      Sim.cur.vc = merge(vc(Sim.cur), clocks.get(o));
    }
  }

  public static void release(Object o) {
    if (on && Sim.cur != null && o != null) {
      Sim.Task t = Sim.cur;
      int[] c = clocks.get(o);
      clocks.put(o, merge(c == null ? null : c, vc(t).clone()));
      t.vc[t.id]++;
    }
  }

  /** the harness itself orders everything done so far before everything the calling thread does next */
  public static void syncAll() {
    if (on && Sim.cur != null) {
      int[] m = vc(Sim.cur);
      for (Sim.Task t : Sim.tasks) {
        m = merge(m, vc(t));
      }
      Sim.cur.vc = m;
    }
  }

  private static final Object GLOBAL = new Object();

  public static void global() {
    if (on) {
      acquire(GLOBAL);
      release(GLOBAL);
    }
  }

  /** both edges, for an operation on a thread-safe object that does not block */
  public static void sync(Object o) {
    if (on) {
      acquire(o);
      release(o);
    }
  }

  private static final ClassValue<Boolean> SAFE = new ClassValue<>() {
    @Override
    protected Boolean computeValue(Class<?> c) {
      for (Class<?> k = c; k != null; k = k.getSuperclass()) {
        if (k.getName().startsWith("java.util.concurrent.")) {
          return true;
        }
      }
      return false;
    }
  };

  public static void none(Object o) {
  }

  /** before a call on an uncopied JDK object */
  public static void pre(Object o) {
    if (on && o != null && SAFE.get(o.getClass())) {
      release(o);
    }
  }

  public static void post(Object o) {
    if (on && o != null && SAFE.get(o.getClass())) {
      acquire(o);
    }
  }

  private static Loc loc(Object o, String key) {
    IdentityHashMap<Object, Loc> m = locs.get(o);
    if (m == null) {
      m = new IdentityHashMap<>(4);
      locs.put(o, m);
    }
    Loc l = m.get(key);
    if (l == null) {
      l = new Loc();
      m.put(key, l);
    }
    return l;
  }

  /** key is an interned "Class.field" */
  public static void write(Object o, Object old, Object v, String key) {
    if (!on || Sim.cur == null || o == null) {
      return;
    }
    Loc l = loc(o, key);
    if (l.ws.isEmpty()) {
      l.ws.add(new W(old, -1, 0));
    }
    Sim.Task t = Sim.cur;
    l.ws.add(new W(v, t.id, vc(t)[t.id]));
  }

  // ---- java.util.concurrent.atomic: the plain and opaque accessors are as weak as a plain field

  private static Object value(Object a) {
    if (a instanceof AtomicBoolean) {
      return ((AtomicBoolean) a).get();
    }
    if (a instanceof AtomicInteger) {
      return ((AtomicInteger) a).get();
    }
    if (a instanceof AtomicLong) {
      return ((AtomicLong) a).get();
    }
    return ((AtomicReference<?>) a).get();
  }

  private static Loc atomic(Object a) {
    Loc l = loc(a, "atomic");
    if (l.ws.isEmpty()) {
      W w = new W(value(a), -1, 0);
      w.vol = true;
      l.ws.add(w);
    }
    return l;
  }

  /** before any write or read-modify-write */
  public static void atomicPre(Object a) {
    if (on && a != null && Sim.cur != null) {
      atomic(a);
      release(a);
    }
  }

  public static void atomicPrePlain(Object a) {
    if (on && a != null && Sim.cur != null) {
      atomic(a);
    }
  }

  private static void wrote(Object a, boolean vol) {
    Loc l = atomic(a);
    Object v = value(a);
    Sim.Task t = Sim.cur;
    W w = new W(v, t.id, vc(t)[t.id]);
    w.vol = vol;
    l.ws.add(w);
    read(a, v, "atomic", 0);
  }

  public static void atomicPost(Object a) {
    if (on && a != null && Sim.cur != null) {
      wrote(a, true);
      acquire(a);
    }
  }

  public static void atomicPostSet(Object a) {
    if (on && a != null && Sim.cur != null) {
      wrote(a, true);
    }
  }

  public static void atomicPostPlain(Object a) {
    if (on && a != null && Sim.cur != null) {
      wrote(a, false);
    }
  }

  private static Object get(Object a, Object v, int how) {
    if (!on || Sim.cur == null) {
      return v;
    }
    if (how == 2) {
      acquire(a);
    }
    return read(a, v, "atomic", how);
  }

  /** how: 0 plain, 1 opaque, 2 volatile or acquire */
  public static boolean getZ(AtomicBoolean a, int how) {
    boolean v = a.get();
    return on ? (Boolean) get(a, v, how) : v;
  }

  public static int getI(AtomicInteger a, int how) {
    int v = a.get();
    return on ? (Integer) get(a, v, how) : v;
  }

  public static long getJ(AtomicLong a, int how) {
    long v = a.get();
    return on ? (Long) get(a, v, how) : v;
  }

  public static Object getL(AtomicReference<?> a, int how) {
    Object v = a.get();
    return on ? get(a, v, how) : v;
  }

  public static Object read(Object o, Object actual, String key) {
    return read(o, actual, key, 0);
  }

  private static Object read(Object o, Object actual, String key, int how) {
    if (!on || Sim.cur == null || o == null || Sim.noYield > 0) {
      return actual;
    }
    IdentityHashMap<Object, Loc> m = locs.get(o);
    Loc l = m == null ? null : m.get(key);
    if (l == null || l.ws.size() < 2) {
      return actual;
    }
    Sim.Task t = Sim.cur;
    int[] c = vc(t);
    int n = l.ws.size();
    int min = t.id < l.lastRead.length ? l.lastRead[t.id] : 0;
    for (int i = n - 1; i > min; i--) {
      W w = l.ws.get(i);
      if (w.tid < 0 || at(c, w.tid) >= w.stamp || how == 2 && w.vol) {
        min = i;
        break;
      }
    }
    int back = 0;
    if (min < n - 1) {
      // hoisting compilers: a polling reader may keep its first value for ever
      back = hoist && how == 0 ? (Sim.choose(2, 0.97) == 0 ? 0 : n - 1 - min) : Sim.choose(n - min, pStale);
    }
    int ix = n - 1 - back;
    if (t.id >= l.lastRead.length) {
      l.lastRead = java.util.Arrays.copyOf(l.lastRead, t.id + 8);
    }
    l.lastRead[t.id] = ix;
    if (back > 0) {
      staleReads++;
    }
    return l.ws.get(ix).v;
  }

  public static void writeZ(Object o, boolean old, boolean v, String key) {
    if (on) {
      write(o, old, v, key);
    }
  }

  public static void writeI(Object o, int old, int v, String key) {
    if (on) {
      write(o, old, v, key);
    }
  }

  public static boolean readZ(Object o, boolean actual, String key) {
    return on ? (Boolean) read(o, actual, key) : actual;
  }

  public static int readI(Object o, int actual, String key) {
    return on ? (Integer) read(o, actual, key) : actual;
  }

  public static long readJ(Object o, long actual, String key) {
    return actual;
  }

  public static Object readL(Object o, Object actual, String key) {
    return on ? read(o, actual, key) : actual;
  }
}
