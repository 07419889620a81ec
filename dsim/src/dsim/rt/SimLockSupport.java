package dsim.rt;

/** stands in for java.util.concurrent.locks.LockSupport and Unsafe.park */
public final class SimLockSupport {
  private static long dl(long nanos) {
    long d = Sim.nanoTime() + nanos;
    return d < 0 ? Long.MAX_VALUE : d;
  }

  public static void park() {
    Sim.park(null, Long.MAX_VALUE);
  }

  public static void park(Object b) {
    Sim.park(b, Long.MAX_VALUE);
  }

  public static void parkNanos(long n) {
    if (n > 0) {
      Sim.park(null, dl(n));
    }
  }

  public static void parkNanos(Object b, long n) {
    if (n > 0) {
      Sim.park(b, dl(n));
    }
  }

  public static void parkUntil(long ms) {
    Sim.park(null, dl((ms - Sim.currentTimeMillis()) * 1000000));
  }

  public static void parkUntil(Object b, long ms) {
    Sim.park(b, dl((ms - Sim.currentTimeMillis()) * 1000000));
  }

  public static void unpark(Thread t) {
    Sim.unpark(t);
  }

  public static Object getBlocker(Thread t) {
    return null;
  }

  public static void setCurrentBlocker(Object b) {
  }

  static long getThreadId(Thread t) {
    return Sim.threadId(t);
  }

  /** jdk.internal.misc.Unsafe.park */
  public static void unsafePark(Object unsafe, boolean abs, long t) {
    if (!abs && t == 0) {
      Sim.park(null, Long.MAX_VALUE);
    } else if (abs) {
      parkUntil(t);
    } else {
      parkNanos(t);
    }
  }

  public static void unsafeUnpark(Object unsafe, Object t) {
    Sim.unpark((Thread) t);
  }
}
