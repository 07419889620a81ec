package dsim.rt;

import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Proxy;
import java.util.ArrayList;
import java.util.Collection;
import java.util.List;
import java.util.function.Consumer;
import java.util.stream.BaseStream;
import java.util.stream.Stream;

/** Parallel streams: forEach runs its action on simulated threads, everything else is evaluated sequentially. */
public final class SimStreams {

  private SimStreams() {
  }

  public static Stream<?> parallelStream(Collection<?> c) {
    return (Stream<?>) wrap(c.stream());
  }

  public static BaseStream<?, ?> parallel(BaseStream<?, ?> s) {
    return s instanceof Stream && !Proxy.isProxyClass(s.getClass()) ? wrap((Stream<?>) s) : s;
  }

  private static BaseStream<?, ?> wrap(Stream<?> s) {
    return (Stream<?>) Proxy.newProxyInstance(Stream.class.getClassLoader(), new Class<?>[]{Stream.class}, (p, m, a) -> {
      switch (m.getName()) {
        case "forEach":
          forEach(s.toArray(), (Consumer<Object>) cast(a[0]));
          return null;
        case "sequential":
          return s;
        case "parallel":
          return p;
        case "isParallel":
          return true;
        case "hashCode":
          return System.identityHashCode(s);
        case "equals":
          return p == a[0];
        default:
      }
      try {
        Object r = m.invoke(s, a);
        return r instanceof Stream ? wrap((Stream<?>) r) : r;
      } catch (InvocationTargetException e) {
        throw e.getCause();
      }
    });
  }

  @SuppressWarnings("unchecked")
  private static <T> T cast(Object o) {
    return (T) o;
  }

  private static void forEach(Object[] xs, Consumer<Object> f) {
    if (Sim.cur == null || Sim.noYield > 0 || xs.length < 2) {
      for (Object x : xs) {
        f.accept(x);
      }
      return;
    }
    List<Throwable> failures = new ArrayList<>();
    List<Thread> ts = new ArrayList<>();
    // as the common pool does: the calling thread takes part
    int mine = xs.length / 2;
    for (int i = 0; i < xs.length; i++) {
      Object x = xs[i];
      if (i == mine) {
        continue;
      }
      Thread t = new Thread(() -> one(f, x, failures), "ForkJoinPool.commonPool-worker-" + (i + 1));
      t.setDaemon(true);
      Sim.start(t);
      ts.add(t);
    }
    one(f, xs[mine], failures);
    for (Thread t : ts) {
      boolean done = false;
      while (!done) {
        try {
          Sim.join(t);
          done = true;
        } catch (InterruptedException e) {
          // joining a fork-join task is not interruptible
        }
      }
    }
    if (!failures.isEmpty()) {
      SimStreams.<RuntimeException>sneaky(failures.get(0));
    }
  }

  private static void one(Consumer<Object> f, Object x, List<Throwable> failures) {
    try {
      f.accept(x);
    } catch (Sim.Abort e) {
      throw e;
    } catch (Throwable e) {
      failures.add(e);
    }
  }

  @SuppressWarnings("unchecked")
  private static <E extends Throwable> void sneaky(Throwable t) throws E {
    throw (E) t;
  }
}
