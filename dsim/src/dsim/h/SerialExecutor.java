package dsim.h;

import dsim.rt.Sim;
import java.util.ArrayDeque;
import java.util.Collections;
import java.util.List;
import java.util.concurrent.AbstractExecutorService;
import java.util.concurrent.TimeUnit;
import java.util.function.UnaryOperator;

/** Runs its tasks one at a time and in order, but not always on the same thread. */
final class SerialExecutor extends AbstractExecutorService {
  private final ArrayDeque<Runnable> q = new ArrayDeque<>();
  private final int n;
  private boolean started;
  private boolean busy;

  private final UnaryOperator<Runnable> wrap;

  SerialExecutor(int n, UnaryOperator<Runnable> wrap) {
    this.n = n;
    this.wrap = wrap;
  }

  @Override
  public void execute(Runnable r) {
    if (r == null) {
      throw new NullPointerException();
    }
    synchronized (this) {
      q.add(wrap.apply(r));
      if (!started) {
        started = true;
        for (int i = 0; i < n; i++) {
          Thread t = new Thread(this::loop, "serial-" + i);
          t.setDaemon(true);
          t.start();
        }
      }
      notifyAll();
    }
  }

  private void loop() {
    while (true) {
      Runnable r;
      synchronized (this) {
        while (busy || q.isEmpty()) {
          try {
            wait();
          } catch (InterruptedException e) {
            // keep serving
          }
        }
        busy = true;
        r = q.poll();
      }
      try {
        r.run();
      } catch (Sim.Abort e) {
        throw e;
      } catch (Throwable e) {
        // a pool thread survives
      } finally {
        synchronized (this) {
          busy = false;
          notifyAll();
        }
      }
      Sim.y();
    }
  }

  @Override
  public void shutdown() {
  }

  @Override
  public List<Runnable> shutdownNow() {
    return Collections.emptyList();
  }

  @Override
  public boolean isShutdown() {
    return false;
  }

  @Override
  public boolean isTerminated() {
    return false;
  }

  @Override
  public boolean awaitTermination(long t, TimeUnit u) {
    return false;
  }
}
