package dsim.h;

import dsim.rt.Sim;
import java.util.concurrent.Callable;
import java.util.concurrent.Executors;
import java.util.concurrent.ForkJoinPool;
import java.util.concurrent.LinkedBlockingQueue;
import java.util.concurrent.ThreadPoolExecutor;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicInteger;

/** Stands in for java.util.concurrent.ForkJoinPool where it is used as an executor. */
public class SimForkJoinPool extends ThreadPoolExecutor {

  public static final ForkJoinPool.ForkJoinWorkerThreadFactory defaultForkJoinWorkerThreadFactory = null;
  private static SimForkJoinPool common;
  private static int commonEpoch = -1;

  public SimForkJoinPool() {
    this(4);
  }

  public SimForkJoinPool(int parallelism) {
    this("ForkJoinPool-1-worker-", parallelism);
  }

  public SimForkJoinPool(int parallelism, ForkJoinPool.ForkJoinWorkerThreadFactory f,
      Thread.UncaughtExceptionHandler h, boolean async) {
    this(parallelism);
  }

  private SimForkJoinPool(String prefix, int n) {
    super(n, n, 0, TimeUnit.SECONDS, new LinkedBlockingQueue<>(), factory(prefix));
  }

  private static java.util.concurrent.ThreadFactory factory(String prefix) {
    AtomicInteger i = new AtomicInteger();
    return r -> {
      Thread t = new Thread(r, prefix + i.incrementAndGet());
      t.setDaemon(true);
      return t;
    };
  }

  public static SimForkJoinPool commonPool() {
    if (commonEpoch != Sim.epoch) {
      commonEpoch = Sim.epoch;
      common = new SimForkJoinPool("ForkJoinPool.commonPool-worker-", 3);
    }
    return common;
  }

  public static int getCommonPoolParallelism() {
    return 3;
  }

  @Override
  public <T> SimForkJoinTask<T> submit(Callable<T> c) {
    SimForkJoinTask<T> t = new SimForkJoinTask<>(c);
    execute(t);
    return t;
  }

  @Override
  public SimForkJoinTask<?> submit(Runnable r) {
    return submit(Executors.callable(r));
  }

  @Override
  public <T> SimForkJoinTask<T> submit(Runnable r, T v) {
    return submit(Executors.callable(r, v));
  }

  public int getParallelism() {
    return getCorePoolSize();
  }
}
