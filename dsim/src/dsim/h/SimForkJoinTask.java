package dsim.h;

import java.util.concurrent.Callable;
import java.util.concurrent.CompletionException;
import java.util.concurrent.ExecutionException;
import java.util.concurrent.FutureTask;

/** Stands in for java.util.concurrent.ForkJoinTask where it is the result of a submission. */
public class SimForkJoinTask<V> extends FutureTask<V> {

  SimForkJoinTask(Callable<V> c) {
    super(c);
  }

  public V join() {
    try {
      return get();
    } catch (InterruptedException | ExecutionException e) {
      throw new CompletionException(e);
    }
  }
}
