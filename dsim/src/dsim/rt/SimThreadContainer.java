package dsim.rt;

/** stands in for jdk.internal.vm.SharedThreadContainer */
public final class SimThreadContainer implements AutoCloseable {
  public static SimThreadContainer create(String n) {
    return new SimThreadContainer();
  }

  public void onStart(Thread t) {
  }

  public void onExit(Thread t) {
  }

  public void start(Thread t) {
    Sim.start(t);
  }

  @Override
  public void close() {
  }
}
