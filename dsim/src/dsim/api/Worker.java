package dsim.api;

/** One simulated world: implemented inside each simulation class loader. */
public interface Worker {

  /** Runs one simulated execution. Everything it does is a function of the spec and the code under test. */
  RunResult run(RunSpec spec);
}
