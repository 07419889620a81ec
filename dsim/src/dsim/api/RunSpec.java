package dsim.api;

import java.util.Map;

/** What determines one run: plan (workload and faults) plus either a schedule seed or a recorded schedule. */
public final class RunSpec {
  public Map<String, Object> plan;
  public long seed;
  /** null: search with seed; otherwise replay of [step, task, step, task, ...] */
  public int[] switches;
  public int[] choices;
  public boolean trace;
}
