package dsim.api;

import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

public final class RunResult {
  public static final class Violation {
    public String[] props;
    public String kind;
    public String detail;

    public Violation(String props, String kind, String detail) {
      this.props = props.split(",");
      this.kind = kind;
      this.detail = detail;
    }

    public boolean about(String p) {
      for (String q : props) {
        if (q.equals(p)) {
          return true;
        }
      }
      return false;
    }
  }

  public final List<Violation> violations = new ArrayList<>();
  public String inconclusive;
  public long steps;
  public long simNanos;
  public int tasks;
  public int callbacks;
  public int contextSwitches;
  public int[] switches;
  public int[] choices;
  public long historyDigest;
  public long scheduleDigest;
  public boolean nontrivial;
  public final Map<String, Integer> faults = new LinkedHashMap<>();
  public final Map<String, Integer> probes = new LinkedHashMap<>();
  public List<String> history = new ArrayList<>();
  public Throwable harnessError;
}
