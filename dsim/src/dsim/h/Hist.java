package dsim.h;

import dsim.rt.Sim;
import java.util.ArrayList;
import java.util.IdentityHashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** The recorded history of one run. Recording draws no randomness and never yields. */
public final class Hist {

  /** an operation of a simulated client (or of an action) with its call and return instants */
  public static final class Op {
    public String kind;
    public int m;
    public int f = -1;
    public String arg = "";
    public Sim.Task task;
    public int t0;
    public int t1 = Integer.MAX_VALUE;
    public Throwable thrown;
    public Object result;
    public boolean nested;
    public Op outer;

    public boolean returned() {
      return t1 != Integer.MAX_VALUE;
    }
  }

  /** a call-back from the code under test */
  public static final class Cb {
    public String type;
    public int owner;
    public int arg = -9;
    public int f = -1;
    public String ev;
    public String from;
    public String to;
    public int s = -1;
    public int i = -1;
    public String cur;
    public Sim.Task task;
    public Thread threadArg;
    public Throwable exArg;
    public int t0;
    public int t1 = Integer.MAX_VALUE;
    public Throwable thrown;
    public Op inside;
    public boolean payloadNull;
    public int listener = -1;
    public boolean ctxBad;
    public Object event;

    public boolean is(String... ts) {
      for (String t : ts) {
        if (t.equals(type)) {
          return true;
        }
      }
      return false;
    }

    @Override
    public String toString() {
      StringBuilder b = new StringBuilder(type);
      b.append(" m").append(owner);
      if (arg != -9 && arg != owner) {
        b.append(" (machine argument m").append(arg).append(')');
      }
      b.append(" ev=").append(ev).append(" f=").append(f);
      if (from != null) {
        b.append(' ').append(from).append("->").append(to);
      }
      if (s >= 0) {
        b.append(" s").append(s).append('#').append(i);
      }
      if (listener >= 0) {
        b.append(" L").append(listener);
      }
      if (exArg != null) {
        b.append(" ex=").append(ex(exArg));
      }
      if (cur != null) {
        b.append(" cur=").append(cur);
      }
      return b.toString();
    }
  }

  /** text of an exception without the identity hashes and generated class names that differ between processes */
  static String ex(Throwable t) {
    String s = String.valueOf(t);
    return s.indexOf('@') < 0 && s.indexOf("$Lambda") < 0 ? s
        : s.replaceAll("\\$\\$Lambda[^@\\s]*", "Lambda").replaceAll("@[0-9a-f]+", "@");
  }

  public int t;
  public int logWarn;
  public long digest = 17;
  public final List<Op> ops = new ArrayList<>();
  public final List<Cb> cbs = new ArrayList<>();
  public final Map<String, Integer> faults = new LinkedHashMap<>();
  public final Map<String, Integer> probes = new LinkedHashMap<>();
  public List<String> trace;
  private final IdentityHashMap<Sim.Task, Op> open = new IdentityHashMap<>();

  public void mix(String s) {
    Sim.progress++;
    for (int k = 0; k < s.length(); k++) {
      digest = digest * 1000003 + s.charAt(k);
    }
    digest = digest * 31 + 5;
  }

  private static String who() {
    return Sim.cur == null ? "-" : Sim.cur.name;
  }

  public void line(String s) {
    mix(who());
    mix(s);
    if (trace != null) {
      trace.add(String.format("t=%d step=%d sim=%dus [%s] %s", t, Sim.step, Sim.nanoTime() / 1000, who(), s));
    }
  }

  public void fault(String k) {
    faults.merge(k, 1, Integer::sum);
    line("FAULT " + k);
  }

  public void probe(String k) {
    probes.merge(k, 1, Integer::sum);
  }

  public Op call(String kind, int m, int f, String arg) {
    Op o = new Op();
    o.kind = kind;
    o.m = m;
    o.f = f;
    o.arg = arg == null ? "" : arg;
    o.task = Sim.cur;
    o.outer = open.get(Sim.cur);
    o.t0 = ++t;
    ops.add(o);
    open.put(Sim.cur, o);
    line("CALL " + kind + " m" + m + (f >= 0 ? " f=" + f : "") + (o.arg.isEmpty() ? "" : " " + o.arg));
    return o;
  }

  public void ret(Op o, Object result, Throwable thrown) {
    o.t1 = ++t;
    o.result = result;
    o.thrown = thrown;
    if (o.outer == null) {
      open.remove(o.task);
    } else {
      open.put(o.task, o.outer);
    }
    line("RET " + o.kind + " m" + o.m + (o.f >= 0 ? " f=" + o.f : "") + (result == null ? "" : " = " + result)
        + (thrown == null ? "" : " threw " + ex(thrown)));
  }

  public Op openOp() {
    return open.get(Sim.cur);
  }

  /** hides the operation a call-back is nested in while the call-back's own operations run */
  public Op swapOpen(Op o) {
    Op p = open.get(Sim.cur);
    if (o == null) {
      open.remove(Sim.cur);
    } else {
      open.put(Sim.cur, o);
    }
    return p;
  }

  private final IdentityHashMap<Sim.Task, Integer> depth = new IdentityHashMap<>();

  /** call-backs inside call-backs, without end: what they do is not done any more, so that the run comes to its end */
  public boolean runaway() {
    return depth.getOrDefault(Sim.cur, 0) > 40;
  }

  public void begin(Cb c) {
    c.task = Sim.cur;
    c.inside = open.get(Sim.cur);
    depth.merge(Sim.cur, 1, Integer::sum);
    c.t0 = ++t;
    cbs.add(c);
    line(c.toString());
  }

  public void end(Cb c, Throwable thrown) {
    c.t1 = ++t;
    c.thrown = thrown;
    depth.merge(c.task, -1, Integer::sum);
    line("/" + c.type + " m" + c.owner + " f=" + c.f + (thrown == null ? "" : " throws " + ex(thrown)));
  }
}
