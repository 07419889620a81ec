package dsim.h;

import dsim.api.RunResult;
import dsim.api.RunResult.Violation;
import dsim.api.RunSpec;
import dsim.api.Worker;
import dsim.rt.Sim;
import dsim.rt.SimLogManager;
import dsim.rt.Weak;
import java.util.ArrayList;
import java.util.List;
import java.util.Map;

/** Runs one plan from a clean state to quiescence, then lets the oracles judge the recorded history. */
public final class WorldImpl implements Worker {

  @Override
  public RunResult run(RunSpec spec) {
    RunResult r = new RunResult();
    Hist h = new Hist();
    if (spec.trace) {
      h.trace = new ArrayList<>();
    }
    Map<String, Object> plan = spec.plan;
    Sim.reset(spec.seed, spec.switches, spec.choices, J.i(plan, "horizon", 300), J.b(plan, "fine"));
    if (plan.containsKey("maxSteps")) {
      Sim.limit(J.i(plan, "maxSteps", 60000));
    }
    Sim.hashBase(J.i(plan, "hash", 0));
    if (J.b(plan, "weak")) {
      Weak.enable(J.d(plan, "stale", 0.3), J.b(plan, "hoist"));
    }
    h.logWarn = 0;
    SimLogManager.sink = (logger, level, args) -> {
      if (level.equals("error") || level.equals("warn")) {
        h.logWarn++;
      }
    };
    Sim.deathHook = (t, e) -> {
      h.line("thread " + t + " died: " + e);
      h.probe("thread-death");
      if (t.client && r.harnessError == null) {
        r.harnessError = e;
      }
    };
    try {
      if (J.s(plan, "kind", "machine").equals("app")) {
        app(plan, h, r);
      } else {
        machines(plan, h, r);
      }
    } catch (Throwable e) {
      r.harnessError = e;
    }
    r.inconclusive = Sim.inconclusive;
    r.steps = Sim.step;
    r.simNanos = Sim.nanoTime();
    r.tasks = Sim.tasks.size();
    r.switches = Sim.recordedSwitches();
    r.choices = Sim.recordedChoices();
    r.scheduleDigest = Sim.schedDigest;
    r.historyDigest = h.digest;
    r.faults.putAll(h.faults);
    r.probes.putAll(h.probes);
    if (Weak.staleReads > 0) {
      r.faults.merge("stale-memory-read", Weak.staleReads, Integer::sum);
    }
    r.contextSwitches = Sim.switchCount();
    r.nontrivial = Sim.switchCount() > 3 && r.callbacks > 0;
    if (h.trace != null) {
      r.history = h.trace;
    }
    if (r.harnessError != null || r.inconclusive != null) {
      r.violations.clear();
    }
    return r;
  }

  private static boolean task(String name, Runnable body, RunResult r) {
    Throwable[] err = new Throwable[1];
    Sim.spawn(name, () -> {
      try {
        body.run();
      } catch (Sim.Abort e) {
        throw e;
      } catch (Throwable e) {
        err[0] = e;
      }
    });
    int q = Sim.run();
    if (err[0] != null) {
      throw new IllegalStateException(name + " failed", err[0]);
    }
    return q == Sim.QUIESCENT;
  }

  private static void noProgress(RunResult r, Hist h, String tags) {
    if (Sim.inconclusive == null) {
      r.violations.add(new Violation(tags, "no-quiescence", "the system was still busy after " + Sim.step
          + " steps of which the last 45000 were scheduled fairly: " + Sim.abortReason));
    }
  }

  private static final String MACHINE_TAGS = "C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C16,C17,C18,C19,C20";

  private void machines(Map<String, Object> plan, Hist h, RunResult r) {
    MachineWorld w = new MachineWorld(plan, h);
    List<Violation> vs = r.violations;
    task("setup", w::build, r);
    boolean ok = phase(plan, "threads", w, h, r);
    r.callbacks += h.cbs.size();
    if (!ok && "crash".equals(Sim.abortReason)) {
      resume(plan, w, h, r);
      return;
    }
    if (!ok) {
      noProgress(r, h, MACHINE_TAGS);
      return;
    }
    new MachineOracle(w, vs, true).check();
  }

  private boolean phase(Map<String, Object> plan, String field, MachineWorld w, Hist h, RunResult r) {
    boolean ok = true;
    if (!J.list(plan, "setup").isEmpty()) {
      ok = task("main", () -> {
        for (Object o : J.list(plan, "setup")) {
          w.op(J.map(o), null);
        }
      }, r);
    }
    if (ok) {
      w.spawnClients(field);
      ok = Sim.run() == Sim.QUIESCENT;
    }
    if (!ok) {
      return false;
    }
    h.t++;
    w.quietAt = h.t;
    h.line("QUIET");
    Sim.draining = true;
    if (!w.hung) {
      // a first look while idle: the queue must be empty without any help
      for (MachineWorld.M m : w.ms) {
        if (!task("idle-size", () -> m.idleSize = m.sm.getEventQueueSize(), r)) {
          return false;
        }
      }
      int late = 41000;
      for (int i = 0; i < w.ms.size(); i++) {
        int m = i;
        for (String ev : w.tainted(m)) {
          int id = late++;
          if (!task("late", () -> w.fireLate(m, id, ev), r)) {
            return false;
          }
          if (w.hung) {
            return task("observer", w::observeFinal, r);
          }
        }
      }
      for (int i = 0; i < w.ms.size(); i++) {
        int m = i;
        if (!J.b(plan, "noProbe") && !task("prober", () -> {
          if (w.ms.get(m).sm.isStarted()) {
            w.fireProbe(m, 40000 + m);
          }
        }, r)) {
          return false;
        }
      }
    }
    return task("observer", w::observeFinal, r);
  }

  // ---- crash and resume

  private void resume(Map<String, Object> plan, MachineWorld old, Hist oldH, RunResult r) {
    // only what the listener, the handlers and the client's own log recorded survives
    Resume x = new Resume(old);
    if (x.finished) {
      return;
    }
    Sim.restartProcess();
    Hist h = new Hist();
    h.trace = oldH.trace;
    h.digest = oldH.digest;
    h.faults.putAll(oldH.faults);
    h.probes.putAll(oldH.probes);
    h.line("RESTART in " + (x.state == null ? "initial state" : x.state) + ", re-firing " + x.rest);
    h.probe(x.state == null ? "resumed-from-scratch" : "resumed-in-recorded-state");
    Map<String, Object> p2 = x.plan(plan);
    MachineWorld w = new MachineWorld(p2, h);
    task("setup", w::build, r);
    boolean ok = phase(p2, "threads", w, h, r);
    r.callbacks += h.cbs.size();
    oldH.digest = h.digest;
    oldH.faults.clear();
    oldH.faults.putAll(h.faults);
    oldH.probes.clear();
    oldH.probes.putAll(h.probes);
    if (!ok) {
      noProgress(r, h, "C16,C01");
      return;
    }
    List<Violation> vs = new ArrayList<>();
    new MachineOracle(w, vs, true).check();
    for (Violation v : vs) {
      // everything that goes wrong in the resumed run breaks the resumption guarantee as well
      List<String> ps = new ArrayList<>(List.of(v.props));
      if (!ps.contains("C16")) {
        ps.add("C16");
      }
      v.props = ps.toArray(new String[0]);
      r.violations.add(v);
    }
    MachineWorld.M m = w.ms.get(0);
    if (vs.isEmpty() && !x.expected.equals(m.finalState)) {
      r.violations.add(new Violation("C16", "resumed-elsewhere", "resumed in " + x.state + " and re-fired " + x.rest
          + ": ended up in " + m.finalState + " but an uninterrupted run ends up in " + x.expected));
    }
  }

  // ---- apps

  private void app(Map<String, Object> plan, Hist h, RunResult r) {
    AppWorld w = new AppWorld(plan, h);
    task("setup", w::build, r);
    w.spawnClients();
    boolean ok = Sim.run() == Sim.QUIESCENT;
    r.callbacks += h.cbs.size();
    if (!ok) {
      noProgress(r, h, "C13,C14,C15,C21");
      return;
    }
    Sim.draining = true;
    ok = task("observer", w::observeFinal, r);
    if (!ok) {
      noProgress(r, h, "C13,C14,C15,C21");
      return;
    }
    new AppOracle(w, r.violations).check();
  }
}
