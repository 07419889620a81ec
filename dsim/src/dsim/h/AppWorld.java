package dsim.h;

import com.webotech.statemachine.LoggingStateMachineListener;
import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.service.AbstractAppContext;
import com.webotech.statemachine.service.AbstractAppService;
import com.webotech.statemachine.service.api.Subsystem;
import dsim.h.Hist.Cb;
import dsim.h.Hist.Op;
import dsim.rt.Sim;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;

/** Interprets an app plan: a real app service with recording subsystems, driven by simulated threads. */
public final class AppWorld {

  public static final class Ctx extends AbstractAppContext<Ctx> {
    Ctx(String n) {
      super(n);
    }

    Ctx(String n, String[] args) {
      super(n, args);
    }
  }

  public static final class App extends AbstractAppService<Ctx> {
    App(Ctx c, boolean exit) {
      super(c, exit);
    }

    App(Ctx c) {
      super(c);
    }
  }

  public final Map<String, Object> plan;
  public final Hist h;
  public App app;
  public Ctx ctx;
  /** a second app in the same process, which must not disturb the judged one */
  private App other;
  private Ctx otherCtx;
  public boolean exit;
  public int n;
  public String finalState;
  public Sim.Task mainTask;
  private final Map<String, List<Map<String, Object>>> acts = new HashMap<>();
  private final Map<String, Integer> counts = new HashMap<>();
  private final Map<Integer, Sim.Task> byIx = new HashMap<>();
  private int seq;

  AppWorld(Map<String, Object> plan, Hist h) {
    this.plan = plan;
    this.h = h;
    for (Object o : J.list(plan, "acts")) {
      Map<String, Object> a = J.map(o);
      acts.computeIfAbsent(J.s(a, "at", "") + ":" + J.i(a, "s", -1), k -> new ArrayList<>()).add(a);
    }
  }

  void build() {
    exit = J.b(plan, "exitMode");
    n = J.i(plan, "subs", 1);
    ctx = J.b(plan, "args") ? new Ctx("app", new String[]{"a", "b"}) : new Ctx("app");
    List<Subsystem<Ctx>> subs = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      subs.add(J.b(plan, "equalSubs") ? new EqualSub(i) : new Sub(i));
    }
    switch (J.i(plan, "subsList", 0)) {
      case 1:
        subs = List.copyOf(subs);
        break;
      case 2:
        subs = new java.util.LinkedList<>(subs);
        break;
      case 3:
        subs = new java.util.concurrent.CopyOnWriteArrayList<>(subs);
        break;
      default:
    }
    if (n > 0 || !J.b(plan, "noSubs")) {
      ctx.withSubsystems(subs);
    }
    String tn = J.s(plan, "threadName", null);
    if (tn != null) {
      ctx.withAppThreadName(tn);
    }
    app = J.b(plan, "defaultCtor") && exit ? new App(ctx) : new App(ctx, exit);
    StateMachineListener<Ctx, Void> rec = new StateMachineListener<Ctx, Void>() {
      @Override
      public void onStateChangeBegin(State<Ctx, Void> from, StateEvent<Void> e, State<Ctx, Void> to) {
        note("BEGIN", from, e, to);
      }

      @Override
      public void onStateChangeEnd(State<Ctx, Void> from, StateEvent<Void> e, State<Ctx, Void> to) {
        note("END", from, e, to);
      }
    };
    if (J.b(plan, "fan")) {
      MultiConsumerStateMachineListener<Ctx, Void> multi = new MultiConsumerStateMachineListener<>();
      multi.add(new LoggingStateMachineListener<>("app"));
      multi.add(rec);
      app.setStateMachineListener(multi);
    } else {
      app.setStateMachineListener(rec);
    }
    if (plan.containsKey("other")) {
      otherCtx = new Ctx(J.b(plan, "sameName") ? "app" : "other");
      otherCtx.withSubsystems(List.of(new Subsystem<Ctx>() {
        @Override
        public void start(Ctx c) {
          Sim.y();
          if (J.b(plan, "otherFails")) {
            throw new MachineWorld.InjectedException("other");
          }
        }

        @Override
        public void stop(Ctx c) {
          Sim.y();
        }
      }));
      other = new App(otherCtx, J.b(plan, "otherExit"));
    }
  }

  private void note(String type, State<?, ?> from, StateEvent<?> e, State<?, ?> to) {
    Cb c = new Cb();
    c.type = type;
    c.from = from.getName();
    c.to = to.getName();
    c.ev = e.getName();
    body(c, type.toLowerCase() + "-" + c.to, -1);
  }

  /** equal to every other one */
  private final class EqualSub extends Sub {
    EqualSub(int i) {
      super(i);
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof EqualSub;
    }

    @Override
    public int hashCode() {
      return 7;
    }
  }

  private class Sub implements Subsystem<Ctx> {
    final int i;

    Sub(int i) {
      this.i = i;
    }

    @Override
    public void start(Ctx c) {
      call("SUBSTART", c);
    }

    @Override
    public void stop(Ctx c) {
      call("SUBSTOP", c);
    }

    private void call(String type, Ctx c) {
      Cb b = new Cb();
      b.type = type;
      b.s = i;
      b.ctxBad = c != ctx;
      State<Ctx, Void> s = app.getLifecycleState();
      b.cur = s == null ? null : s.getName();
      body(b, type.toLowerCase(), i);
    }
  }

  private void body(Cb c, String at, int s) {
    h.begin(c);
    Op hidden = h.swapOpen(null);
    Throwable th = null;
    try {
      Sim.y();
      String key = at + ":" + s;
      List<Map<String, Object>> as = acts.get(key);
      if (as != null && !h.runaway()) {
        int k = counts.merge(key, 1, Integer::sum);
        for (Map<String, Object> a : as) {
          int want = J.i(a, "n", 0);
          if (want == 0 || want == k) {
            for (Object o : J.list(a, "do")) {
              op(J.map(o), c);
            }
          }
        }
      }
    } catch (Sim.Abort e) {
      throw e;
    } catch (Throwable e) {
      th = e;
      throw e;
    } finally {
      h.swapOpen(hidden);
      h.end(c, th);
    }
  }

  void spawnClients() {
    for (Object o : J.list(plan, "other")) {
      @SuppressWarnings("unchecked")
      List<Object> ops = (List<Object>) o;
      Sim.spawn("other", () -> {
        for (Object x : ops) {
          op(J.map(x), null);
        }
      });
    }
    int ix = 0;
    for (Object o : J.list(plan, "threads")) {
      @SuppressWarnings("unchecked")
      List<Object> ops = (List<Object>) o;
      Sim.Task t = Sim.spawn(ix == 0 ? "main" : "client" + ix, () -> {
        for (Object x : ops) {
          op(J.map(x), null);
        }
      });
      t.client = true;
      byIx.put(ix, t);
      if (ix == 0) {
        mainTask = t;
      }
      ix++;
    }
  }

  private String state() {
    State<Ctx, Void> s = app.getLifecycleState();
    return s == null ? "null" : s.getName();
  }

  @SuppressWarnings("unchecked")
  private static <E extends Throwable> void sneaky(Throwable t) throws E {
    throw (E) t;
  }

  private void op(Map<String, Object> o, Cb in) {
    String k = J.s(o, "op", "");
    switch (k) {
      case "throw":
        h.fault("exception-in-" + in.type);
        throw MachineWorld.unchecked(J.i(o, "x", 0));
      case "throwChecked":
        h.fault("exception-in-" + in.type);
        AppWorld.<RuntimeException>sneaky(MachineWorld.checked(J.i(o, "x", 0)));
        return;
      case "slow":
        h.probe("slow-callback");
        for (int i = 0; i < J.i(o, "k", 5); i++) {
          Sim.y();
        }
        return;
      case "sleep":
        try {
          if (J.i(o, "us", 100) >= 1000000) {
            h.probe("very-slow");
          }
          Sim.longSleep(J.i(o, "us", 100) * 1000L);
        } catch (InterruptedException e) {
          h.line("interrupted in sleep");
          Thread.currentThread().interrupt();
        }
        return;
      case "intr": {
        Sim.Task t = byIx.get(J.i(o, "c", 0));
        Op p = h.call("intr", 0, J.i(o, "c", 0), null);
        if (t != null) {
          h.fault("thread-interrupt");
          t.token.interrupt();
        }
        h.ret(p, null, null);
        return;
      }
      case "selfIntr":
        h.fault("worker-interrupt");
        Thread.currentThread().interrupt();
        return;
      case "other": {
        String what = J.s(o, "do", "start");
        try {
          switch (what) {
            case "start":
              other.start();
              break;
            case "stop":
              other.stop();
              break;
            case "error":
              other.error(new RuntimeException("other"));
              break;
            default:
              for (int i = 0; i < 25; i++) {
                State<Ctx, Void> s = other.getLifecycleState();
                if (s != null && what.equals(s.getName())) {
                  break;
                }
                Sim.sleepNanos(J.i(o, "us", 50) * 1000L);
              }
          }
        } catch (Sim.Abort e) {
          throw e;
        } catch (IllegalStateException | InterruptedException e) {
          // refused: not judged
        }
        h.probe("other-app-" + what);
        return;
      }
      case "await": {
        // a bounded wait of a client for a lifecycle state
        String want = J.s(o, "want", "STARTED");
        for (int i = 0; i < J.i(o, "max", 25); i++) {
          if (want.equals(state())) {
            h.line("saw " + want);
            return;
          }
          try {
            Sim.sleepNanos(J.i(o, "us", 50) * 1000L);
          } catch (InterruptedException e) {
            Thread.currentThread().interrupt();
            return;
          }
        }
        h.line("gave up waiting for " + want);
        return;
      }
      default:
    }
    Op p = h.call(k, 0, -1, k.equals("poll") ? "state" : null);
    p.nested = in != null;
    Throwable th = null;
    Object res = null;
    try {
      switch (k) {
        case "appStart":
          app.start();
          if (Sim.isInterrupted(Sim.cur.token)) {
            res = "interrupted";
          }
          break;
        case "appStop":
          app.stop();
          break;
        case "appError":
          int x = J.i(o, "x", 0);
          app.error(x == 0 ? new RuntimeException("reported") : x < 20 ? MachineWorld.unchecked(x) : MachineWorld.checked(x - 20));
          break;
        case "state":
          res = state();
          break;
        case "poll":
          int seen = h.t;
          for (int i = 0, q = 0; q < 60 && i < 2000; i++, q++) {
            if (h.t != seen) {
              seen = h.t;
              q = 0;
            }
            res = state();
            try {
              Sim.sleepNanos(1000000);
            } catch (InterruptedException e) {
              // keep polling
            }
          }
          break;
        default:
          throw new IllegalArgumentException("unknown op " + k);
      }
    } catch (Sim.Abort x) {
      throw x;
    } catch (Throwable x) {
      th = x;
    } finally {
      if (!Sim.aborted) {
        h.ret(p, res, th);
      }
    }
  }

  void observeFinal() {
    finalState = state();
    h.line("FINAL state=" + finalState);
  }
}
