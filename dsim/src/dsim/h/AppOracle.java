package dsim.h;

import dsim.api.RunResult.Violation;
import dsim.h.Hist.Cb;
import dsim.h.Hist.Op;
import dsim.rt.Sim;
import dsim.rt.Weak;
import java.util.ArrayList;
import java.util.List;
import java.util.Set;

/** Judges the recorded history of one app run. */
final class AppOracle {
  private static final int INF = Integer.MAX_VALUE;
  private static final Set<String> TABLE = Set.of("_UNINITIALISED_ _immediate_ UNINITIALISED",
      "UNINITIALISED start STARTING", "STARTING complete STARTED", "STARTING error STOPPED", "STARTED stop STOPPING",
      "STARTED error STOPPED", "STOPPING complete STOPPED", "STOPPING error STOPPED", "STOPPED start STARTING",
      "STOPPED stop _END_");

  private final AppWorld w;
  private final Hist h;
  private final List<Violation> out;
  private final boolean weak = Weak.on;

  /** one lifecycle transition: the state is definitely the old one before b0 and definitely the new one after e */
  private static final class Tr {
    Cb begin;
    Cb end;
    String from;
    String ev;
    String to;
    int b;
    int e = INF;
    final List<Cb> subs = new ArrayList<>();
  }

  private final List<Tr> trs = new ArrayList<>();

  AppOracle(AppWorld w, List<Violation> out) {
    this.w = w;
    this.h = w.h;
    this.out = out;
  }

  private void v(String props, String kind, String detail) {
    out.add(new Violation(props + (weak ? ",C19" : ""), kind, detail));
  }

  private List<Op> ops(String kind) {
    List<Op> l = new ArrayList<>();
    for (Op o : h.ops) {
      if (o.kind.equals(kind)) {
        l.add(o);
      }
    }
    return l;
  }

  /** the set of states the app can have been in at some instant of [a,b] contains s */
  private boolean possible(String s, int a, int b) {
    if ("null".equals(s)) {
      return trs.isEmpty() || trs.get(0).b >= a || firstStart() >= a;
    }
    for (int i = 0; i < trs.size(); i++) {
      Tr t = trs.get(i);
      if (t.to.equals(s)) {
        int from = t.to.equals("UNINITIALISED") ? Math.min(t.b, firstStart()) : t.b;
        int until = i + 1 < trs.size() ? trs.get(i + 1).e : INF;
        if (from <= b && until >= a) {
          return true;
        }
      }
    }
    return "UNINITIALISED".equals(s) && firstStart() <= b && trs.isEmpty();
  }

  private int firstStart() {
    int t = INF;
    for (Op o : ops("appStart")) {
      t = Math.min(t, o.t0);
    }
    return t;
  }

  /** adds C21 where nothing but refused calls can have interfered with the life of the app */
  private String orRefused(String tags) {
    boolean refused = false;
    for (Op o : h.ops) {
      if (o.kind.equals("appStart") || o.kind.equals("appStop")) {
        if (o.thrown instanceof IllegalStateException) {
          refused = true;
        } else if (o != main()) {
          return tags;
        }
      } else if (o.kind.equals("appError") || o.kind.equals("intr")) {
        return tags;
      }
    }
    return refused && h.faults.isEmpty() && !tags.contains("C21") ? tags + ",C21" : tags;
  }

  private boolean onlyPossible(Set<String> allowed, int a, int b) {
    for (String s : new String[]{"null", "UNINITIALISED", "STARTING", "STARTED", "STOPPING", "STOPPED", "_END_"}) {
      if (!allowed.contains(s) && possible(s, a, b)) {
        return false;
      }
    }
    return true;
  }

  void check() {
    for (Cb c : h.cbs) {
      if (c.ctxBad) {
        v("C13", "wrong-context", c + " received another app context");
      }
    }
    for (Cb c : h.cbs) {
      if (c.is("SUBSTART", "SUBSTOP") && c.inside != null && c.inside.kind.startsWith("app")) {
        boolean refused = c.inside.thrown != null;
        v(refused ? "C21" : "C13,C20", "subsystem-on-caller", c + " ran inside the " + (refused ? "refused " : "") + "call "
            + c.inside.kind + " of t=" + c.inside.t0);
      }
    }
    if (!transitions()) {
      return;
    }
    if (!subsystems()) {
      return;
    }
    finalState();
    calls();
    reactions();
    mainCall();
    reads();
  }

  private boolean transitions() {
    Tr cur = null;
    Cb prevSub = null;
    for (Cb c : h.cbs) {
      if (c.is("BEGIN")) {
        if (cur != null) {
          v("C13,C15", "overlapping-transitions", c + " while " + cur.begin + " had not ended");
          return false;
        }
        cur = new Tr();
        cur.begin = c;
        cur.from = c.from;
        cur.ev = c.ev;
        cur.to = c.to;
        cur.b = c.t0;
        trs.add(cur);
        if (!TABLE.contains(c.from + " " + c.ev + " " + c.to)) {
          v("C13,C15,C21", "unknown-transition", c + " is not in the lifecycle table");
          return false;
        }
        Tr p = trs.size() > 1 ? trs.get(trs.size() - 2) : null;
        if (p == null ? !c.from.equals("_UNINITIALISED_") : !p.to.equals(c.from)) {
          v("C13,C15", "broken-lifecycle", c + " follows " + (p == null ? "nothing" : p.end));
          return false;
        }
      } else if (c.is("END")) {
        if (cur == null || !cur.to.equals(c.to) || !cur.from.equals(c.from)) {
          v("C13,C15", "broken-lifecycle", c + " without its beginning");
          return false;
        }
        cur.end = c;
        cur.e = c.t1;
        cur = null;
      } else if (c.is("SUBSTART", "SUBSTOP")) {
        if (prevSub != null && prevSub.t1 > c.t0) {
          v("C13", "subsystems-overlap", c + " while " + prevSub + " was still running");
          return false;
        }
        prevSub = c;
        String want = c.is("SUBSTART") ? "STARTING" : "STOPPING";
        if (cur == null || !cur.to.equals(want)) {
          v("C13,C15", "subsystem-outside-state", c + " outside the entry of " + want + " (in " + (cur == null ? "no transition"
              : cur.to) + ")");
          return false;
        }
        if (!want.equals(c.cur) && !weak) {
          v("C13", "reported-state", c + ": reported state is " + c.cur);
          return false;
        }
        cur.subs.add(c);
      }
    }
    return true;
  }

  private boolean subsystems() {
    for (int i = 0; i < trs.size(); i++) {
      Tr t = trs.get(i);
      boolean starting = t.to.equals("STARTING");
      boolean stopping = t.to.equals("STOPPING");
      if (!starting && !stopping) {
        continue;
      }
      int next = starting ? 0 : w.n - 1;
      Cb failed = null;
      for (Cb c : t.subs) {
        if (failed != null && starting) {
          v("C15,C13", "started-after-failure", c + " although " + failed + " had failed");
          return false;
        }
        if (c.s != next) {
          v("C13", "subsystem-order", c + ": expected subsystem " + next + " of " + w.n);
          return false;
        }
        next += starting ? 1 : -1;
        if (c.thrown != null) {
          failed = c;
        }
      }
      if (failed == null && t.e != INF && t.subs.size() != w.n) {
        v("C13", "subsystems-missing", "only " + t.subs.size() + " of " + w.n + " subsystems were " + (starting ? "started"
            : "stopped") + " in cycle at t=" + t.b);
        return false;
      }
      Tr nx = i + 1 < trs.size() ? trs.get(i + 1) : null;
      boolean stale = false;
      for (int j = 0; j + 1 < i; j++) {
        // an earlier cycle that was complete but left by an error: its complete event was still waiting
        boolean full = trs.get(j).subs.size() == w.n;
        for (Cb c : trs.get(j).subs) {
          full &= c.thrown == null;
        }
        stale |= full && trs.get(j + 1).ev.equals("error") && (trs.get(j).to.equals("STARTING") || trs.get(j).to.equals("STOPPING"));
      }
      if (failed != null && nx != null && nx.ev.equals("complete") && stale) {
        v("C15", "stale-complete", "subsystem " + failed.s + " failed to " + (starting ? "start" : "stop") + " but the app went "
            + nx.from + " -> " + nx.to + " on the complete event of an earlier cycle that an error had cut short");
        return false;
      }
      if (failed != null && nx != null && nx.ev.equals("complete")) {
        v("C15", "failure-ignored", "subsystem " + failed.s + " failed to " + (starting ? "start" : "stop") + " but the app went "
            + nx.from + " -> " + nx.to + " as if complete");
        return false;
      }
    }
    return true;
  }

  private void finalState() {
    boolean started = !ops("appStart").isEmpty();
    String s = trs.isEmpty() ? "null" : trs.get(trs.size() - 1).to;
    if (!s.equals(w.finalState)) {
      v(orRefused("C13,C14,C15"), "final-state", "the app reports " + w.finalState + " but its last transition led to " + s);
      return;
    }
    if (!started) {
      return;
    }
    if (s.equals("UNINITIALISED") || s.equals("STARTING") || s.equals("STOPPING") || s.equals("null")) {
      v(orRefused("C13,C14,C15"), "stuck", "the app is idle but in state " + s);
    }
    if (s.equals("STOPPED") && w.exit) {
      v("C14,C15", "not-exited", "the app in exit-on-stop mode stopped but did not exit");
    }
  }

  private static boolean overlaps(Op a, Op b) {
    return a.t0 < b.t1 && b.t0 < a.t1;
  }

  /** refused and permitted calls, and how many transitions they can account for */
  private void calls() {
    int acceptedStops = 0;
    int acceptedStarts = 0;
    boolean intr = false;
    for (Op o : ops("intr")) {
      intr |= o.f == 0;
    }
    List<Op> starts = ops("appStart");
    Op main = main();
    for (Op o : ops("appStop")) {
      if (o.thrown != null) {
        if (!(o.thrown instanceof IllegalStateException)) {
          v("C21", "stop-threw", "stop threw " + o.thrown);
        }
        if (onlyPossible(Set.of("STARTED", "STOPPED"), o.t0, o.t1)) {
          v("C21", "permitted-stop-refused", "stop at t=" + o.t0 + ".." + o.t1 + " was refused in a started or stopped app: "
              + o.thrown);
        }
      } else if (o.returned()) {
        acceptedStops++;
        if (!possible("STARTED", o.t0, o.t1) && !possible("STOPPED", o.t0, o.t1)) {
          v("C21", "stop-not-refused", "stop at t=" + o.t0 + ".." + o.t1 + " was not refused although the app was neither started"
              + " nor stopped");
        }
      } else {
        v("C21,C20", "stop-blocked", "stop never returned");
      }
    }
    boolean first = false;
    for (Op o : starts) {
      if (o.thrown != null) {
        if (!(o.thrown instanceof IllegalStateException)) {
          v("C21,C14", "start-threw", "start threw " + o.thrown);
        }
        boolean other = false;
        for (Op p : starts) {
          other |= p != o && p.t0 < o.t1;
        }
        if (o != main && (!w.exit && onlyPossible(Set.of("STOPPED"), o.t0, o.t1) || !other)) {
          v("C21", "permitted-start-refused", "start at t=" + o.t0 + ".." + o.t1 + " was refused: " + o.thrown);
        }
      } else {
        acceptedStarts++;
        if (o != main && o.returned() && (w.exit || !possible("STOPPED", o.t0, o.t1))) {
          v("C21,C14", "start-not-refused", "start at t=" + o.t0 + ".." + o.t1 + " returned although the app could not be started");
        }
        if (!o.returned() && o != main) {
          v("C14,C21", "second-start-blocked", "a start call other than the first never returned");
        }
      }
    }
    int st = 0;
    int sp = 0;
    int er = 0;
    int stopped = 0;
    for (Tr t : trs) {
      if (t.ev.equals("start")) {
        st++;
      } else if (t.ev.equals("stop")) {
        sp++;
      } else if (t.ev.equals("error")) {
        er++;
      }
      if (t.to.equals("STOPPED")) {
        stopped++;
      }
      if (t.ev.equals("error")) {
        errorCause(t);
      }
    }
    // the interrupted start call stops the app itself, and an exit-on-stop app fires its own second stop
    int own = (intr ? 1 : 0) + (w.exit ? stopped : 0);
    if (sp > acceptedStops + own) {
      v("C21", "refused-stop-had-effect", sp + " stop transitions but only " + acceptedStops + " stop calls were accepted");
    }
    if (st > acceptedStarts + (main != null && main.thrown != null ? 1 : 0)) {
      v("C21", "refused-start-had-effect", st + " start transitions but only " + acceptedStarts + " start calls were accepted");
    }
    int causes = 0;
    for (Cb c : h.cbs) {
      if (c.is("SUBSTART", "SUBSTOP") && c.thrown != null) {
        causes++;
      }
    }
    if (er > causes + ops("appError").size()) {
      v("C15,C21", "error-without-cause", er + " error transitions but only " + causes + " failures and " + ops("appError").size()
          + " error reports");
    }
  }

  private void errorCause(Tr t) {
    for (Cb c : h.cbs) {
      if (c.is("SUBSTART", "SUBSTOP") && c.thrown != null && c.t0 < t.b) {
        return;
      }
    }
    for (Op o : ops("appError")) {
      if (o.t0 < t.b) {
        // a report made while the app was stopped or ended changes nothing, unless a start was under way
        boolean ineffective = onlyPossible(Set.of("STOPPED", "_END_", "null"), o.t0, o.t1);
        if (ineffective) {
          for (Op s : ops("appStart")) {
            if (s.t0 < o.t1 && startedAfter(s) >= o.t0) {
              ineffective = false;
            }
          }
        }
        if (!ineffective) {
          return;
        }
      }
    }
    v("C15", "ineffective-error-had-effect", "the app went " + t.from + " -> STOPPED by an error at t=" + t.b
        + " but errors were reported only while it was stopped, ended or not started");
  }

  /** the instant at which the start transition that can be due to this call is complete */
  private int startedAfter(Op s) {
    for (Tr t : trs) {
      if (t.ev.equals("start") && t.e > s.t0) {
        return t.e;
      }
    }
    return INF;
  }

  /** the call that started the lifecycle machine */
  private Op main() {
    Op m = null;
    for (Op o : ops("appStart")) {
      boolean inside = false;
      for (Cb c : h.cbs) {
        if (c.inside == o && c.is("BEGIN") && c.ev.equals("_immediate_")) {
          inside = true;
        }
      }
      if (inside) {
        return o;
      }
      if (m == null || o.thrown == null && m.thrown != null) {
        m = o;
      }
    }
    return m;
  }

  /** accepted calls, errors and failures lead where they should */
  private void reactions() {
    for (Op o : ops("appError")) {
      if (o.thrown != null) {
        v("C15", "error-threw", "error threw " + o.thrown);
        continue;
      }
      if (!o.returned()) {
        v("C15,C20", "error-blocked", "error never returned");
        continue;
      }
      if (onlyPossible(Set.of("STARTING", "STARTED", "STOPPING"), o.t0, o.t1) && !reached("STOPPED", o.t0)) {
        v("C15", "error-ignored", "an error reported at t=" + o.t0 + " did not lead to the stopped state: " + w.finalState);
      }
    }
    for (Cb c : h.cbs) {
      if (c.is("SUBSTART", "SUBSTOP") && c.thrown != null && !reached("STOPPED", c.t0)) {
        v("C15", "failure-not-stopped", c + " failed but the app did not reach the stopped state: " + w.finalState);
      }
    }
    for (Op o : ops("appStop")) {
      if (o.thrown != null || !o.returned()) {
        continue;
      }
      if (onlyPossible(Set.of("STARTED"), o.t0, o.t1) && !reached("STOPPED", o.t0)) {
        v("C13,C14,C21", "stop-ignored", "a stop accepted at t=" + o.t0 + " did not stop the app: " + w.finalState);
      }
      if (!w.exit && onlyPossible(Set.of("STOPPED"), o.t0, o.t1) && !reached("_END_", o.t0)) {
        int pending = 0;
        for (Op s : ops("appStart")) {
          pending += (s.thrown == null || s == main()) && s.t0 < o.t1 ? 1 : 0;
        }
        boolean start = pending > transitionsBefore("start", o.t0);
        if (!start) {
          v("C14,C21", "second-stop-ignored", "the stopped app was stopped again at t=" + o.t0 + " but did not exit: "
              + w.finalState);
        }
      }
    }
    for (Op o : ops("appStart")) {
      if (o == main() || o.thrown != null || !o.returned() || w.exit || !onlyPossible(Set.of("STOPPED"), o.t0, o.t1)) {
        continue;
      }
      int pending = 0;
      for (Op s : ops("appStop")) {
        pending += s.thrown == null && s.t0 < o.t1 ? 1 : 0;
      }
      boolean stop = pending > transitionsBefore("stop", o.t0);
      for (Op s : ops("intr")) {
        stop |= s.f == 0;
      }
      if (!stop && !reached("STARTING", o.t0)) {
        v("C13,C15,C21", "restart-ignored", "a restart accepted at t=" + o.t0 + " did not start the app: " + w.finalState);
      }
    }
  }

  private boolean reached(String s, int t) {
    for (Tr x : trs) {
      if (x.to.equals(s) && x.e > t) {
        return true;
      }
    }
    return false;
  }

  private int transitionsBefore(String ev, int t) {
    int n = 0;
    for (Tr x : trs) {
      n += x.ev.equals(ev) && x.b < t ? 1 : 0;
    }
    return n;
  }

  private void mainCall() {
    Op m = main();
    if (m == null) {
      return;
    }
    Op intr = null;
    for (Op o : ops("intr")) {
      if (o.f == 0 && m.task == w.mainTask) {
        intr = intr == null ? o : intr;
      }
    }
    int stoppedAt = INF;
    int endAt = INF;
    for (Tr t : trs) {
      if (t.to.equals("STOPPED")) {
        stoppedAt = Math.min(stoppedAt, t.b);
      }
      if (t.to.equals("_END_")) {
        endAt = Math.min(endAt, t.b);
      }
    }
    int exitAt = w.exit ? stoppedAt : endAt;
    if (intr != null) {
      // interrupted before the call: it is still pending when start blocks; treated as any other instant
      boolean quietStarted = onlyPossible(Set.of("STARTED"), intr.t0, intr.t1);
      int next = INF;
      for (Op o : h.ops) {
        if (o != m && o != intr && o.t1 > intr.t0 && (o.kind.equals("appStop") || o.kind.equals("appError")
            || o.kind.equals("appStart") || o.kind.equals("intr"))) {
          next = Math.min(next, o.t0);
        }
      }
      boolean blocked = m.t0 < intr.t0 && !(m.t1 < intr.t0);
      // an earlier stop or error that is still being dealt with would be somebody else stopping the app
      for (Op o : h.ops) {
        if (o.t0 < intr.t0 && (o.kind.equals("appStop") || o.kind.equals("appError"))) {
          blocked = false;
        }
      }
      if (quietStarted && blocked && next > m.t1) {
        h.probe("interrupt-of-started-app");
        if (!m.returned()) {
          v("C14", "interrupt-ignored", "the thread blocked in start was interrupted at t=" + intr.t0 + " but start never returned");
        } else if (m.thrown != null) {
          v("C14", "start-threw", "start threw " + m.thrown + " when interrupted while the app was started");
        } else {
          if (!"interrupted".equals(m.result)) {
            v("C14", "interrupt-status-lost", "start returned without the interrupt status set");
          }
          if (!reached("STOPPED", intr.t0)) {
            v("C14", "interrupt-did-not-stop", "start was interrupted at t=" + intr.t0 + " but the app is " + w.finalState);
          }
        }
      }
      if (m.thrown != null && m.t0 < intr.t0 && onlyPossible(Set.of("STARTED", "STOPPED", "_END_"), intr.t0, m.t1)) {
        v("C14", "start-threw", "start threw " + m.thrown + " when interrupted at t=" + intr.t0
            + " although the app was only started, stopped or exited by then");
      }
      return;
    }
    if (m.thrown != null) {
      v(orRefused("C14"), "start-threw", "the first start call threw " + m.thrown);
      return;
    }
    if (m.returned() && m.t1 < exitAt) {
      v(orRefused("C14"), "start-returned-early", "the first start call returned at t=" + m.t1 + " but the app had not exited (exit begins at "
          + (exitAt == INF ? "never" : "t=" + exitAt) + ")");
    }
    if (!m.returned() && exitAt != INF) {
      v("C14" + (h.faults.isEmpty() ? "" : ",C15"), "start-never-returned", "the app exited at t=" + exitAt
          + " but the first start call never returned");
    }
  }

  private void reads() {
    for (Op o : ops("state")) {
      if (o.returned() && o.thrown == null && !possible((String) o.result, o.t0, o.t1)) {
        v(orRefused("C13,C19"), "wrong-state-read", "state read at t=" + o.t0 + ".." + o.t1 + " as " + o.result);
      }
    }
    for (Op o : ops("poll")) {
      if (o.returned() && o.thrown == null && !w.finalState.equals(o.result)) {
        v("C19", "change-not-visible", o.task + " polled the app's state to the end and still saw " + o.result + " instead of "
            + w.finalState);
      }
    }
    for (Op o : h.ops) {
      if (!o.returned() && o.task.state != Sim.DONE && o.kind.equals("state")) {
        v("C21", "call-blocked", o.kind + " never returned");
      }
    }
  }
}
