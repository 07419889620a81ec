package dsim.h;

import dsim.api.RunResult.Violation;
import dsim.h.Hist.Cb;
import dsim.h.Hist.Op;
import dsim.h.MachineWorld.Fire;
import dsim.h.MachineWorld.M;
import dsim.rt.Sim;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.HashSet;
import java.util.LinkedHashMap;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;

/** Checks one recorded history of a machine plan against the sequential reference model and the interval rules. */
public class MachineOracle {

  static final String UNINIT = "_UNINITIALISED_", ENDS = "_END_", NOOP = "_NOOP_", IMM = "_immediate_";
  static final int INF = Integer.MAX_VALUE;

  private final MachineWorld w;
  private final Hist h;
  private final List<Violation> out;
  private final boolean complete;
  private final boolean faulty;
  private final Set<String> extra = new LinkedHashSet<>();

  /** one event's processing as observed */
  static final class Group {
    Fire f;
    final List<Cb> cbs = new ArrayList<>();
    String startState;
    int startIdx;

    int t0() {
      return cbs.get(0).t0;
    }

    int t1() {
      int t = 0;
      for (Cb c : cbs) {
        t = Math.max(t, c.t1);
      }
      return t;
    }
  }

  MachineOracle(MachineWorld w, List<Violation> out, boolean complete) {
    this.w = w;
    this.h = w.h;
    this.out = out;
    this.complete = complete;
    boolean fl = false;
    for (String k : h.faults.keySet()) {
      if (k.startsWith("exception-in") || k.startsWith("error-in")) {
        fl = true;
      }
    }
    faulty = fl;
    if (w.ms.size() > 1) {
      extra.add("C11");
    }
    if (faulty) {
      extra.add("C08");
    }
    if (dsim.rt.Weak.on) {
      extra.add("C19");
    }
    for (M m : w.ms) {
      if (!J.list(m.def, "wrapped").isEmpty()) {
        extra.add("C18");
      }
      if (m.multi != null) {
        extra.add("C12");
      }
    }
  }

  private void v(String props, String kind, String detail) {
    Set<String> ps = new LinkedHashSet<>(Arrays.asList(props.split(",")));
    out.add(new Violation(String.join(",", ps), kind, detail));
  }

  private String tags(String base, M m) {
    Set<String> ps = new LinkedHashSet<>(Arrays.asList(base.split(",")));
    ps.addAll(extra);
    if (m.dropDup) {
      ps.add("C10");
    }
    if (m.maxQ > 0 || m.refusing) {
      ps.add("C09");
    }
    for (Op o : h.ops) {
      if (o.m == m.ix && o.kind.equals("stop")) {
        ps.add("C05");
      }
      if (o.m == m.ix && o.kind.equals("startIn")) {
        ps.add("C16");
      }
    }
    return String.join(",", ps);
  }

  void check() {
    if (!complete) {
      return;
    }
    if (J.b(w.plan, "ownPay")) {
      for (Cb c : h.cbs) {
        Fire f = c.is("UNMAPPED") ? w.fires.get(c.f) : null;
        if (f != null && c.cur != null && c.cur.startsWith("s")
            && target(w.ms.get(f.m), Integer.parseInt(c.cur.substring(1)), f.ev) != null) {
          // the rest of the history follows from this
          v("C04", "own-event-unmapped", c + ": the event is an instance of a user's own class with a payload, and the handler"
              + " was given it although the table maps it");
          return;
        }
      }
    }
    for (Cb c : h.cbs) {
      if (c.is("LBEGIN", "LEND") || direct(c)) {
        continue;
      }
      identity(c);
    }
    String changed = w.keptChanged();
    if (changed != null) {
      v("C07", "kept-event-changed", "an event that a call-back was given and kept: " + changed);
    }
    for (M m : w.ms) {
      machine(m);
    }
    stuckClients();
    if (w.plan.containsKey("fanout")) {
      new FanoutOracle(w, out).check();
    }
  }

  /** a notification made by a client on the fan-out listener itself */
  static boolean direct(Cb c) {
    return c.is("BEGIN", "END") && c.ev != null && c.ev.startsWith("n");
  }

  private void identity(Cb c) {
    M m = w.ms.get(c.owner);
    if (IMM.equals(c.ev)) {
      return;
    }
    Fire f = w.fires.get(c.f);
    if (f == null) {
      Fire nf = null;
      for (Fire g : w.fires.values()) {
        if (g.nullPayload && g.m == c.owner && g.ev.equals(c.ev)) {
          nf = g;
        }
      }
      if (c.f >= 50000 && nf != null) {
        v("C07", "null-payload-snapshot", "event " + c.ev + " was fired without payload (fire " + nf.id
            + ") but " + c.type + " saw payload P" + c.f + " set later on the same object");
      } else {
        v(tags("C07,C01", m), "payload-corrupted", c + ": no event was fired with this name and payload");
      }
      return;
    }
    if (!f.ev.equals(c.ev)) {
      v(tags("C07,C01,C04", m), "event-mixed-up", c + ": payload P" + c.f + " was fired with event " + f.ev);
    }
    if (f.nullPayload && !c.payloadNull && c.f >= 0) {
      v("C07", "null-payload-snapshot", "event " + c.ev + " fired without payload was seen with " + c.f);
    }
    if (f.m != c.owner) {
      v(tags("C11,C01", m), "wrong-machine", c + ": event was fired at machine m" + f.m);
    } else if (c.arg != -9 && c.arg != c.owner) {
      v(tags("C11,C01,C04", m), "wrong-machine-argument", c + ": call-back of m" + c.owner + " received another machine");
    }
    if (c.ctxBad) {
      v(tags("C11", m), "wrong-context", c + ": the machine's context is not its own");
    }
  }

  private void stuckClients() {
    for (Op o : h.ops) {
      if (!o.returned() && o.task.state != Sim.DONE) {
        M m = w.ms.get(o.m);
        boolean expected = false;
        if (o.kind.equals("fire")) {
          // an exception listener that hangs inside fire is the harness's own doing
          for (Cb c : h.cbs) {
            if (c.task == o.task && c.t1 == INF && c.t0 > o.t0) {
              expected = true;
            }
          }
          if (!expected) {
            v(tags("C20,C01", m), "fire-blocked", "fire " + o.f + " by " + o.task + " never returned");
          }
        } else if (!o.nested && !w.hung) {
          v(tags(o.kind.startsWith("start") ? "C06" : o.kind.equals("stop") ? "C05" : o.kind.equals("size") ? "C17"
              : "C12,C06,C05", m), "call-blocked", o.kind + " by " + o.task + " never returned");
        }
      }
    }
  }

  private Map<Integer, List<Cb>> notesOf;

  /** the call-backs of listeners about a firing */
  private List<Cb> notes(int f) {
    if (notesOf == null) {
      notesOf = new HashMap<>();
      for (Cb c : h.cbs) {
        if (c.type.endsWith("BEGIN") || c.type.endsWith("END")) {
          notesOf.computeIfAbsent(c.f, k -> new ArrayList<>()).add(c);
        }
      }
    }
    return notesOf.getOrDefault(f, List.of());
  }

  private boolean isRefusal(Cb c) {
    return c.is("FLOWEX") && c.inside != null && c.inside.kind.equals("fire") && c.inside.f == c.f;
  }

  private void machine(M m) {
    // -- starting
    Op start = null;
    int startCalls = 0;
    boolean overlapStart = false;
    for (Op o : h.ops) {
      if (o.m != m.ix || !o.kind.equals("start") && !o.kind.equals("startIn")) {
        continue;
      }
      if (o.thrown == null || byInitialCallback(o)) {
        if (o.kind.equals("startIn") && o.arg.equals("unknown")) {
          v("C16,C06", "started-in-unknown-state", "startInState accepted a state that was never configured");
        }
        if (start != null) {
          v("C06", "started-twice", "two start calls succeeded on m" + m.ix + ": t=" + start.t0 + " and t=" + o.t0);
        } else {
          start = o;
        }
      } else if (!(o.thrown instanceof IllegalStateException)) {
        v("C06", "start-threw", o.kind + " threw " + o.thrown);
      }
      startCalls++;
    }
    boolean invalidOnly = true;
    for (Op o : h.ops) {
      if (o.m == m.ix && (o.kind.equals("start") || o.kind.equals("startIn")) && !o.arg.equals("unknown")) {
        invalidOnly = false;
      }
    }
    if (start == null && startCalls > 0 && !invalidOnly) {
      v("C06", "no-start-succeeded", "none of " + startCalls + " start calls on m" + m.ix + " succeeded");
      return;
    }
    int startCall = start == null ? INF : start.t0;
    int startRet = start == null ? INF : start.t1;
    String state = start == null ? null
        : start.kind.equals("startIn") ? start.arg : "s" + J.i(m.def, "init", 0);

    // -- partition of call-backs
    List<Cb> initial = new ArrayList<>();
    List<Cb> seq = new ArrayList<>();
    Map<Integer, List<String>> outcomes = new HashMap<>();
    Map<Integer, Cb> refusal = new HashMap<>();
    for (Cb c : h.cbs) {
      if (c.owner != m.ix || c.is("LBEGIN", "LEND") || direct(c)) {
        continue;
      }
      if (IMM.equals(c.ev)) {
        initial.add(c);
      } else if (c.is("FLOWPRE")) {
        outcomes.computeIfAbsent(c.f, k -> new ArrayList<>()).add("pre");
      } else if (c.is("FLOWPOST")) {
        outcomes.computeIfAbsent(c.f, k -> new ArrayList<>()).add("post");
      } else if (isRefusal(c)) {
        outcomes.computeIfAbsent(c.f, k -> new ArrayList<>()).add("refused");
        refusal.put(c.f, c);
        if (!(c.exArg instanceof IllegalStateException)) {
          v(tags("C09", m), "refusal-exception", c + ": expected an IllegalStateException");
        }
        if (c.threadArg != c.task.token) {
          v(tags("C09", m), "refusal-thread", c + ": reported with thread " + c.threadArg.getName());
        }
      } else {
        seq.add(c);
      }
    }
    initialGroup(m, start, initial, seq);
    // from here on the machine is certainly started
    int startEff = startRet;
    for (Cb c : initial) {
      if (c.is("ENTRY")) {
        startEff = Math.min(startEff, c.t0);
      }
    }

    // -- stop
    int stopCall = INF;
    int stopRet = INF;
    for (Op o : h.ops) {
      if (o.m == m.ix && o.kind.equals("stop") && o.t1 > startCall) {
        stopCall = Math.min(stopCall, o.t0);
        if (o.t0 > startEff) {
          stopRet = Math.min(stopRet, o.t1);
        }
      }
    }

    // -- walk
    List<Group> groups = new ArrayList<>();
    Set<Integer> seen = new HashSet<>();
    Set<String> visited = new LinkedHashSet<>();
    if (state != null) {
      visited.add(state);
    }
    Group g = null;
    Walk k = null;
    boolean ended = false;
    int endFrom = INF;
    int mayEndFrom = INF;
    Cb prev = null;
    boolean broken = false;
    for (Cb c : seq) {
      if (prev != null && c.t0 < prev.t1 && !(prev.t1 == INF && c.task != prev.task && m.exec.startsWith("never"))) {
        v(tags("C03", m), "overlap", c + " began while " + prev + " was still running");
        broken = true;
        break;
      }
      if (c.inside != null && c.inside.kind.equals("fire") && !c.is("HANDLER_")) {
        v(tags("C20", m), "processed-on-firing-thread", c + " ran inside fire " + c.inside.f + " on " + c.task);
      }
      if (c.task.client) {
        v(tags("C20", m), "processed-on-client-thread", c + " ran on " + c.task);
      }
      boolean relaxed = c.t1 > stopCall;
      boolean same = g != null && g.f.id == c.f && !(k.done && !relaxed);
      if (!same) {
        if (g != null && !k.done && c.t0 < stopCall) {
          k.finish(c);
          if (k.bad != null) {
            v(tags(k.badTags, m), "incomplete-transition", k.bad);
            broken = true;
            break;
          }
        }
        if (g != null) {
          if (k.state != null) {
            state = k.state;
            visited.add(state);
          }
          if (k.ended) {
            ended = true;
            endFrom = Math.min(endFrom, g.t0());
          }
        }
        Fire f = w.fires.get(c.f);
        if (f == null) {
          broken = true;
          break;
        }
        if (!seen.add(c.f)) {
          Fire lost = mixedUp(m, f);
          if (lost != null) {
            v(tags("C07,C01", m), "seen-as-another-event", c + ": payload P" + c.f + " was seen twice, and fire " + lost.id
                + " (" + lost.ev + (lost.nullPayload ? ", no payload" : "") + ") was never seen with what it was fired with");
          }
          if (g != null && g.f.id == c.f) {
            v(tags("C01,C03,C04", m), "extra-callback", c + " after the processing of fire " + c.f + " was complete");
          } else {
            v(tags("C01,C03", m), "processed-twice", c + ": fire " + c.f + " was already processed or interrupted");
          }
          broken = true;
          break;
        }
        if (start == null || c.t0 < startCall) {
          v(tags("C06,C01", m), "processed-before-start", c.toString());
          broken = true;
          break;
        }
        if (ended) {
          v(tags("C05,C01", m), "processed-after-end", c + ": the machine had ended");
          broken = true;
          break;
        }
        g = new Group();
        g.f = f;
        g.startState = state;
        g.startIdx = groups.size();
        groups.add(g);
        k = new Walk(m, f, state);
        if (k.toEnd || k.terminal) {
          mayEndFrom = Math.min(mayEndFrom, c.t0);
        }
      }
      g.cbs.add(c);
      if (!relaxed) {
        k.step(c);
        if (k.bad != null) {
          v(tags(k.badTags, m), "wrong-callback", k.bad);
          broken = true;
          break;
        }
      } else {
        k.relaxed = true;
      }
      if (dsim.rt.Weak.on && relaxed) {
        k.relaxed = true;
      }
      prev = c;
    }
    if (g != null && !broken) {
      if (!k.done && !k.relaxed) {
        boolean hangs = false;
        for (Cb c : g.cbs) {
          hangs |= c.t1 == INF;
        }
        if (m.multi != null && k.pos < k.want.size() && k.want.get(k.pos).startsWith("END")) {
          for (Cb c : h.cbs) {
            if (c.owner == m.ix && c.f == g.f.id && c.is("LEND") && c.t1 == INF) {
              hangs = true;
              k.stateAt(k.pos);
            }
          }
        }
        if (m.multi != null) {
          for (Cb c : h.cbs) {
            hangs |= c.owner == m.ix && c.f == g.f.id && c.is("LBEGIN") && c.t1 == INF;
          }
        }
        if (!hangs && stopCall == INF) {
          k.finish(null);
          if (k.bad != null) {
            v(tags(k.badTags, m), "incomplete-transition", k.bad);
            broken = true;
          }
        }
      }
      if (k.state != null) {
        state = k.state;
        visited.add(state);
      }
      if (k.ended) {
        ended = true;
        endFrom = Math.min(endFrom, g.t0());
      }
    }
    if (broken) {
      return;
    }
    if (stopRet != INF) {
      int after = 0;
      for (Group x : groups) {
        if (x.t1() > stopRet) {
          after++;
        }
      }
      if (after > 1) {
        v(tags("C05", m), "processing-after-stop", after + " events were processed on m" + m.ix + " after stop returned");
      }
    }
    boolean hungHere = w.hungMachines.contains("" + m.ix) || w.hung && w.ms.size() > 1 && m.exec.startsWith("shared");
    boolean stopAmbiguous = stopCall != INF && stopRet == INF;

    threads(m, seq);

    // an event whose hand-over to the executor failed may stay in the queue
    boolean anyThrew = false;
    for (Fire f : w.fires.values()) {
      anyThrew |= f.m == m.ix && f.op != null && f.op.thrown != null;
    }

    // -- final state
    boolean mustEnd = ended || stopRet != INF;
    if (start != null && start.returned()) {
      if (!m.finalStarted) {
        v("C06", "not-started", "m" + m.ix + " reports not started after a successful start");
      }
      if (mustEnd && !m.finalEnded) {
        v(tags("C05", m), "not-ended", "m" + m.ix + " ended but reports not ended, state " + m.finalState);
      }
      if (mustEnd && !ENDS.equals(m.finalState)) {
        v(tags("C05", m), "ended-in-other-state", "m" + m.ix + " ended but its current state is " + m.finalState);
      }
      if (!mustEnd && !stopAmbiguous) {
        if (m.finalEnded) {
          v(tags("C05,C04", m), "ended-unexpectedly", "m" + m.ix + " reports ended; the model is in " + state);
        } else if (!state.equals(m.finalState)) {
          v(tags("C04", m), "final-state", "m" + m.ix + " is in " + m.finalState + " but should be in " + state);
        }
      }
      if (m.idleSize != 0 && !anyThrew) {
        v(tags("C17,C01", m), "idle-size", "m" + m.ix + " is idle but reports queue size " + m.idleSize);
      }
      if (m.finalSize != 0 && !hungHere && !anyThrew) {
        v(tags("C17", m), "idle-size", "m" + m.ix + " is idle but reports queue size " + m.finalSize);
      }
    } else if (start == null && m.finalStarted) {
      v("C06", "started-without-start", "m" + m.ix + " reports started");
    }

    observations(m, start, startEff, mayEndFrom, stopCall);

    for (Group x : groups) {
      if (x.f.op.t1 <= w.quietAt && x.t0() > w.quietAt && !anyThrew) {
        v(tags("C01", m), "left-waiting", "fire " + x.f.id + " (" + x.f.ev + ") returned at t=" + x.f.op.t1
            + " but was left waiting while the machine was idle, until another event was fired");
      }
    }

    // -- outcomes
    Map<Integer, Group> byFire = new HashMap<>();
    for (Group x : groups) {
      byFire.put(x.f.id, x);
      outcomes.computeIfAbsent(x.f.id, q -> new ArrayList<>()).add("processed");
    }
    List<Fire> fs = new ArrayList<>();
    for (Fire f : w.fires.values()) {
      if (f.m == m.ix) {
        fs.add(f);
      }
    }
    // when definitely waiting: from the return of fire until the previous event's last call-back
    Map<Fire, int[]> waiting = new LinkedHashMap<>();
    Map<Fire, Group> grp = new HashMap<>();
    int prevEnd = 0;
    for (Group x : groups) {
      grp.put(x.f, x);
      waiting.put(x.f, new int[]{x.f.op.t1, Math.max(prevEnd, notYetTaken(m, x))});
      prevEnd = Math.max(prevEnd, x.t1());
    }
    boolean over = mustEnd || stopAmbiguous;
    List<Op> ends = new ArrayList<>();
    for (Op q : h.ops) {
      if (q.m == m.ix && (q.kind.equals("stop") || q.kind.equals("isEnded") && Boolean.TRUE.equals(q.result))) {
        ends.add(q);
      }
    }
    for (Fire f : fs) {
      List<String> o = outcomes.getOrDefault(f.id, List.of());
      Op op = f.op;
      boolean threw = op.thrown != null;
      if (!op.returned()) {
        continue;
      }
      if (threw && !(op.thrown instanceof java.util.concurrent.RejectedExecutionException && m.exec.startsWith("bounded"))) {
        v(tags("C01,C06,C20", m), "fire-threw", "fire " + f.id + " threw " + op.thrown);
        continue;
      }
      if (o.size() > 1) {
        v(tags("C01", m), "several-outcomes", "fire " + f.id + " (" + f.ev + ") had outcomes " + o);
        continue;
      }
      String one = o.isEmpty() ? null : o.get(0);
      if (start == null || op.t1 < startCall) {
        if (!"pre".equals(one) && m.recFlow) {
          v(tags("C06,C01", m), "not-reported-before-start", "fire " + f.id + " before the start had outcome " + one);
        }
        continue;
      }
      if ("pre".equals(one)) {
        if (op.t0 > startRet) {
          v(tags("C06,C01", m), "reported-before-start", "fire " + f.id + " after the start was reported as before it");
        }
        continue;
      }
      if ("post".equals(one)) {
        boolean mayBeEnded = mayEndFrom < op.t1 || stopCall < op.t1;
        if (!mayBeEnded) {
          v(tags("C05,C01", m), "reported-after-end", "fire " + f.id + " was reported as after the end of a live machine");
        }
        continue;
      }
      boolean definitelyEnded = false;
      for (Op q : ends) {
        if (q.t1 < op.t0 && q.t0 > startEff) {
          definitelyEnded = true;
        }
      }
      if (f.probe && !stopAmbiguous && (stopRet < op.t0 || ended && endFrom < op.t0 && w.quietAt > 0)) {
        definitelyEnded = true;
      }
      if (definitelyEnded && m.recFlow) {
        v(tags("C05,C01", m), "not-reported-after-end", "fire " + f.id + " after the end had outcome " + one);
        continue;
      }
      if ("refused".equals(one)) {
        refused(m, f, fs, outcomes, byFire);
        continue;
      }
      if (one == null && !threw) {
        if (over) {
          continue;
        }
        if (unobservable(m, f, visited)) {
          continue;
        }
        if (!m.recFlow && (m.maxQ > 0 || m.refusing || op.t0 < startRet)) {
          continue;
        }
        if (hungHere) {
          waiting.put(f, new int[]{op.t1, INF});
          // it may instead have been dropped as a duplicate: resolved below
          continue;
        }
        if (m.dropDup && dropJustified(f, fs, outcomes, byFire)) {
          h.probe("duplicate-dropped");
          continue;
        }
        String t = "C01";
        if (op.t0 < startRet) {
          t += ",C06";
        }
        if (everywhereUnmapped(m, f)) {
          t += ",C04";
        }
        if (m.dropDup) {
          t += ",C07";
        }
        v(tags(t, m), "event-lost", "fire " + f.id + " (" + f.ev + ") returned at t=" + op.t1
            + " and had no outcome; machine idle in " + m.finalState);
      }
    }

    if (m.dropDup && hungHere) {
      // unprocessed equal events behind a blocked one: at most one of each name can be waiting
      waiting.entrySet().removeIf(e -> e.getValue()[1] == INF);
    }

    // -- order
    for (int a = 0; a < groups.size(); a++) {
      for (int b = a + 1; b < groups.size(); b++) {
        Op oa = groups.get(a).f.op;
        Op ob = groups.get(b).f.op;
        if (ob.t1 < oa.t0) {
          v(tags("C02", m), "order", "fire " + ob.f + " returned at t=" + ob.t1 + " before fire " + oa.f + " was called at t="
              + oa.t0 + " but was processed after it");
        }
      }
    }

    // -- bound
    int cap = m.maxQ > 0 ? m.maxQ : 0;
    String q = J.s(m.def, "queue", "none");
    if (cap > 0) {
      for (Map.Entry<Fire, int[]> e : waiting.entrySet()) {
        int at = e.getValue()[0];
        if (at >= e.getValue()[1]) {
          continue;
        }
        int n = 0;
        StringBuilder ids = new StringBuilder();
        for (Map.Entry<Fire, int[]> e2 : waiting.entrySet()) {
          if (e2.getValue()[0] <= at && at < e2.getValue()[1]) {
            n++;
            ids.append(' ').append(e2.getKey().id);
          }
        }
        if (n > cap) {
          v("C09", "bound-exceeded", n + " events waiting at t=" + at + " (fires" + ids + "), maximum is " + cap);
          break;
        }
        if (n == cap) {
          h.probe("queue-full");
        }
      }
    }

    // -- duplicates
    if (m.dropDup) {
      List<Fire> l = new ArrayList<>(waiting.keySet());
      for (int a = 0; a < l.size(); a++) {
        for (int b = a + 1; b < l.size(); b++) {
          if (l.get(a).ev.equals(l.get(b).ev)) {
            int[] x = waiting.get(l.get(a));
            int[] y = waiting.get(l.get(b));
            if (Math.max(x[0], y[0]) < Math.min(x[1], y[1])) {
              v("C10", "duplicate-waiting", "equal events " + l.get(a).ev + " (fires " + l.get(a).id + ", " + l.get(b).id
                  + ") were waiting at the same time, at t=" + Math.max(x[0], y[0]));
            }
          }
        }
      }
    }

    sizes(m, fs, outcomes, byFire, groups, waiting, over, hungHere);
  }

  /** an accepted event of the same name that no call-back ever saw, on a machine that did not end or drop it */
  private Fire mixedUp(M m, Fire f) {
    if (m.finalEnded || m.dropDup || w.hung) {
      return null;
    }
    for (Fire g : w.fires.values()) {
      if (g == f || g.m != m.ix || !g.ev.equals(f.ev) || g.op == null || !g.op.returned() || g.op.thrown != null) {
        continue;
      }
      boolean seen = false;
      for (Cb c : h.cbs) {
        seen |= c.owner == m.ix && c.f == g.id;
      }
      if (!seen) {
        return g;
      }
    }
    return null;
  }

  private void threads(M m, List<Cb> seq) {
    if (!m.exec.equals("default") || J.s(m.def, "build", "config").startsWith("shared")) {
      return;
    }
    Set<Sim.Task> ts = new LinkedHashSet<>();
    boolean died = false;
    for (Cb c : seq) {
      ts.add(c.task);
      died |= c.task.death != null;
    }
    for (Sim.Task t : ts) {
      if (!t.token.isDaemon()) {
        v("C20", "not-daemon", "processing thread " + t.name + " of m" + m.ix + " is not a daemon thread");
      }
      if (m.threadName != null && !t.token.getName().contains(m.threadName)) {
        v("C20", "thread-name", "processing thread " + t.token.getName() + " does not carry the name " + m.threadName);
      }
    }
    if (ts.size() > 1 && !died) {
      v(tags("C20", m), "several-threads", "m" + m.ix + " was processed on " + ts.size() + " threads");
    }
  }

  /** a start that failed because an action or listener of the initial entry threw: the machine is started all the same */
  private boolean byInitialCallback(Op o) {
    for (Cb c : h.cbs) {
      if (c.thrown == o.thrown && c.inside == o && (IMM.equals(c.ev) || c.is("LBEGIN", "LEND"))) {
        return true;
      }
    }
    return false;
  }

  private void initialGroup(M m, Op start, List<Cb> initial, List<Cb> seq) {
    int init = J.i(m.def, "init", 0);
    List<String> want = new ArrayList<>();
    boolean full = start != null && start.kind.equals("start");
    if (full) {
      if (m.recListener) {
        want.add("BEGIN " + UNINIT + " s" + init);
      }
      for (int i = 0; i < m.nAct[init][0]; i++) {
        want.add("ENTRY " + init + " " + i);
      }
      if (m.recListener) {
        want.add("END " + UNINIT + " s" + init);
      }
    }
    List<String> got = new ArrayList<>();
    int t0 = INF;
    int t1 = 0;
    for (Cb c : initial) {
      got.add(c.is("BEGIN", "END") ? c.type + " " + c.from + " " + c.to : c.type + " " + c.s + " " + c.i);
      t0 = Math.min(t0, c.t0);
      t1 = Math.max(t1, c.t1);
      if (c.inside == null || !c.inside.kind.equals("start") || c.task != c.inside.task) {
        // where the initial entry runs is not specified
      }
    }
    if (start != null && !start.returned()) {
      return;
    }
    // an exception handled by a wrapped action's handler is followed by the rest; any other one skips the rest
    boolean skipped = start != null && start.thrown != null;
    for (int i = 0; i < initial.size() && i < want.size(); i++) {
      Cb c = initial.get(i);
      Throwable thrown = c.thrown;
      if (m.multi != null && thrown == null && c.is("BEGIN", "END")) {
        for (Cb x : h.cbs) {
          thrown = x.owner == m.ix && IMM.equals(x.ev) && x.is("L" + c.type) && x.thrown != null ? x.thrown : thrown;
        }
      }
      if (thrown == null || !got.get(i).equals(want.get(i))) {
        continue;
      }
      if (c.is("ENTRY") && c.thrown instanceof Exception && wrapped(m, c)) {
        want.add(i + 1, "HANDLER " + c.s + " " + c.i);
        continue;
      }
      want.subList(i + 1, want.size()).clear();
    }
    if (skipped && got.size() < want.size() && want.get(got.size()).startsWith("END") && m.multi != null
        && want.subList(0, got.size()).equals(got)) {
      return;
    }
    if (!got.equals(want)) {
      v(tags(start != null && start.kind.equals("startIn") ? "C16,C06,C04" : "C06,C03,C04", m), "initial-entry", "m" + m.ix
          + " initial call-backs were " + got + ", expected " + want);
    }
    for (Cb c : seq) {
      if (c.t0 < t1 && c.t1 > t0) {
        v("C03", "initial-entry-overlap", c + " ran while the initial entry of m" + m.ix + " was still in progress");
        break;
      }
    }
  }

  private void observations(M m, Op start, int startEff, int mayEndFrom, int stopCall) {
    for (Op o : h.ops) {
      if (o.m != m.ix || !o.returned()) {
        continue;
      }
      if (o.kind.equals("startedState") && "null".equals(o.result)) {
        v(tags("C06,C19", m), "started-without-state", o.task + " saw m" + m.ix + " started but without a current state");
      }
      if (o.kind.equals("endedState") && !"not-ended".equals(o.result) && !ENDS.equals(o.result)
          && start != null && o.t0 > startEff) {
        v(tags("C05,C19", m), "ended-without-end-state", o.task + " saw m" + m.ix + " ended but in state " + o.result);
      }
      if (o.kind.equals("isStarted") && start != null && start.t1 < o.t0 && Boolean.FALSE.equals(o.result)) {
        v(tags("C06,C19", m), "start-not-visible", o.task + " saw m" + m.ix + " not started after start had returned");
      }
      if (o.kind.equals("isEnded") && start != null && o.t0 > start.t1) {
        if (Boolean.TRUE.equals(o.result) && !(mayEndFrom < o.t1 || stopCall < o.t1)) {
          v(tags("C05", m), "ended-too-early", o.task + " saw m" + m.ix + " ended at t=" + o.t1);
        }
      }
      if (o.kind.equals("poll") && o.result != null) {
        Object fin = o.arg.equals("state") ? m.finalState : o.arg.equals("ended") ? (Object) m.finalEnded : m.finalStarted;
        boolean changedLater = false;
        for (Cb c : h.cbs) {
          changedLater |= c.owner == m.ix && c.t1 > o.t0 && c.is("BEGIN", "EXIT", "ENTRY", "END") && c.t1 > w.quietAt;
        }
        for (Op q : h.ops) {
          changedLater |= q.m == m.ix && q.kind.equals("stop") && q.t1 > w.quietAt;
        }
        if (!o.result.equals(fin) && !changedLater) {
          v("C19", "change-not-visible", o.task + " polled " + o.arg + " of m" + m.ix + " to the end and still saw "
              + o.result + " instead of " + fin);
        }
      }
    }
    for (Op a : h.ops) {
      if (a.m == m.ix && a.kind.equals("isEnded") && Boolean.TRUE.equals(a.result) && start != null && a.t0 > startEff) {
        for (Op b : h.ops) {
          if (b.m == m.ix && b.kind.equals("isEnded") && b.t0 > a.t1 && Boolean.FALSE.equals(b.result)) {
            v(tags("C05", m), "un-ended", "m" + m.ix + " reported ended at t=" + a.t1 + " and not ended at t=" + b.t1);
          }
        }
      }
    }
  }

  /** the event could have been handled without any call-back we record */
  private boolean unobservable(M m, Fire f, Set<String> visited) {
    for (String s : visited) {
      if (new Walk(m, f, s).want.isEmpty()) {
        return true;
      }
    }
    return false;
  }

  /** an executor that is not running any task of the machine cannot have taken the event out of the queue */
  private static int notYetTaken(M m, Group x) {
    if (m.taskRuns == null || !x.f.op.returned()) {
      return 0;
    }
    int t = x.f.op.t1;
    int end = x.t0();
    for (int[] r : m.taskRuns) {
      if (r[0] < t && r[1] > t) {
        return 0;
      }
      if (r[0] > t) {
        end = Math.min(end, r[0]);
      }
    }
    return end;
  }

  private boolean everywhereUnmapped(M m, Fire f) {
    for (int s = 0; s < m.nStates; s++) {
      if (target(m, s, f.ev) != null) {
        return false;
      }
    }
    return m.recUnmapped;
  }

  private static boolean accepted(List<String> o) {
    return o.isEmpty() || o.contains("processed");
  }

  private boolean dropJustified(Fire f, List<Fire> fs, Map<Integer, List<String>> outcomes, Map<Integer, Group> byFire) {
    for (Fire g : fs) {
      if (g == f || !g.ev.equals(f.ev) || g.op.t0 >= f.op.t1) {
        continue;
      }
      Group x = byFire.get(g.id);
      if (x != null && x.t0() > f.op.t0) {
        return true;
      }
      // an equal event whose fire failed may have been left waiting
      if (x == null && g.op.thrown != null) {
        return true;
      }
    }
    return false;
  }

  private void refused(M m, Fire f, List<Fire> fs, Map<Integer, List<String>> outcomes, Map<Integer, Group> byFire) {
    String q = J.s(m.def, "queue", "none");
    int cap = m.maxQ > 0 ? m.maxQ : INF;
    if (q.startsWith("lbq:")) {
      cap = Math.min(cap, Integer.parseInt(q.substring(4)));
    }
    if (q.startsWith("flaky:")) {
      return;
    }
    h.probe("event-refused");
    if (cap == INF) {
      v(tags("C09,C01", m), "refused-unbounded", "fire " + f.id + " was refused by an unbounded machine");
      return;
    }
    int n = 0;
    for (Fire g : fs) {
      if (g == f || !accepted(outcomes.getOrDefault(g.id, List.of())) || g.op.t0 > f.op.t1) {
        continue;
      }
      Group x = byFire.get(g.id);
      if (x == null || x.t0() > f.op.t0) {
        n++;
      }
    }
    if (n < cap) {
      v(tags("C09", m), "refused-below-bound", "fire " + f.id + " was refused although at most " + n + " events of maximum "
          + cap + " can have been waiting");
    }
  }

  private void sizes(M m, List<Fire> fs, Map<Integer, List<String>> outcomes, Map<Integer, Group> byFire, List<Group> groups,
      Map<Fire, int[]> waiting, boolean over, boolean hung) {
    for (Op o : h.ops) {
      if (o.m != m.ix || !o.kind.equals("size") || !o.returned()) {
        continue;
      }
      if (o.thrown != null) {
        v(tags("C17", m), "size-threw", "queue size query threw " + o.thrown);
        continue;
      }
      int lo = 0;
      int hi = 0;
      for (Fire f : fs) {
        List<String> oc = outcomes.getOrDefault(f.id, List.of());
        if (oc.contains("pre") || oc.contains("post")) {
          continue;
        }
        if (oc.contains("refused")) {
          if (f.op.t0 < o.t1 && f.op.t1 > o.t0) {
            hi++;
          }
          continue;
        }
        Group x = byFire.get(f.id);
        boolean finished = false;
        if (x != null) {
          if (x.startIdx + 1 < groups.size() && groups.get(x.startIdx + 1).t0() < o.t0) {
            finished = true;
          }
        }
        if (f.op.t0 < o.t1 && !finished) {
          hi++;
        }
        if (f.op.t1 < o.t0 && x != null) {
          int[] wv = waiting.get(f);
          if (x.t1() > o.t1 || wv != null && wv[1] > o.t1) {
            lo++;
          }
        }
      }
      int r = (Integer) o.result;
      if (r < lo) {
        v(tags("C17", m), "size-too-small", "queue size " + r + " reported at t=" + o.t0 + ".." + o.t1 + " while " + lo
            + " accepted events were unfinished throughout");
      } else if (r > hi) {
        v(tags("C17", m), "size-too-large", "queue size " + r + " reported at t=" + o.t0 + ".." + o.t1 + " while at most " + hi
            + " accepted events can have been unfinished");
      }
    }
  }

  /** the reference model of one event's processing */
  private final class Walk {
    final M m;
    final Fire f;
    final String s;
    final List<String> want = new ArrayList<>();
    String to;
    int stateChangeAt = -1;
    boolean terminal;
    boolean toEnd;
    int pos;
    boolean done;
    boolean relaxed;
    boolean ended;
    String state;
    String bad;
    String badTags = "C04";
    Throwable pending;
    final List<Throwable> alternatives = new ArrayList<>();
    String pendingHandler;

    Walk(M m, Fire f, String s) {
      this.m = m;
      this.f = f;
      this.s = s;
      this.state = s;
      int si = Integer.parseInt(s.substring(1));
      Integer t = target(m, si, f.ev);
      if (t == null) {
        if (m.recUnmapped) {
          want.add("UNMAPPED");
        }
      } else if (t == -2) {
        if (m.recListener) {
          want.add("BEGIN " + s + " " + NOOP);
          want.add("END " + s + " " + NOOP);
        }
      } else {
        to = t == -1 ? ENDS : "s" + t;
        toEnd = t == -1;
        if (m.recListener) {
          want.add("BEGIN " + s + " " + to);
        }
        for (int i = 0; i < m.nAct[si][1]; i++) {
          want.add("EXIT " + si + " " + i);
        }
        stateChangeAt = want.size();
        if (t >= 0) {
          for (int i = 0; i < m.nAct[t][0]; i++) {
            want.add("ENTRY " + t + " " + i);
          }
        }
        if (m.recListener) {
          want.add("END " + s + " " + to);
        }
        for (Object o : J.list(m.def, "terminal")) {
          if (((Number) o).intValue() == t) {
            terminal = true;
          }
        }
      }
      done = want.isEmpty();
    }

    private void bad(String tags, String b) {
      bad = b;
      badTags = tags;
    }

    void step(Cb c) {
      String got = c.is("BEGIN", "END") ? c.type + " " + c.from + " " + c.to
          : c.is("EXIT", "ENTRY") ? c.type + " " + c.s + " " + c.i : c.type;
      if (pendingHandler != null) {
        if (c.is("HANDLER") && (c.from + " " + c.s + " " + c.i).equals(pendingHandler)) {
          if (c.exArg != pending) {
            bad("C18", c + ": handler received " + c.exArg + " but " + pending + " was thrown");
            return;
          }
          pendingHandler = null;
          pending = null;
          after(c, null);
          return;
        }
        bad("C18", "expected the exception handler for " + pendingHandler + " but " + c + " ran");
        return;
      }
      if (pending != null) {
        if (c.is("FLOWEX")) {
          if (c.exArg != pending && !alternatives.contains(c.exArg)) {
            bad("C08,C18", c + ": reported exception is not the one thrown (" + pending + ")");
            return;
          }
          if (c.threadArg != c.task.token) {
            bad("C08", c + ": reported thread is not the processing thread");
            return;
          }
          pending = null;
          done = true;
          return;
        }
        bad("C08", "expected the exception " + pending + " to be reported but " + c + " ran");
        return;
      }
      if (c.is("HANDLER")) {
        bad("C18", c + ": exception handler called although nothing was thrown");
        return;
      }
      if (c.is("FLOWEX")) {
        bad("C08,C01,C03", c + ": reported although no call-back threw");
        return;
      }
      if (pos >= want.size() || !want.get(pos).equals(got)) {
        String w = pos < want.size() ? want.get(pos) : "nothing more";
        String t = "C04";
        if (c.is("UNMAPPED") || pos < want.size() && want.get(pos).equals("UNMAPPED")) {
          t = "C04,C01";
        } else if (pos > 0) {
          t = "C03,C04";
        }
        bad(t, "processing fire " + f.id + " (" + f.ev + ") in state " + s + ": expected " + w + " but got " + got);
        return;
      }
      if (c.is("EXIT") && c.cur != null && !c.cur.equals(s)) {
        bad("C03,C04,C19", c + ": current state while leaving " + s + " is " + c.cur);
        return;
      }
      if (c.is("ENTRY") && c.cur != null && !c.cur.equals(to)) {
        bad("C03,C04,C19", c + ": current state while entering " + to + " is " + c.cur);
        return;
      }
      if (c.is("UNMAPPED") && c.cur != null && !c.cur.equals(s)) {
        bad("C04,C19", c + ": current state is " + c.cur + " instead of " + s);
        return;
      }
      after(c, got);
    }

    private void after(Cb c, String got) {
      Throwable thrown = c.thrown;
      boolean stuck = c.t1 == INF;
      if (m.multi != null && c.is("BEGIN", "END")) {
        for (Cb x : notes(c.f)) {
          stuck |= x.owner == c.owner && x.f == c.f && x.type.endsWith(c.type) && x.t1 == INF;
        }
      }
      if (stuck) {
        stateAt(pos);
        return;
      }
      alternatives.clear();
      if (m.multi != null && c.is("BEGIN", "END")) {
        for (Cb x : notes(c.f)) {
          if (x.owner == c.owner && x.f == c.f && x.type.endsWith(c.type) && x.thrown != null) {
            alternatives.add(x.thrown);
            thrown = thrown == null ? x.thrown : thrown;
          }
        }
      }
      if (thrown != null) {
        if (thrown instanceof Exception) {
          boolean wrapped = !c.is("HANDLER") && wrapped(m, c);
          pending = thrown;
          if (wrapped) {
            pendingHandler = c.type + " " + c.s + " " + c.i;
            return;
          }
          if (c.is("HANDLER") && J.b(m.def, "twice") && !c.from.endsWith("^")) {
            // the action is wrapped twice: the outer handler is for what the inner one throws
            pendingHandler = c.from + "^ " + c.s + " " + c.i;
            return;
          }
          // the remaining call-backs are skipped; where it failed decides the state
          stateAt(c.is("HANDLER") ? pos : pos);
          if (!m.recFlow) {
            pending = null;
            done = true;
          }
        } else {
          stateAt(pos);
          done = true;
        }
        return;
      }
      pos++;
      if (pos >= want.size()) {
        done = true;
        if (to != null) {
          state = to;
          if (toEnd || terminal) {
            ended = true;
          }
        }
      }
    }

    private void stateAt(int failed) {
      if (to != null && stateChangeAt >= 0 && failed >= stateChangeAt) {
        state = to;
        if (toEnd) {
          ended = true;
        }
      }
    }

    void finish(Cb next) {
      if (done) {
        return;
      }
      if (pendingHandler != null) {
        bad("C18", "the exception handler for " + pendingHandler + " was never called");
      } else if (pending != null) {
        bad("C08,C18", "exception " + pending + " while processing fire " + f.id + " was never reported");
      } else if (pos < want.size()) {
        bad("C03,C04", "processing fire " + f.id + " (" + f.ev + ") in state " + s + ": " + want.get(pos)
            + " never happened" + (next == null ? "" : " before " + next));
      }
    }
  }

  static boolean wrapped(M m, Cb c) {
    return J.list(m.def, "wrapped").contains(c.type.toLowerCase() + ":" + c.s + ":" + c.i);
  }

  static Integer target(M m, int s, String ev) {
    Integer r = null;
    for (Object o : J.list(m.def, "table")) {
      List<?> t = (List<?>) o;
      if (((Number) t.get(0)).intValue() == s && ("e" + t.get(1)).equals(ev)) {
        r = ((Number) t.get(2)).intValue();
      }
    }
    return r;
  }
}
