package dsim.h;

import dsim.api.RunResult.Violation;
import dsim.h.Hist.Cb;
import dsim.h.Hist.Op;
import dsim.h.MachineWorld.M;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;

/** Fan-out of state changes to several listeners: exactly-once delivery, set semantics of add and remove. */
final class FanoutOracle {
  private final MachineWorld w;
  private final Hist h;
  private final List<Violation> out;

  FanoutOracle(MachineWorld w, List<Violation> out) {
    this.w = w;
    this.h = w.h;
    this.out = out;
  }

  private void v(String props, String kind, String detail) {
    out.add(new Violation(props, kind, detail));
  }

  private static boolean begin(Cb c) {
    return c.type.endsWith("BEGIN");
  }

  private static boolean isNote(Cb c) {
    return c.is("BEGIN", "END", "LBEGIN", "LEND");
  }

  private final List<Op> changes = new ArrayList<>();

  void check() {
    for (M m : w.ms) {
      if (m.multi != null) {
        machine(m);
      }
    }
  }

  private void machine(M m) {
    int k = Integer.parseInt(J.s(m.def, "listener", "multi:1").substring(6));
    Map<String, List<Cb>> notes = new LinkedHashMap<>();
    for (Cb c : h.cbs) {
      if (c.owner == m.ix && isNote(c)) {
        notes.computeIfAbsent((begin(c) ? "B " : "E ") + c.ev + " " + c.f, x -> new ArrayList<>()).add(c);
      }
    }
    // notifications made directly by a client and not delivered to anyone
    for (Op o : h.ops) {
      if (o.m == m.ix && o.kind.equals("notify") && o.returned()) {
        notes.computeIfAbsent(o.arg, x -> new ArrayList<>());
      }
    }
    Set<Integer> touched = new LinkedHashSet<>();
    for (Op o : h.ops) {
      if (o.m == m.ix && (o.kind.equals("add") || o.kind.equals("rem"))) {
        touched.add(o.f);
      }
    }
    changes.clear();
    for (Op o : h.ops) {
      if (o.m == m.ix && (o.kind.equals("add") || o.kind.equals("rem"))) {
        changes.add(o);
      }
    }
    for (Map.Entry<String, List<Cb>> e : notes.entrySet()) {
      note(m, k, e.getKey(), e.getValue());
    }
    for (int l : touched) {
      sets(m, l, l < k);
    }
  }

  private void note(M m, int k, String key, List<Cb> cs) {
    Op direct = null;
    for (Op o : h.ops) {
      if (o.m == m.ix && o.kind.equals("notify") && o.arg.equals(key)) {
        direct = o;
      }
    }
    int lo;
    int hi;
    if (direct != null) {
      lo = direct.t0;
      hi = direct.t1;
    } else {
      Cb first = cs.get(0);
      Cb last = cs.get(cs.size() - 1);
      lo = 0;
      hi = Integer.MAX_VALUE;
      for (Cb c : h.cbs) {
        if (c.owner != m.ix || cs.contains(c) || isNote(c) && c.ev != null && c.ev.startsWith("n")) {
          continue;
        }
        if (c.task == first.task && c.t1 < first.t0) {
          lo = Math.max(lo, c.t1);
        }
        if (c.task == first.task && c.t0 > first.t0 && c.t0 < last.t0 && !c.is("FLOWPRE", "FLOWPOST")
            && c.inside == first.inside) {
          v("C12,C03", "notification-interrupted", c + " ran between the deliveries of one notification (" + key + ")");
        }
        if (c.t0 > last.t1 && c.task == first.task) {
          hi = Math.min(hi, c.t0);
        }
      }
      Op in = first.inside;
      if (in != null) {
        lo = Math.max(lo, in.t0);
        hi = Math.min(hi, in.t1);
      }
    }
    boolean stuck = direct != null && !direct.returned();
    for (Cb c : cs) {
      stuck |= c.t1 == Integer.MAX_VALUE;
    }
    Set<String> args = new LinkedHashSet<>();
    int[] n = new int[m.listeners.length];
    for (Cb c : cs) {
      n[c.listener]++;
      args.add(c.from + " " + c.ev + " " + c.to);
      if (direct != null && c.task != direct.task || c.task != cs.get(0).task) {
        v("C12", "delivery-thread", c + " was not delivered on the notifying thread");
      }
      if (c.t0 < lo || c.t1 > hi) {
        v("C12", "delivery-outside-notification", c + " was delivered outside the notification " + key);
      }
    }
    if (args.size() > 1) {
      v("C12", "different-arguments", "notification " + key + " was delivered with different arguments " + args);
    }
    for (int l = 0; l < n.length; l++) {
      // definitely registered throughout, definitely not registered throughout, or either
      Boolean reg = l < k;
      boolean amb = false;
      Op lastOp = null;
      for (Op o : changes) {
        if (o.m != m.ix || o.f != l) {
          continue;
        }
        if (o.t0 > hi) {
          continue;
        }
        if (o.t1 > lo) {
          amb = true;
        } else {
          if (lastOp != null && lastOp.t1 > o.t0 && !lastOp.kind.equals(o.kind)) {
            amb = true; // overlapping add and remove: the order is not known
          }
          if (lastOp == null || o.t1 > lastOp.t1) {
            lastOp = o;
          }
          reg = lastOp.kind.equals("add");
        }
      }
      String who = "listener L" + l + " of m" + m.ix + ", notification " + key + " (t=" + lo + ".." + hi + ")";
      if (!amb && reg && n[l] == 0 && !stuck) {
        v(h.faults.isEmpty() ? "C12" : "C12,C08", "not-delivered", who + ": registered throughout but not notified");
      } else if (!amb && !reg && n[l] > 0) {
        v("C12", "delivered-unregistered", who + ": notified although not registered");
      } else if (!amb && n[l] > 1) {
        v("C12", "delivered-twice", who + ": notified " + n[l] + " times");
      }
    }
  }

  /** linearizability of the add and remove results of one listener against a boolean */
  private void sets(M m, int l, boolean init) {
    List<Op> os = new ArrayList<>();
    for (Op o : h.ops) {
      if (o.m == m.ix && o.f == l && (o.kind.equals("add") || o.kind.equals("rem"))) {
        if (o.thrown != null) {
          v("C12", "registration-threw", o.kind + " of L" + l + " threw " + o.thrown);
          return;
        }
        if (!o.returned()) {
          return;
        }
        os.add(o);
      }
    }
    if (os.size() <= 14 && !lin(os, 0, init)) {
      StringBuilder b = new StringBuilder();
      for (Op o : os) {
        b.append(' ').append(o.kind).append('=').append(o.result).append("@").append(o.t0).append("..").append(o.t1);
      }
      v("C12", "registration-results", "results of add and remove of L" + l + " on m" + m.ix + " (initially "
          + (init ? "registered" : "not registered") + ") are not those of any order of the calls:" + b);
    }
  }

  private static boolean lin(List<Op> os, int done, boolean reg) {
    if (done == (1 << os.size()) - 1) {
      return true;
    }
    int min = Integer.MAX_VALUE;
    for (int i = 0; i < os.size(); i++) {
      if ((done & 1 << i) == 0) {
        min = Math.min(min, os.get(i).t1);
      }
    }
    for (int i = 0; i < os.size(); i++) {
      Op o = os.get(i);
      if ((done & 1 << i) == 0 && o.t0 < min) {
        boolean add = o.kind.equals("add");
        boolean ok = add != reg;
        if (Boolean.valueOf(ok).equals(o.result) && lin(os, done | 1 << i, add)) {
          return true;
        }
      }
    }
    return false;
  }
}
