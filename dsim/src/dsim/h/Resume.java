package dsim.h;

import dsim.h.Hist.Cb;
import dsim.h.MachineWorld.Fire;
import dsim.h.MachineWorld.M;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;

/** What survives a crash of the simulated process, and the continuation an uninterrupted run would have had. */
final class Resume {
  boolean finished;
  /** null: nothing was recorded, the machine has to be started from scratch */
  String state;
  final List<Map<String, Object>> rest = new ArrayList<>();
  String expected;

  Resume(MachineWorld old) {
    M m = old.ms.get(0);
    // durable: the to-state of every completed change, and which events were handled
    Set<Integer> handled = new LinkedHashSet<>();
    List<Cb> cbs = old.h.cbs;
    for (Cb c : cbs) {
      if (c.is("END") && c.thrown == null && c.t1 != Integer.MAX_VALUE) {
        if (!MachineOracle.NOOP.equals(c.to)) {
          state = c.to;
        }
        handled.add(c.f);
      } else if (c.is("UNMAPPED") && c.t1 != Integer.MAX_VALUE) {
        handled.add(c.f);
      }
    }
    if (state != null && (MachineOracle.ENDS.equals(state) || terminal(m, state))) {
      finished = true;
      return;
    }
    // the events in the order in which they were to be handled: those of the single driver
    Object[] all = J.list(old.plan, "journal").toArray();
    String s = state == null ? "s" + J.i(m.def, "init", 0) : state;
    boolean over = false;
    for (Object o : all) {
      Map<String, Object> e = new LinkedHashMap<>(J.map(o));
      int id = J.i(e, "id", -1);
      if (handled.contains(id)) {
        continue;
      }
      rest.add(e);
      if (over) {
        continue;
      }
      Integer t = MachineOracle.target(m, Integer.parseInt(s.substring(1)), J.s(e, "name", "e" + J.i(e, "e", 0)));
      if (t == null || t == -2) {
        continue;
      }
      if (t == -1) {
        s = MachineOracle.ENDS;
        over = true;
      } else {
        s = "s" + t;
        if (terminal(m, s)) {
          s = MachineOracle.ENDS;
          over = true;
        }
      }
    }
    expected = s;
  }

  static boolean terminal(M m, String s) {
    for (Object o : J.list(m.def, "terminal")) {
      if (s.equals("s" + o)) {
        return true;
      }
    }
    return false;
  }

  Map<String, Object> plan(Map<String, Object> first) {
    Map<String, Object> p = new LinkedHashMap<>(first);
    Map<String, Object> st = new HashMap<>();
    if (state == null) {
      st.put("op", "start");
    } else {
      st.put("op", "startIn");
      st.put("s", Long.parseLong(state.substring(1)));
    }
    st.put("m", 0L);
    p.put("setup", List.of(st));
    p.put("threads", List.of(new ArrayList<Object>(rest)));
    p.remove("acts");
    return p;
  }
}
