package dsim.gen;

import dsim.api.Rng;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** Generates plans: a workload, a configuration and faults, biased towards one property. Pure function of the Rng. */
public final class Gen {

  private final Rng r;
  private final String prop;
  private int id;
  private int payId = 50000;
  private final Map<String, Object> plan = new LinkedHashMap<>();
  private final List<Object> machines = new ArrayList<>();
  private final List<Object> acts = new ArrayList<>();
  private final List<Object> setup = new ArrayList<>();
  private final List<List<Object>> threads = new ArrayList<>();

  // knobs
  private int minM = 1, maxM = 1, minC = 1, maxC = 3, minOps = 1, maxOps = 4;
  private double pEnd = 0.06, pTerm = 0.15, pNoop = 0.1, pDrop = 0.12, pBound = 0.1, pUserQ = 0.1, pNested = 0.4;
  private double pFault = 0.15, pError = 0.05, pStop = 0.08, pStartRace = 0.05, pSize = 0.08, pQuery = 0.08, pHang = 0.02;
  private double pLock = 0.05, pMulti = 0.06, pNullPay = 0.1, pObj = 0.1, pSlow = 0.25, pWrap = 0.08, pStartIn = 0.1;
  private double pNoListener = 0.05, pReject = 0.04, pSerial = 0.12, pIntr = 0.04, pFine = 0.25, pFlowThrow = 0.03, pRestop = 0.2;
  private double pLazy = 0.08;
  /** one dimension is far larger than usual: 1 events, 2 states, 3 clients, 4 listeners, 5 actions, 6 machines */
  private int big;
  private boolean shortTables;

  private Gen(String prop, Rng r) {
    this.prop = prop;
    this.r = r;
  }

  /** the plan of a run of a search */
  public static Map<String, Object> plan(String prop, long seed, long index) {
    if (index % 6000 == 5 && java.util.Set.of("C01", "C02", "C03", "C05", "C08", "C09", "C17", "C20").contains(prop)) {
      return new Gen(prop, new Rng(seed)).backlog();
    }
    return plan(prop, seed);
  }

  /** a worker that is held up while tens of thousands of events are fired */
  private Map<String, Object> backlog() {
    int k = r.of(10500, 17000, 33500, 33500, 40000);
    profile();
    common();
    plan.put("fine", false);
    plan.put("maxSteps", 40000000L);
    plan.remove("payKinds");
    plan.put("ay", 0L);
    boolean bounded = prop.equals("C09") && r.p(0.5);
    List<Object> rows = l(l(0L, 0L, 1L), l(1L, 0L, 0L), l(0L, 1L, -2L));
    Map<String, Object> d = m("states", 2, "events", 2, "init", 0, "table", rows, "terminal", l(), "entry", l(0L, 0L), "exit", l(0L, 0L),
        "implicit", l(), "strategy", "default", "build", "config", "listener", "rec", "unmapped", "rec", "exec", "default", "queue", "none",
        "maxQ", bounded ? k - r.in(1, 50) : 0, "wrapped", l());
    machines.add(d);
    setup.add(m("op", "start", "m", 0));
    List<Object> in = l(m("op", "fire", "m", 0, "e", 0, "id", 1), m("op", "flood", "m", 0, "e", r.i(3), "id", 500000, "k", k),
        m("op", "size", "m", 0));
    if (prop.equals("C05") || r.p(0.25)) {
      in.add(m("op", "stop", "m", 0));
    }
    threads.add(l(m("op", "lock", "l", "flood", "do", in)));
    acts.add(m("at", "begin", "m", 0, "s", 1, "i", -1, "n", 1, "do", l(m("op", "lock", "l", "flood", "do", l()))));
    if (prop.equals("C08")) {
      acts.add(m("at", "begin", "m", 0, "s", 1, "i", -1, "n", 2, "do", l(m("op", "throw", "x", 1))));
    }
    plan.put("machines", machines);
    plan.put("setup", setup);
    plan.put("acts", acts);
    plan.put("threads", new ArrayList<Object>(threads));
    return plan;
  }

  public static Map<String, Object> plan(String prop, long seed) {
    Gen g = new Gen(prop, new Rng(seed));
    switch (prop) {
      case "C13":
      case "C14":
      case "C15":
      case "C21":
        return g.app();
      case "C16":
        return g.r.p(0.75) ? g.crash() : g.machine();
      case "C19":
        return g.r.p(0.2) ? g.app() : g.machine();
      default:
        return g.machine();
    }
  }

  static Map<String, Object> m(Object... kv) {
    Map<String, Object> m = new LinkedHashMap<>();
    for (int i = 0; i < kv.length; i += 2) {
      m.put((String) kv[i], kv[i + 1] instanceof Integer ? (Object) (long) (Integer) kv[i + 1] : kv[i + 1]);
    }
    return m;
  }

  static List<Object> l(Object... xs) {
    return new ArrayList<>(List.of(xs));
  }

  private void common() {
    plan.put("fine", r.p(pFine));
    plan.put("hash", (long) r.i(16));
    plan.put("horizon", (long) (int) r.of(60, 150, 300, 600, 1200));
    plan.put("ay", (long) (int) r.of(0, 1, 1, 2));
    if (r.p(0.15)) {
      plan.put("payKinds", true);
    }
    if (r.p(0.3)) {
      plan.put("names", (long) r.in(1, 9));
    }
  }

  private void profile() {
    // swarm: every run enables a random subset of the features
    switch (prop) {
      case "C01":
        maxC = 4;
        pStop = 0.1;
        pReject = 0.08;
        pStartRace = 0.1;
        pFault = 0.25;
        break;
      case "C02":
        minC = 2;
        maxC = 4;
        maxOps = 5;
        pSerial = 0.25;
        pNested = 0.5;
        pStop = 0.02;
        pEnd = 0.02;
        pTerm = 0.05;
        break;
      case "C03":
        pSerial = 0.35;
        pNested = 0.5;
        pSlow = 0.5;
        pStop = 0.02;
        pStartRace = 0.12;
        break;
      case "C04":
        pEnd = 0.1;
        pTerm = 0.3;
        pNoop = 0.2;
        maxOps = 6;
        pNested = 0.5;
        pStop = 0.03;
        break;
      case "C05":
        pStop = 0.6;
        pEnd = 0.25;
        pTerm = 0.4;
        pStartRace = 0.25;
        pQuery = 0.35;
        break;
      case "C06":
        pStartRace = 1;
        minC = 2;
        maxC = 4;
        maxOps = 3;
        pQuery = 0.3;
        pStop = 0.05;
        pEnd = 0.03;
        pTerm = 0.1;
        break;
      case "C07":
        pObj = 0.75;
        pNullPay = 0.15;
        pStop = 0.02;
        pDrop = 0.15;
        minC = 1;
        maxOps = 6;
        break;
      case "C08":
        pFault = 1;
        pError = 0.3;
        pFlowThrow = 0.2;
        pWrap = 0.15;
        pMulti = 0.12;
        pStop = 0.03;
        break;
      case "C09":
        pBound = 0.85;
        pLazy = 0.25;
        pUserQ = 0.3;
        pHang = 0.12;
        minC = 2;
        maxC = 4;
        maxOps = 5;
        pStop = 0.02;
        pEnd = 0.02;
        pTerm = 0.05;
        pSlow = 0.5;
        break;
      case "C10":
        pDrop = 1;
        pLazy = 0.4;
        minC = 2;
        maxC = 4;
        maxOps = 5;
        pSlow = 0.5;
        pHang = 0.05;
        pStop = 0.03;
        pEnd = 0.02;
        pTerm = 0.05;
        shortTables = true;
        break;
      case "C11":
        minM = 2;
        maxM = 3;
        minC = 2;
        pFault = 0.3;
        pStop = 0.15;
        pSize = 0.15;
        pHang = 0.08;
        break;
      case "C12":
        pMulti = 1;
        pFault = 0.4;
        pStop = 0.02;
        break;
      case "C17":
        pSize = 0.6;
        pFault = 0.4;
        pDrop = 0.2;
        pBound = 0.25;
        pUserQ = 0.2;
        pSlow = 0.4;
        break;
      case "C18":
        pWrap = 1;
        pFault = 1;
        pStop = 0.03;
        break;
      case "C19":
        pFine = 0;
        pStop = 0.2;
        pEnd = 0.15;
        pTerm = 0.25;
        pQuery = 0.4;
        pStartRace = 0.35;
        pHang = 0;
        pFault = 0.05;
        pError = 0;
        pReject = 0;
        pIntr = 0;
        maxOps = 3;
        break;
      case "C20":
        pHang = 0.3;
        pLock = 0.5;
        pBound = 0.25;
        pDrop = 0.25;
        pSlow = 0.5;
        pNested = 0.7;
        break;
      case "C16":
        pStartIn = 0.8;
        pStartRace = 0.4;
        pStop = 0.02;
        break;
      default:
    }
  }

  private int states;
  private int events;

  private Map<String, Object> machine() {
    profile();
    common();
    if (r.p(0.04) && !prop.equals("C19")) {
      big = r.p(0.06) ? 8 : prop.equals("C10") ? r.of(1, 2, 3, 5, 6, 7, 7, 7) : r.of(1, 1, 2, 3, 4, 5, 6, 7);
    }
    int n = r.in(minM, maxM);
    if (big == 6) {
      n = r.in(4, 8);
    }
    if (big == 8) {
      n = 1;
    }
    if (big == 3) {
      minC = 6;
      maxC = 12;
    }
    String share = null;
    if (n > 1) {
      share = r.of("none", "none", "sharedConfig:g", "sharedBuilder:g", "default", "factory", "exec");
    }
    boolean sameTable = r.p(0.5);
    boolean hang = r.p(pHang) && (n == 1 || "none".equals(share));
    boolean startRace = r.p(pStartRace);
    boolean multi = n == 1 && (r.p(pMulti) || big == 4);
    boolean objs = r.p(pObj);
    if (!objs && n == 1 && r.p(0.06)) {
      // events of a class of the user's own, each a new object
      plan.put("ownEvents", true);
      if (r.p(0.3)) {
        // there is one object for each
        plan.put("constants", true);
      } else if (prop.equals("C04") && r.p(0.1)) {
        plan.put("ownPay", true);
      }
    }
    if (r.p(objs ? 0.4 : 0.1)) {
      plan.put("staticEvents", true);
    }
    if (!plan.containsKey("ownPay") && r.p(0.1)) {
      // of a user's own states and events, different ones can have the same name
      plan.put("sameNames", true);
    }
    boolean faults = r.p(pFault);
    Map<String, Object> first = null;
    for (int i = 0; i < n; i++) {
      Map<String, Object> d;
      if (i > 0 && sameTable) {
        d = new LinkedHashMap<>(first);
        if (first.containsKey("statesShared")) {
          d.put("sameStates", true);
        }
      } else {
        d = table(startRace);
        if (n > 1 && sameTable && r.p(0.4)) {
          // one set of state and action objects for all the machines
          d.put("statesShared", true);
          d.remove("fresh");
        }
      }
      d.put("strategy", r.p(pDrop) && !plan.containsKey("ownPay") ? "dropdup" : "default");
      conf(d, share, i, first, multi, hang);
      if (d.containsKey("sameStates")) {
        if ("none".equals(d.get("listener"))) {
          d.put("listener", "rec");
        }
        for (String k : new String[]{"entry", "exit", "wrapped", "twice"}) {
          if (first.get(k) != null) {
            d.put(k, first.get(k));
          } else {
            d.remove(k);
          }
        }
      }
      if (!"config".equals(d.get("build"))) {
        plan.remove("ownPay");
      }
      machines.add(d);
      if (first == null) {
        first = d;
      }
    }
    // acts
    for (int i = 0; i < n; i++) {
      acts(i, d(i), startRace, faults, hang && i == 0, multi, n);
    }
    // starting
    for (int i = 0; i < n; i++) {
      if (!startRace) {
        if (r.p(pStartIn)) {
          setup.add(m("op", "startIn", "m", i, "s", liveState(d(i))));
        } else {
          setup.add(m("op", "start", "m", i));
        }
      }
    }
    int c = r.in(minC, maxC);
    for (int t = 0; t < c; t++) {
      threads.add(client(t, c, n, objs, multi));
    }
    if (startRace) {
      for (int i = 0; i < n; i++) {
        int k = 1 + (r.p(0.6) ? r.in(1, 2) : 0);
        for (int j = 0; j < k; j++) {
          List<Object> th = threads.get(r.i(threads.size()));
          Map<String, Object> o = r.p(pStartIn + 0.15) ? m("op", "startIn", "m", i, "s", r.p(0.12) && j > 0 ? 9 : liveState(d(i)))
              : m("op", "start", "m", i);
          th.add(j == 0 ? r.i(Math.min(2, th.size() + 1)) : r.i(th.size() + 1), o);
        }
      }
    }
    if (big == 1 || big == 7) {
      burst(n);
    }
    if (big == 8) {
      flood();
    }
    stops(n, startRace);
    if (r.p(pIntr)) {
      threads.get(r.i(threads.size())).add(m("op", "intr", "c", r.i(threads.size())));
    }
    if (prop.equals("C19")) {
      plan.put("weak", true);
      plan.put("stale", r.of(0.03, 0.1, 0.3, 0.6));
      plan.put("hoist", r.p(0.4));
      int polls = r.in(1, 2);
      for (int i = 0; i < polls; i++) {
        List<Object> th = l(m("op", "poll", "m", r.i(n), "want", r.of("state", "ended", "started")));
        if (r.p(0.3)) {
          th.add(0, m("op", r.of("state", "isEnded", "isStarted"), "m", 0));
        }
        threads.add(th);
      }
    }
    if (r.p(0.08)) {
      // what looks idle must be idle: no further event helps it along
      plan.put("noProbe", true);
    }
    plan.put("machines", machines);
    plan.put("setup", setup);
    plan.put("acts", acts);
    plan.put("threads", new ArrayList<Object>(threads));
    if (multi) {
      plan.put("fanout", true);
    }
    return plan;
  }

  private Map<String, Object> d(int i) {
    @SuppressWarnings("unchecked")
    Map<String, Object> d = (Map<String, Object>) machines.get(i);
    return d;
  }

  private static int n(Map<String, Object> d, String k) {
    return ((Number) d.get(k)).intValue();
  }

  private static boolean terminal(Map<String, Object> d, int s) {
    return ((List<?>) d.get("terminal")).contains((long) s);
  }

  private int liveState(Map<String, Object> d) {
    while (true) {
      int s = r.i(n(d, "states"));
      if (!terminal(d, s)) {
        return s;
      }
    }
  }

  private Map<String, Object> table(boolean startRace) {
    states = big == 2 ? r.in(5, 14) : r.in(2, 4);
    events = big == 7 ? r.in(9, 24) : big == 2 ? r.in(5, 12) : shortTables ? r.in(1, 3) : r.in(1, 4);
    int init = r.i(states);
    boolean term = r.p(pTerm);
    boolean ends = r.p(0.6);
    boolean noops = r.p(0.5);
    List<Object> terminal = new ArrayList<>();
    for (int s = 0; s < states; s++) {
      if (term && s != init && r.p(0.4)) {
        terminal.add((long) s);
      }
    }
    List<Object> rows = new ArrayList<>();
    for (int s = 0; s < states; s++) {
      if (terminal.contains((long) s)) {
        continue;
      }
      int any = 0;
      for (int e = 0; e < events; e++) {
        if (r.p(0.8) || e == events - 1 && any == 0) {
          any++;
          long t = ends && r.p(pEnd * 1.7) ? -1 : noops && r.p(pNoop * 2) ? -2 : r.i(states);
          rows.add(l((long) s, (long) e, t));
        }
      }
    }
    List<Object> en = new ArrayList<>();
    List<Object> ex = new ArrayList<>();
    for (int s = 0; s < states; s++) {
      en.add(big == 5 ? (long) r.in(0, 9) : (long) (int) r.of(0, 1, 1, 1, 2));
      ex.add(big == 5 ? (long) r.in(0, 9) : (long) (int) r.of(0, 0, 1, 1, 2));
    }
    Map<String, Object> d = m("states", states, "events", events, "init", init, "table", rows, "terminal", terminal, "entry", en,
        "exit", ex);
    List<Object> implicit = new ArrayList<>();
    for (Object t : terminal) {
      if (r.p(0.4)) {
        implicit.add(t);
      }
    }
    d.put("implicit", implicit);
    if (r.p(0.15)) {
      d.put("alias", true);
    }
    if (r.p(0.08)) {
      d.put("ownStates", true);
    }
    if (r.p(0.1)) {
      d.put("fresh", true);
    }
    if (r.p(0.1)) {
      d.put("eqActs", true);
    }
    if (r.p(0.08) && states > 1) {
      int s = r.i(states);
      if (s != init && !terminal.contains((long) s)) {
        d.put("dangling", (long) s);
        rows.removeIf(x -> ((List<?>) x).get(0).equals((long) s));
      }
    }
    return d;
  }

  private void conf(Map<String, Object> d, String share, int i, Map<String, Object> first, boolean multi, boolean hang) {
    String build = "config";
    String exec = r.p(0.6) ? "default" : "single";
    if (r.p(pSerial)) {
      exec = "serial:" + r.in(2, 3);
    } else if (r.p(pLazy)) {
      exec = "lazy:" + r.of(0, 2, 10, 40, 120);
    } else if (r.p(pReject)) {
      exec = r.p(0.5) ? "bounded-at:" + r.in(1, 5) + "," + r.in(2, 9) : "bounded:" + r.in(0, 2);
    }
    String q = "none";
    int maxQ = r.p(pBound) ? r.in(1, 3) : r.p(0.1) ? r.of(-1, -7, Integer.MIN_VALUE) : 0;
    if (r.p(pUserQ)) {
      q = r.of("clq", "lbq:" + r.in(1, 3), "flaky:" + r.in(1, 4), "lbq:50");
    }
    if (share != null) {
      switch (share) {
        case "sharedConfig:g":
          build = share;
          q = "none";
          if (i > 0) {
            maxQ = n(first, "maxQ");
            exec = (String) first.get("exec");
            d.put("threadName", first.get("threadName"));
          }
          if (exec.startsWith("bounded")) {
            exec = "default";
          }
          break;
        case "sharedBuilder:g":
        case "default":
        case "factory":
          build = share;
          d.remove("keepCtx");
          if (i > 0 && share.startsWith("sharedBuilder") && r.p(0.3)) {
            d.put("keepCtx", true);
          }
          q = "none";
          maxQ = 0;
          exec = "default";
          if (!share.equals("factory")) {
            d.put("strategy", "default");
          }
          break;
        case "exec":
          exec = "shared:a";
          break;
        default:
      }
    } else if (r.p(0.06) && !multi && !hang) {
      build = r.of("default", "factory");
      q = "none";
      maxQ = 0;
      exec = "default";
      if (build.equals("default")) {
        d.put("strategy", "default");
      }
    }
    if (hang && exec.startsWith("bounded")) {
      exec = "default";
    }
    d.put("exec", exec);
    d.put("queue", q);
    d.put("maxQ", (long) maxQ);
    if (build.contains("onfig") && maxQ == 0 && (i == 0 || !build.startsWith("shared")) && r.p(0.1)) {
      d.put("setMaxQ", true);
    }
    d.put("build", build);
    if (build.equals("config") && exec.equals("default") && r.p(0.3)) {
      d.put("threadName", r.of("proc", "my-app", "x y", "100%", "%s%n%d", "", "{}"));
    } else if (!build.startsWith("sharedConfig") || i == 0) {
      d.remove("threadName");
      if (build.startsWith("sharedConfig") && r.p(0.3)) {
        d.put("threadName", "shared-name");
      }
    }
    d.put("listener", multi ? "multi:" + r.in(1, big == 4 ? 11 : 4) : r.p(pNoListener) ? "none" : "rec");
    if (d.get("listener").equals("none")) {
      // every transition has to be observable: otherwise the processing order of events is not
      for (String k : new String[]{"entry", "exit"}) {
        @SuppressWarnings("unchecked")
        List<Object> l = new ArrayList<>((List<Object>) d.get(k));
        l.replaceAll(x -> Math.max(1L, ((Number) x).longValue()));
        d.put(k, l);
      }
    }
    if (r.p(0.1)) {
      d.put("lateListener", true);
    }
    d.put("unmapped", r.p(0.04) && !plan.containsKey("ownPay") ? "default" : "rec");
    if (build.startsWith("sharedConfig") && i > 0) {
      d.put("unmapped", first.get("unmapped"));
    }
    d.remove("wrapped");
    if (r.p(pWrap)) {
      List<Object> wr = new ArrayList<>();
      for (int s = 0; s < n(d, "states"); s++) {
        for (int k = 0; k < ((Number) ((List<?>) d.get("entry")).get(s)).intValue(); k++) {
          if (r.p(0.6)) {
            wr.add("entry:" + s + ":" + k);
          }
        }
        for (int k = 0; k < ((Number) ((List<?>) d.get("exit")).get(s)).intValue(); k++) {
          if (r.p(0.6)) {
            wr.add("exit:" + s + ":" + k);
          }
        }
      }
      d.put("wrapped", wr);
      d.remove("twice");
      if (r.p(0.2)) {
        d.put("twice", true);
      }
    }
  }

  private Map<String, Object> fire(int m, boolean nested, boolean objs) {
    Map<String, Object> d = d(m);
    int ev = unmapped && r.p(0.7) ? n(d, "events") : r.i(n(d, "events") + (r.p(0.1) ? 1 : 0));
    Map<String, Object> f = m("op", "fire", "m", m, "e", ev, "id", ++id);
    if (nested) {
      return f;
    }
    if (objs && r.p(0.7)) {
      int k = r.i(2);
      // one object per name: its event name is the one it was first used with
      f.put("obj", "o" + m + "_" + ev + "_" + k + "_" + curClient);
      f.put("pay", "obj");
    } else if (r.p(pNullPay) && !hasNull.contains(m + ":" + ev)) {
      hasNull.add(m + ":" + ev);
      if (objs && r.p(0.4)) {
        f.put("obj", "on" + m + "_" + ev);
        f.put("pay", "objNull");
      } else {
        f.put("pay", "n");
      }
    }
    return f;
  }

  private int curClient;
  private boolean unmapped;
  private final java.util.Set<String> hasNull = new java.util.LinkedHashSet<>();

  private List<Object> client(int t, int c, int n, boolean objs, boolean multi) {
    curClient = t;
    List<Object> ops = new ArrayList<>();
    int k = r.in(minOps, maxOps);
    int mine = r.p(0.7) ? t % n : -1;
    for (int i = 0; i < k; i++) {
      int m = mine >= 0 && r.p(0.8) ? mine : r.i(n);
      if (multi && r.p(0.45)) {
        int lid = r.in(1, big == 4 ? 11 : 4);
        Map<String, Object> o = m("op", r.of("add", "rem", "add", "rem", "notify"), "m", m);
        if (o.get("op").equals("notify")) {
          o.put("id", (long) ++id);
          o.put("end", r.p(0.5));
        } else {
          o.put("l", (long) lid);
        }
        ops.add(o);
        continue;
      }
      Map<String, Object> f = fire(m, false, objs);
      if (r.p(pLock)) {
        ops.add(m("op", "lock", "l", "a", "do", l(f)));
      } else {
        ops.add(f);
      }
      String pay = (String) f.get("pay");
      if (pay != null && pay.startsWith("obj") && r.p(0.6)) {
        Map<String, Object> s = m("op", "setPay", "e", ((Long) f.get("e")).intValue(), "id", ++payId);
        s.put("obj", f.get("obj"));
        ops.add(s);
      }
      if (r.p(pSize)) {
        ops.add(r.i(ops.size() + 1), m("op", "size", "m", m));
      }
      if (r.p(pQuery)) {
        ops.add(r.i(ops.size() + 1), m("op", r.of("state", "isEnded", "isStarted", "startedState", "endedState"), "m", m));
      }
      if (r.p(0.08)) {
        ops.add(m("op", "slow", "k", r.of(3, 10, 30)));
      } else if (r.p(0.05)) {
        ops.add(m("op", "sleep", "us", pause()));
      }
    }
    return ops;
  }

  /** many events in a row */
  private void burst(int n) {
    int m = r.i(n);
    Map<String, Object> d = d(m);
    int k = big == 7 ? r.of(20, 40, 60) : r.of(15, 30, 60, 120, 250);
    plan.put("fine", false);
    plan.put("maxSteps", 600000L);
    plan.put("horizon", (long) (int) r.of(300, 1200, 5000, 20000));
    boolean shared = !d.get("build").equals("config");
    if (n(d, "maxQ") > 0 && !shared && r.p(0.7)) {
      d.put("maxQ", (long) (int) r.of(8, 10, 16, 20, 32, 64, 100));
    }
    if (d.get("queue").toString().startsWith("lbq:") && !shared && r.p(0.7)) {
      d.put("queue", "lbq:" + r.of(8, 16, 33, 100));
    }
    if (d.get("exec").toString().startsWith("bounded") && !shared && r.p(0.7)) {
      d.put("exec", "bounded:" + r.of(8, 16, 33, 100));
    }
    if (big == 7 && d.get("build").equals("config") && r.p(0.7)) {
      d.put("exec", "lazy:" + r.of(120, 400));
    }
    int ts = r.in(1, 2);
    for (int t = 0; t < ts; t++) {
      int c = r.i(threads.size());
      curClient = c;
      List<Object> th = threads.get(c);
      int at = r.i(th.size() + 1);
      int ev = big != 7 && r.p(0.3) ? r.i(n(d, "events")) : -1;
      for (int i = 0; i < k / ts; i++) {
        Map<String, Object> f = fire(m, false, false);
        if (ev >= 0) {
          f.put("e", (long) ev);
          f.remove("pay");
        }
        th.add(at + i, f);
      }
    }
  }

  /** more events waiting than any reasonable default capacity, while the machine waits for a lock the firing thread holds */
  private void flood() {
    Map<String, Object> d = d(0);
    int k = r.of(300, 1100, 1100, 2100, 10500);
    plan.put("fine", false);
    plan.put("maxSteps", 6000000L);
    plan.remove("payKinds");
    if (d.get("strategy").equals("dropdup")) {
      k = Math.min(k, 1100);
    }
    if (n(d, "maxQ") > 0) {
      k = Math.min(k, 1100);
      d.put("maxQ", (long) (int) r.of(100, 1000, 1024));
    }
    if (d.get("queue").toString().startsWith("lbq:")) {
      k = Math.min(k, 1100);
      d.put("queue", "lbq:" + r.of(128, 1000));
    }
    if (d.get("exec").toString().startsWith("bounded:")) {
      k = Math.min(k, 1100);
      d.put("exec", "bounded:" + r.of(128, 1000));
    }
    List<Object> in = l(fire(0, false, false), m("op", "flood", "m", 0, "e", r.i(n(d, "events")), "id", 500000, "k", k));
    if (k > 2000 || r.p(0.2)) {
      in.add(m("op", "stop", "m", 0));
    }
    threads.get(r.i(threads.size())).add(m("op", "lock", "l", "flood", "do", in));
    Map<String, Object> p = point(0, d, false, true);
    if (p != null) {
      act(p, m("op", "lock", "l", "flood", "do", new ArrayList<Object>()));
    }
  }

  private void stops(int n, boolean startRace) {
    for (int i = 0; i < n; i++) {
      if (!r.p(pStop)) {
        continue;
      }
      int k = r.p(pRestop) ? 2 : 1;
      for (int j = 0; j < k; j++) {
        Map<String, Object> s = m("op", "stop", "m", i);
        if (r.p(0.15)) {
          acts.add(m("at", r.of("entry", "exit", "unmapped", "end"), "m", i, "s", -1, "i", -1, "n", 1, "do", l(s)));
          // only meaningful where the key matches: entry and exit acts carry a state
          Map<String, Object> a = last(acts);
          if (a.get("at").equals("entry") || a.get("at").equals("exit")) {
            a.put("s", (long) r.i(n(d(i), "states")));
            a.put("i", 0L);
          }
          if (a.get("at").equals("end")) {
            a.put("s", (long) r.i(n(d(i), "states")));
          }
        } else {
          List<Object> th = threads.get(r.i(threads.size()));
          th.add(r.i(th.size() + 1), s);
          if (r.p(0.5)) {
            th.add(m("op", r.of("isEnded", "state", "endedState"), "m", i));
          }
        }
      }
    }
  }

  @SuppressWarnings("unchecked")
  private static Map<String, Object> last(List<Object> l) {
    return (Map<String, Object>) l.get(l.size() - 1);
  }

  /** a random call-back point of machine i: at, s, i */
  /** microseconds; simulated time costs nothing, so a few pauses outlast any timeout */
  private int pause() {
    return !prop.equals("C19") && r.p(0.25) ? r.of(1500000, 11000000, 61000000, 2000000000) : r.of(20, 200, 2000);
  }

  private Map<String, Object> point(int i, Map<String, Object> d, boolean safeForFaults, boolean startRace) {
    int init = n(d, "init");
    for (int tries = 0; tries < 30; tries++) {
      String at = r.of("entry", "entry", "exit", "exit", "begin", "end", "unmapped");
      int s = r.i(n(d, "states"));
      int ix = -1;
      int inv = r.p(0.6) ? 1 : r.in(1, 3);
      switch (at) {
        case "entry":
        case "exit": {
          int k = ((Number) ((List<?>) d.get(at)).get(s)).intValue();
          if (k == 0) {
            continue;
          }
          ix = r.i(k);
          break;
        }
        case "begin":
        case "end":
          if (d.get("listener").equals("none")) {
            continue;
          }
          if (r.p(0.2)) {
            s = -1;
          }
          break;
        default:
          if (!"rec".equals(d.get("unmapped"))) {
            continue;
          }
          s = -1;
      }
      if (safeForFaults) {
        if ((at.equals("entry") || at.equals("end")) && s >= 0 && terminal(d, s)) {
          continue;
        }
        if (s == init && (at.equals("entry") || at.equals("begin") || at.equals("end"))) {
          if (startRace) {
            continue;
          }
          inv = r.in(2, 3);
        }
      }
      return m("at", at, "m", i, "s", s, "i", ix, "n", inv);
    }
    return null;
  }

  private Map<String, Object> fault(String... ops) {
    String op = r.of(ops);
    Map<String, Object> o = m("op", op);
    if (!op.equals("throwNpe") && r.p(0.6)) {
      o.put("x", (long) (op.equals("throw") ? r.in(1, 14) : op.equals("error") ? r.in(1, 5) : r.in(1, 7)));
    }
    return o;
  }

  private Map<String, Object> appError() {
    Map<String, Object> o = m("op", "appError");
    if (r.p(0.6)) {
      o.put("x", (long) (r.p(0.3) ? 12 : r.p(0.7) ? r.in(1, 14) : r.in(21, 27)));
    }
    return o;
  }

  private void act(Map<String, Object> p, Object... ops) {
    if (p != null) {
      p.put("do", l(ops));
      acts.add(p);
    }
  }

  private void acts(int i, Map<String, Object> d, boolean startRace, boolean faults, boolean hang, boolean multi, int n) {
    if (r.p(pNested)) {
      int k = r.in(1, 3);
      for (int j = 0; j < k; j++) {
        int target = n > 1 && r.p(0.3) ? r.i(n) : i;
        Map<String, Object> f = target == i || target < machines.size() ? fire(target, true, false) : fire(i, true, false);
        Map<String, Object> p = point(i, d, false, startRace);
        if (p != null && !plan.containsKey("ownEvents") && r.p(prop.equals("C07") ? 0.4 : 0.08)) {
          // the action keeps its event object and sets a payload again after firing it
          f.put("obj", "oa" + id);
          f.put("pay", "obj");
          Map<String, Object> s = m("op", "setPay", "e", ((Number) f.get("e")).intValue(), "id", ++payId);
          s.put("obj", f.get("obj"));
          act(p, f, s);
        } else if (p != null && !plan.containsKey("ownEvents") && !prop.equals("C16") && r.p(prop.equals("C07") ? 0.5 : 0.08)) {
          if (r.p(0.5)) {
            p.put("n", (long) r.in(0, 2));
            act(p, m("op", "taint"));
          } else {
            List<Object> fs = l(f);
            if (r.p(0.6)) {
              fs.add(fire(i, true, false));
            }
            act(p, m("op", "refire", "fires", fs));
          }
        } else if (p != null && r.p(0.25)) {
          act(p, f, fire(i, true, false));
        } else {
          act(p, f);
        }
      }
    }
    if (r.p(pSlow)) {
      int k = r.in(1, 3);
      for (int j = 0; j < k; j++) {
        Map<String, Object> p = point(i, d, false, startRace);
        if (p != null && r.p(0.4)) {
          p.put("n", 0L);
        }
        act(p, r.p(0.3) ? m("op", "sleep", "us", pause()) : m("op", "slow", "k", r.of(2, 5, 15, 40)));
      }
    }
    if (prop.equals("C06") && !multi && n(d, "init") >= 0 && r.p(0.2)) {
      // the initial entry itself fails
      int init = n(d, "init");
      int na = ((Number) ((List<?>) d.get("entry")).get(init)).intValue();
      if (na > 0) {
        act(m("at", "entry", "m", i, "s", init, "i", r.i(na), "n", 1), fault("throw", "throwNpe", "throwChecked"));
      }
    }
    if (faults) {
      int k = r.in(1, 3);
      for (int j = 0; j < k; j++) {
        Map<String, Object> p = point(i, d, true, startRace);
        // a listener cannot declare a checked exception, the fan-out need not contain one
        boolean atListener = p != null && (p.get("at").equals("begin") || p.get("at").equals("end"));
        if (p != null && r.p(0.15)) {
          p.put("n", 0L); // every time, except where that would hit the initial entry
          if (p.get("s").equals((long) n(d, "init")) || p.get("s").equals(-1L) && !p.get("at").equals("unmapped")) {
            p.put("n", 2L);
          }
        }
        act(p, r.p(pError) && !multi ? fault("error")
            : multi && atListener ? fault("throw", "throwNpe") : fault("throw", "throw", "throwNpe", "throwChecked"));
      }
      if (d.get("exec").toString().startsWith("bounded") && "rec".equals(d.get("unmapped")) && n(d, "maxQ") <= 0
          && d.get("queue").equals("none") && n == 1 && r.p(0.3)) {
        // one worker after the other dies while tasks are being refused
        unmapped = true;
        act(m("at", "unmapped", "m", i, "s", -1, "i", -1, "n", 0), fault("throw", "throwNpe"));
        act(m("at", "flowex", "m", i, "s", -1, "i", -1, "n", 0), fault("throw", "error"));
      } else if (r.p(d.get("exec").toString().startsWith("bounded") ? 0.5 : pFlowThrow) && n(d, "maxQ") <= 0 && d.get("queue").equals("none")) {
        act(m("at", "flowex", "m", i, "s", -1, "i", -1, "n", r.in(1, 2)), fault("throw", "error"));
      }
      if (multi) {
        int q = r.in(1, 2);
        for (int j = 0; j < q; j++) {
          int st = liveState(d);
          int inv = st == n(d, "init") ? r.in(2, 3) : r.in(1, 2);
          if (st == n(d, "init") && startRace) {
            continue;
          }
          String at = r.of("begin", "end");
          if (r.p(0.2)) {
            // the very same exception from several of them
            for (int k1 = 1; k1 <= 3; k1++) {
              act(m("at", "l" + k1 + at, "m", i, "s", st, "i", -1, "n", inv), m("op", "throw", "x", 12L));
            }
            continue;
          }
          act(m("at", "l" + r.in(1, 3) + at, "m", i, "s", st, "i", -1, "n", inv), fault("throw", "throwNpe"));
        }
      }
    }
    if (multi && r.p(0.5)) {
      // listeners changed from inside call-backs
      int q = r.in(1, 2);
      for (int j = 0; j < q; j++) {
        Map<String, Object> p = point(i, d, false, startRace);
        if (r.p(0.6)) {
          p = m("at", r.of("l1", "l2", "") + r.of("begin", "end"), "m", i, "s", r.i(n(d, "states")), "i", -1, "n", r.in(1, 2));
        }
        act(p, m("op", r.of("add", "rem"), "m", i, "l", r.in(1, 4)));
      }
    }
    if (d.get("wrapped") != null) {
      List<?> wr = (List<?>) d.get("wrapped");
      int q = r.in(1, 3);
      for (int j = 0; j < q && !wr.isEmpty(); j++) {
        String[] w = ((String) wr.get(r.i(wr.size()))).split(":");
        int s = Integer.parseInt(w[1]);
        int inv = w[0].equals("entry") && s == n(d, "init") ? r.in(2, 3) : r.in(1, 2);
        if (w[0].equals("entry") && s == n(d, "init") && startRace) {
          continue;
        }
        boolean term = terminal(d, s) && w[0].equals("entry");
        act(m("at", w[0], "m", i, "s", s, "i", Integer.parseInt(w[2]), "n", inv),
            r.p(pError) && !term ? fault("error") : fault("throw", "throwNpe", "throwChecked"));
        if (r.p(0.3)) {
          act(m("at", "handler-" + w[0], "m", i, "s", s, "i", Integer.parseInt(w[2]), "n", 1),
              r.p(0.5) || term || s == n(d, "init") ? fire(i, true, false) : fault("throw", "throwChecked"));
          if (d.containsKey("twice") && r.p(0.4) && !term && s != n(d, "init")) {
            act(m("at", "handler2-" + w[0], "m", i, "s", s, "i", Integer.parseInt(w[2]), "n", 1), fault("throw", "throwNpe"));
          }
        }
      }
    }
    if (hang) {
      Map<String, Object> p = point(i, d, true, startRace);
      act(p, m("op", "hang"));
    }
    if (r.p(pLock) && r.p(0.6) && (n(d, "maxQ") > 0 || !d.get("queue").equals("none"))) {
      // the listener told of refusals takes a lock that other firing threads hold
      act(m("at", "flowex", "m", i, "s", -1, "i", -1, "n", 0), m("op", "lock", "l", "a", "do", l(m("op", "slow", "k", 2))));
    }
    if (r.p(pLock)) {
      act(point(i, d, false, startRace), m("op", "lock", "l", "a", "do", l(m("op", "slow", "k", 3))));
    }
    if (r.p(pSize * 0.6)) {
      act(point(i, d, false, startRace), m("op", "size", "m", i));
    }
    if (r.p(pQuery * 0.4)) {
      act(point(i, d, false, startRace), m("op", r.of("state", "isEnded"), "m", i));
    }
    if (r.p(pIntr)) {
      act(point(i, d, true, startRace), m("op", "selfIntr"));
    }
  }

  // ---- crash and resume

  private Map<String, Object> crash() {
    profile();
    pTerm = 0.1;
    pEnd = 0.05;
    common();
    Map<String, Object> d = table(false);
    d.put("strategy", "default");
    d.put("exec", r.of("default", "single", "serial:2"));
    d.put("queue", "none");
    d.put("maxQ", 0L);
    d.put("build", "config");
    d.put("listener", r.p(0.3) ? "multi:1" : "rec");
    d.put("unmapped", "rec");
    machines.add(d);
    List<Object> journal = new ArrayList<>();
    int k = r.in(2, 8);
    for (int i = 0; i < k; i++) {
      journal.add(fire(0, true, false));
    }
    List<Object> th = new ArrayList<>(journal);
    th.add(0, m("op", "start", "m", 0));
    threads.add(th);
    List<Object> killer = new ArrayList<>();
    if (r.p(0.4)) {
      killer.add(m("op", "sleep", "us", r.in(1, 400)));
    } else {
      killer.add(m("op", "slow", "k", r.of(1, 5, 20, 60, 150, 300)));
    }
    killer.add(m("op", "crash"));
    threads.add(killer);
    plan.put("machines", machines);
    plan.put("setup", setup);
    plan.put("acts", acts);
    plan.put("journal", journal);
    plan.put("threads", new ArrayList<Object>(threads));
    return plan;
  }

  // ---- apps

  private Map<String, Object> app() {
    common();
    boolean exit = r.p(0.5);
    int subs = r.p(0.02) ? r.in(6, 14) : r.of(0, 1, 2, 2, 3, 3, 5);
    plan.put("kind", "app");
    plan.put("exitMode", exit);
    plan.put("subs", (long) subs);
    if (r.p(0.2)) {
      plan.put("threadName", r.of("my-app", "my-app", "100%", "%s%n%d", "", "{}"));
    }
    if (r.p(0.3)) {
      plan.put("defaultCtor", true);
    }
    if (r.p(0.3)) {
      plan.put("args", true);
    }
    if (r.p(0.2)) {
      plan.put("noSubs", true);
    }
    if (r.p(0.2)) {
      plan.put("equalSubs", true);
    }
    if (r.p(0.5)) {
      plan.put("subsList", (long) r.in(1, 3));
    }
    if (r.p(0.25)) {
      plan.put("fan", true);
    }
    if (r.p(0.25)) {
      // another app of the same process
      boolean oe = r.p(0.5);
      plan.put("otherExit", oe);
      if (r.p(0.3)) {
        plan.put("otherFails", true);
      }
      if (r.p(0.3)) {
        plan.put("sameName", true);
      }
      List<Object> os = l(m("op", "other", "do", "start"));
      List<Object> oc = new ArrayList<>();
      if (r.p(0.8)) {
        oc.add(m("op", "other", "do", "STARTED", "us", r.of(5, 50)));
      }
      oc.add(m("op", "other", "do", r.of("stop", "stop", "stop", "error")));
      if (!oe && r.p(0.7)) {
        if (r.p(0.7)) {
          oc.add(m("op", "other", "do", "STOPPED", "us", r.of(5, 50)));
        }
        oc.add(m("op", "other", "do", r.of("stop", "stop", "start")));
      }
      plan.put("other", l(os, oc));
    }
    List<Object> main = l(m("op", "appStart"));
    threads.add(main);
    boolean wild = r.p(prop.equals("C21") ? 0.7 : 0.25);
    boolean errors = r.p(prop.equals("C15") ? 0.9 : 0.15);
    boolean intr = r.p(prop.equals("C14") ? 0.35 : 0.05);
    String stop = "appStop";
    // the orderly script: start, stop, (restart, stop ...), exit
    int cycles = exit ? 1 : r.p(0.03) ? r.in(4, 9) : r.in(1, 3);
    List<Object> ctl = new ArrayList<>();
    for (int i = 0; i < cycles; i++) {
      if (i > 0) {
        ctl.add(m("op", "await", "want", "STOPPED", "us", r.of(5, 50)));
        ctl.add(m("op", "appStart"));
      }
      if (i < cycles - 1 || r.p(0.85)) {
        ctl.add(m("op", "await", "want", "STARTED", "us", r.of(5, 50)));
        if (!(intr && i == 0) || r.p(0.2)) {
          ctl.add(m("op", stop));
        } else {
          ctl.add(m("op", "intr", "c", 0));
        }
      }
    }
    if (!exit && r.p(0.7)) {
      ctl.add(m("op", "await", "want", "STOPPED", "us", r.of(5, 50)));
      ctl.add(m("op", stop));
    }
    threads.add(ctl);
    int extra = wild ? r.in(1, 3) : r.p(0.3) ? 1 : 0;
    for (int i = 0; i < extra; i++) {
      List<Object> th = new ArrayList<>();
      int k = r.in(1, 4);
      for (int j = 0; j < k; j++) {
        if (r.p(0.4)) {
          th.add(m("op", "await", "want", r.of("STARTING", "STARTED", "STOPPING", "STOPPED", "_END_"), "us", r.of(3, 20, 100), "max",
              r.of(5, 25)));
        }
        if (wild) {
          th.add(m("op", r.of("appStop", "appStop", "appStart", "state")));
        } else {
          th.add(m("op", "state"));
        }
      }
      threads.add(th);
    }
    if (wild) {
      // concurrent first starts
      if (r.p(0.3)) {
        threads.get(threads.size() - 1).add(0, m("op", "appStart"));
      }
    }
    if (errors) {
      int k = r.in(1, 2);
      for (int i = 0; i < k; i++) {
        int w = r.i(3);
        if (w == 0 || subs == 0) {
          List<Object> th = new ArrayList<>();
          if (r.p(0.7)) {
            th.add(m("op", "await", "want", r.of("STARTING", "STARTED", "STOPPING", "STOPPED", "_END_"), "us", r.of(3, 20, 100)));
          }
          th.add(appError());
          threads.add(th);
        } else if (w == 1) {
          acts.add(m("at", "substart", "s", r.i(subs), "n", r.in(1, cycles), "do", l(fault("throw", "throwChecked"))));
        } else {
          acts.add(m("at", "substop", "s", r.i(subs), "n", r.in(0, cycles), "do", l(fault("throw", "throwChecked"))));
        }
      }
      if (subs > 0 && r.p(0.15)) {
        acts.add(m("at", r.of("substart", "substop"), "s", r.i(subs), "n", 1, "do", l(appError())));
      }
    }
    if (intr && r.p(0.4)) {
      List<Object> th = new ArrayList<>();
      if (r.p(0.8)) {
        th.add(m("op", "await", "want", r.of("STARTED", "STARTED", "STOPPED", "STOPPED", "_END_", "STOPPING"), "us",
            r.of(3, 20, 100)));
      }
      th.add(m("op", "intr", "c", 0));
      threads.add(th);
    }
    if (subs > 0 && r.p(0.5)) {
      int k = r.in(1, 3);
      for (int i = 0; i < k; i++) {
        Map<String, Object> o = r.p(0.4) ? m("op", "sleep", "us", pause()) : m("op", "slow", "k", r.of(3, 10, 40));
        acts.add(m("at", r.of("substart", "substop"), "s", r.i(subs), "n", r.in(0, 2), "do", l(o)));
      }
    }
    if (r.p(0.3)) {
      acts.add(m("at", r.of("begin-", "end-") + r.of("STARTING", "STARTED", "STOPPING", "STOPPED", "_END_"), "s", -1, "n", r.in(0, 2),
          "do", l(m("op", "slow", "k", r.of(3, 10, 40)))));
    }
    if (r.p(wild ? 0.4 : 0.1)) {
      // lifecycle calls from inside call-backs
      String at = r.of("begin-", "end-") + r.of("STARTING", "STARTED", "STOPPING", "STOPPED", "_END_");
      boolean sub = subs > 0 && r.p(0.5);
      acts.add(m("at", sub ? r.of("substart", "substop") : at, "s", sub ? r.i(subs) : -1, "n", r.in(0, 2), "do",
          l(m("op", r.of("appStop", "appStart", "state")))));
    }
    if (subs > 0 && r.p(0.1)) {
      acts.add(m("at", r.of("substart", "substop"), "s", r.i(subs), "n", r.in(0, 2), "do", l(m("op", "selfIntr"))));
    }
    if (prop.equals("C19")) {
      plan.put("fine", false);
      plan.put("weak", true);
      plan.put("stale", r.of(0.03, 0.1, 0.3, 0.6));
      plan.put("hoist", r.p(0.4));
      threads.add(l(m("op", "poll")));
    }
    plan.put("acts", acts);
    plan.put("threads", new ArrayList<Object>(threads));
    return plan;
  }
}
