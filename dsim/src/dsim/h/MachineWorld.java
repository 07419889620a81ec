package dsim.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.HandleExceptionAction;
import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventProcessingStrategy;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import dsim.h.Hist.Cb;
import dsim.h.Hist.Op;
import dsim.rt.Sim;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;
import java.util.Queue;
import java.util.Set;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;
import java.util.concurrent.LinkedBlockingQueue;
import java.util.concurrent.ThreadPoolExecutor;
import java.util.concurrent.TimeUnit;
import java.util.function.BiConsumer;

/** Interprets a machine plan against the real code: builds the machines, runs the clients, records what happens. */
@SuppressWarnings({"unchecked", "rawtypes"})
public class MachineWorld {

  public static final class Payload {
    public final int id;

    Payload(int id) {
      this.id = id;
    }

    @Override
    public String toString() {
      return "P" + id;
    }
  }

  /** says it equals every other one */
  public static final class SamePayload {
    @Override
    public boolean equals(Object o) {
      return o instanceof SamePayload;
    }

    @Override
    public int hashCode() {
      return 1;
    }
  }

  private final List<Object[]> payloads = new ArrayList<>();

  /** what an event is fired with: recognised by its identity */
  private Object payload(int id) {
    if (!J.b(plan, "payKinds")) {
      return new Payload(id);
    }
    Object p;
    switch (Math.floorMod(id, 11)) {
      case 0:
        p = new String("");
        break;
      case 1:
        p = new Integer(0);
        break;
      case 2:
        p = new Boolean(false);
        break;
      case 3:
        p = new ArrayList<>();
        break;
      case 4:
        p = new Object[0];
        break;
      case 5:
        p = new SamePayload();
        break;
      case 6:
        p = new NamedStateEvent<>("e0");
        break;
      case 7:
        p = new Double(Double.NaN);
        break;
      case 8:
        p = new InjectedException("payload");
        break;
      case 9:
        p = new String("null");
        break;
      default:
        p = new Payload(id);
    }
    payloads.add(new Object[]{p, id});
    return p;
  }

  private int payloadId(Object p) {
    if (p instanceof Payload) {
      return ((Payload) p).id;
    }
    for (int i = 0; i < payloads.size(); i++) {
      Object[] x = payloads.get(i);
      if (x[0] == p) {
        return (Integer) x[1];
      }
    }
    return -99;
  }

  public static final class Fire {
    public int id;
    public int m;
    public String ev;
    public boolean nullPayload;
    public Op op;
    public boolean probe;
    /** one outcome only is known for events fired through an object whose payload changes */
    public String note;
  }

  public static final class Ctx {
    final int m;

    Ctx(int m) {
      this.m = m;
    }
  }

  public static final class InjectedException extends RuntimeException {
    InjectedException(String s) {
      super(s, null, false, false);
    }
  }

  public static final class CheckedInjected extends Exception {
    CheckedInjected(String s) {
      super(s, null, false, false);
    }
  }

  public static final class InjectedError extends Error {
    InjectedError(String s) {
      super(s, null, false, false);
    }
  }

  public static final class M {
    public int ix;
    public Map<String, Object> def;
    public StateMachine sm;
    public State[] states;
    public int nStates;
    public int ctx;
    public boolean recListener;
    public boolean recUnmapped;
    public boolean recFlow;
    public MultiConsumerStateMachineListener multi;
    public Listener[] listeners = new Listener[12];
    public int[][] nAct;
    public boolean dropDup;
    public int maxQ;
    public boolean refusing;
    public String exec;
    public String threadName;
    public Throwable buildFailure;
    // what was observed once the run had become quiet
    public String finalState;
    public boolean finalStarted;
    public boolean finalEnded;
    public int finalSize;
    public int idleSize;
    /** when the executor was running a task of this machine, where the executor tells */
    public List<int[]> taskRuns;
  }

  public final Map<String, Object> plan;
  public final Hist h;
  public final List<M> ms = new ArrayList<>();
  public final Map<Integer, Fire> fires = new HashMap<>();
  private final Map<String, Integer> nullFires = new HashMap<>();
  private final Map<String, Integer> counts = new HashMap<>();
  private final Map<String, List<Map<String, Object>>> acts = new HashMap<>();
  private final Map<String, StateEvent> objects = new HashMap<>();
  public final List<Sim.Task> clients = new ArrayList<>();
  private final Map<Integer, Sim.Task> clientByIx = new HashMap<>();
  private final Map<String, Object> groups = new HashMap<>();
  private final Map<String, Object> locks = new HashMap<>();
  private final int ay;
  public boolean hung;
  public int quietAt = Integer.MAX_VALUE;
  public final List<String> hungMachines = new ArrayList<>();

  public MachineWorld(Map<String, Object> plan, Hist h) {
    this.plan = plan;
    this.h = h;
    this.ay = J.i(plan, "ay", 1);
    names();
    for (Object o : J.list(plan, "acts")) {
      Map<String, Object> a = J.map(o);
      acts.computeIfAbsent(key(J.s(a, "at", ""), J.i(a, "m", 0), J.i(a, "s", -1), J.i(a, "i", -1)),
          k -> new ArrayList<>()).add(a);
    }
  }

  // ---- names: the plan speaks of s0, s1, e0 and so on, the code under test sees other names

  private static final String[][] STATE_NAMES = {
      {}, {"AaAa", "AaBB", "BBAa", "BBBB"}, {"open", "Open", "OPEN", "oPEN"}, {"s", "s ", " s", ""}, {"a", "ab", "abc", "b"},
      {"\u00e9", "e\u0301", "\u0130", "i"}, {"_END", "_END_ ", "_end_", "END"}, {"1", "01", "1.0", "-1"},
      {"e0", "e1", "e2", "e3"}, {"[x]", "{}", "%s", "$1"}};
  private static final String[][] EVENT_NAMES = {
      {}, {"BBBBAa", "AaAaAa", "AaAaBB", "BBAaBB", "AaBBBB"}, {"go", "Go", "GO", "gO", "g o"}, {"e", "", " ", "e ", " e"},
      {"bc", "c", "b", "cc", "bcc"}, {"\u00df", "ss", "SS", "\ud83d\ude00", "\u00e9"},
      {"_immediate", "_IMMEDIATE_", "immediate", "_END_", "_NOOP_"}, {"1", "01", "1.0", "-1", "+1"}, {"s0", "s1", "s2", "s3", "probe2"},
      {"{}", "%d", "\\", "\n", "null"}};

  private int scheme;
  private final Map<String, String> stateCanon = new HashMap<>();
  private final Map<String, String> eventCanon = new HashMap<>();

  private void names() {
    scheme = J.i(plan, "names", 0);
    for (int i = 0; i < 4; i++) {
      stateCanon.put(stateName(i), "s" + i);
    }
    for (int i = 0; i < 5; i++) {
      eventCanon.put(eventName("e" + i), "e" + i);
    }
  }

  /** always a fresh string: equal names need not be the same object */
  private String stateName(int i) {
    return new String(i < STATE_NAMES[scheme].length ? STATE_NAMES[scheme][i] : "s" + i);
  }

  private String eventName(String canonical) {
    if (canonical.length() == 2 && canonical.charAt(0) == 'e') {
      int i = canonical.charAt(1) - '0';
      if (i >= 0 && i < EVENT_NAMES[scheme].length) {
        return new String(EVENT_NAMES[scheme][i]);
      }
    }
    return new String(canonical);
  }

  private String st(String name) {
    return name == null ? null : stateCanon.getOrDefault(name, name);
  }

  private String ev(String name) {
    return name == null ? null : eventCanon.getOrDefault(name, name);
  }

  /** the plan's name of a state; names of a user's own states need not differ when the states do */
  private String st(State s) {
    return s instanceof OwnState ? ((OwnState) s).canonical : st(s.getName());
  }

  private String ev(StateEvent e) {
    return e instanceof OwnEvent ? ((OwnEvent) e).canonical : e instanceof ConstantEvent ? ((ConstantEvent) e).canonical : ev(e.getName());
  }

  private StateEvent event(String canonical) {
    if (J.b(plan, "constants")) {
      return objects.computeIfAbsent("constant " + canonical, k -> new ConstantEvent(canonical, ownName(canonical, eventName(canonical))));
    }
    return J.b(plan, "ownEvents") ? new OwnEvent(canonical, ownName(canonical, eventName(canonical))) : new NamedStateEvent(eventName(canonical));
  }

  private String ownName(String canonical, String name) {
    return J.b(plan, "sameNames") ? new String("same") : name;
  }

  /** a user's own kind of event, of which there is one object each, as with an enum; carries no payload */
  static final class ConstantEvent implements StateEvent {
    private final String canonical;
    private final String name;

    ConstantEvent(String canonical, String name) {
      this.canonical = canonical;
      this.name = name;
    }

    @Override
    public String getName() {
      return name;
    }

    @Override
    public Object getPayload() {
      return null;
    }

    @Override
    public void setPayload(Object p) {
      throw new UnsupportedOperationException();
    }

    @Override
    public int hashCode() {
      return name.hashCode();
    }
  }

  /** a user's own kind of event */
  static final class OwnEvent implements StateEvent {
    private final String canonical;
    private final String name;
    private Object payload;
    int fire = -1;

    OwnEvent(String canonical, String name) {
      this.canonical = canonical;
      this.name = name;
    }

    @Override
    public String getName() {
      return name;
    }

    @Override
    public Object getPayload() {
      return payload;
    }

    @Override
    public void setPayload(Object p) {
      payload = p;
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof OwnEvent && ((OwnEvent) o).canonical.equals(canonical);
    }

    @Override
    public int hashCode() {
      return name.hashCode();
    }
  }

  /** a user's own implementation of State */
  static final class OwnState implements State {
    private final String canonical;
    private final String name;
    private final List<StateAction> entry = new java.util.LinkedList<>();
    private final List<StateAction> exit = new java.util.LinkedList<>();

    OwnState(String canonical, String name) {
      this.canonical = canonical;
      this.name = name;
    }

    @Override
    public void onEntry(StateEvent e, StateMachine sm) {
      for (StateAction a : entry) {
        a.execute(e, sm);
      }
    }

    @Override
    public void onExit(StateEvent e, StateMachine sm) {
      for (StateAction a : exit) {
        a.execute(e, sm);
      }
    }

    @Override
    public void appendEntryActions(StateAction... a) {
      entry.addAll(List.of(a));
    }

    @Override
    public void appendExitActions(StateAction... a) {
      exit.addAll(List.of(a));
    }

    @Override
    public String getName() {
      return name;
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof OwnState && ((OwnState) o).canonical.equals(canonical);
    }

    @Override
    public int hashCode() {
      return name.hashCode();
    }

    @Override
    public String toString() {
      return name;
    }
  }

  private State newState(M m, int s) {
    return J.b(m.def, "ownStates") ? new OwnState("s" + s, ownName("s" + s, stateName(s))) : new NamedState(stateName(s));
  }

  /** an equal but different object, if the plan says so */
  private State alias(M m, int s) {
    return J.b(m.def, "alias") ? newState(m, s) : m.states[s];
  }

  private static String key(String at, int m, int s, int i) {
    return at + ":" + m + ":" + s + ":" + i;
  }

  // ---- building

  public void build() {
    int n = 0;
    for (Object o : J.list(plan, "machines")) {
      M m = new M();
      m.ix = n++;
      m.def = J.map(o);
      if (J.b(m.def, "sameStates") && m.ix > 0) {
        // what belongs to the states is that of the machine they were made for
        m.def = new HashMap<>(m.def);
        for (String k : new String[]{"entry", "exit", "wrapped", "twice", "eqActs"}) {
          m.def.put(k, ms.get(0).def.get(k));
        }
      }
      ms.add(m);
      build(m);
    }
  }

  private void build(M m) {
    Map<String, Object> d = m.def;
    m.nStates = J.i(d, "states", 2);
    m.dropDup = J.s(d, "strategy", "default").equals("dropdup");
    m.maxQ = J.i(d, "maxQ", 0);
    m.exec = J.s(d, "exec", "default");
    m.threadName = J.s(d, "threadName", null);
    String build = J.s(d, "build", "config");
    m.recListener = !J.s(d, "listener", "rec").equals("none");
    m.recUnmapped = build.startsWith("config") || build.startsWith("sharedConfig");
    m.recFlow = m.recUnmapped;
    if (J.s(d, "unmapped", "rec").equals("default")) {
      m.recUnmapped = false;
    }
    m.refusing = !J.s(d, "queue", "none").equals("none") && !J.s(d, "queue", "none").equals("clq");
    GenericStateMachine.Builder b;
    if (build.startsWith("sharedBuilder")) {
      b = (GenericStateMachine.Builder) groups.computeIfAbsent(build, k -> new GenericStateMachine.Builder());
    } else {
      b = new GenericStateMachine.Builder();
    }
    m.ctx = m.ix;
    if (J.b(d, "keepCtx") && m.ix > 0) {
      // the builder still has what it was given for the machine before
      m.ctx = ms.get(m.ix - 1).ctx;
    } else {
      b.setContext(new Ctx(m.ix));
    }
    boolean late = J.b(d, "lateListener");
    if (!late) {
      b.setStateMachineListener(listener(m));
    }
    if (build.startsWith("config")) {
      b.setEventProcessingStrategy(strategy(m, config(m)));
    } else if (build.startsWith("sharedConfig")) {
      EventProcessingStrategyFactory.Config c = (EventProcessingStrategyFactory.Config) groups.get(build);
      if (c == null) {
        c = config(m);
        groups.put(build, c);
      }
      b.setEventProcessingStrategy(strategy(m, c));
    } else if (build.equals("factory")) {
      b.setEventProcessingStrategy(m.dropDup ? EventProcessingStrategyFactory.createDropDuplicateStrategy()
          : EventProcessingStrategyFactory.createDefaultStrategy());
    }
    StateMachine sm = b.build();
    m.sm = sm;
    if (late) {
      sm.setStateMachineListener(listener(m));
    }
    m.states = new State[m.nStates];
    m.nAct = new int[m.nStates][2];
    List<Object> en = J.list(d, "entry");
    List<Object> ex = J.list(d, "exit");
    for (int s = 0; s < m.nStates; s++) {
      m.nAct[s][0] = s < en.size() ? ((Number) en.get(s)).intValue() : 1;
      m.nAct[s][1] = s < ex.size() ? ((Number) ex.get(s)).intValue() : 1;
      m.states[s] = J.b(d, "sameStates") && m.ix > 0 ? ms.get(0).states[s] : withActions(m, s);
    }
    int init = J.i(d, "init", 0);
    boolean[] used = new boolean[m.nStates];
    boolean markedInit = false;
    sm.initialSate(m.states[init]);
    // the initial state is already being defined: give it its first mapping
    List<Object> table = J.list(d, "table");
    List<List<Object>> rows = new ArrayList<>();
    for (Object o : table) {
      rows.add((List<Object>) o);
    }
    for (int pass = 0; pass < 2; pass++) {
      for (List<Object> r : rows) {
        int s = ((Number) r.get(0)).intValue();
        if ((s == init) != (pass == 0)) {
          continue;
        }
        int e = ((Number) r.get(1)).intValue();
        int t = ((Number) r.get(2)).intValue();
        if (s == init && !markedInit) {
          markedInit = true;
        } else {
          sm.when(alias(m, s));
        }
        used[s] = true;
        // the event object in the table may be the very one that is fired later
        StateMachine q = sm.receives(!J.b(plan, "staticEvents") || J.b(plan, "ownEvents") ? event("e" + e)
            : objects.computeIfAbsent("o" + (J.b(d, "statesShared") ? 0 : m.ix) + "_" + e + "_0_0", x -> event("e" + e)));
        if (t == -1) {
          q.itEnds();
        } else if (t == -2) {
          q.itDoesNotTransition();
        } else {
          q.itTransitionsTo(target(m, t));
        }
      }
    }
    for (Object o : J.list(d, "terminal")) {
      int s = ((Number) o).intValue();
      if (!J.list(d, "implicit").contains((long) s)) {
        // an implicit one is only ever mentioned as a target
        sm.when(alias(m, s)).itEnds();
      }
      used[s] = true;
    }
    int dangling = J.i(d, "dangling", -1);
    if (dangling >= 0) {
      // mentioned, but nothing is received in it
      sm.when(alias(m, dangling));
    }
  }

  private State withActions(M m, int s) {
    State st = newState(m, s);
    for (int i = 0; i < m.nAct[s][0]; i++) {
      st.appendEntryActions(action(m, "ENTRY", s, i));
    }
    for (int i = 0; i < m.nAct[s][1]; i++) {
      st.appendExitActions(action(m, "EXIT", s, i));
    }
    return st;
  }

  /** the state object a definition or a resumption names: the plan may want a different, equal one each time */
  private State target(M m, int s) {
    return J.b(m.def, "fresh") ? withActions(m, s) : m.states[s];
  }

  private EventProcessingStrategy strategy(M m, EventProcessingStrategyFactory.Config c) {
    return m.dropDup ? EventProcessingStrategyFactory.createDropDuplicateStrategy(c)
        : EventProcessingStrategyFactory.createDefaultStrategy(c);
  }

  private EventProcessingStrategyFactory.Config config(M m) {
    EventProcessingStrategyFactory.Config c = new EventProcessingStrategyFactory.Config();
    if (m.threadName != null) {
      c.withThreadName(m.threadName);
    }
    if (m.maxQ != 0 || J.b(m.def, "setMaxQ")) {
      c.withMaxQueueSize(m.maxQ);
    }
    if (m.recUnmapped) {
      c.withUnmappedEventHandler((BiConsumer<StateEvent, StateMachine>) (e, sm) -> unmapped(m, e, sm));
    }
    if (m.recFlow) {
      c.withUnexpectedFlowListener(new Flow(m));
    }
    ExecutorService x = executor(m);
    if (x != null) {
      c.withExecutor(x);
    }
    String q = J.s(m.def, "queue", "none");
    if (q.equals("clq")) {
      c.withEventQueue(new ConcurrentLinkedQueue());
    } else if (q.startsWith("lbq:")) {
      c.withEventQueue((Queue) new LinkedBlockingQueue(Integer.parseInt(q.substring(4))));
    } else if (q.startsWith("flaky:")) {
      int k = Integer.parseInt(q.substring(6));
      c.withEventQueue((Queue) new ConcurrentLinkedQueue() {
        int n;

        @Override
        public boolean offer(Object o) {
          if (++n == k) {
            h.fault("queue-refuses-offer");
            return false;
          }
          return super.offer(o);
        }
      });
    }
    return c;
  }

  private ExecutorService executor(M m) {
    String x = m.exec;
    if (x.equals("default")) {
      return null;
    }
    if (x.startsWith("shared:")) {
      ExecutorService e = (ExecutorService) groups.get(x);
      if (e == null) {
        e = Executors.newSingleThreadExecutor();
        groups.put(x, e);
      }
      return e;
    }
    if (x.equals("single")) {
      return Executors.newSingleThreadExecutor();
    }
    if (x.startsWith("bounded-at:")) {
      // a pool that is saturated by others at times
      String[] at = x.substring(11).split(",");
      return new ThreadPoolExecutor(1, 1, 0, TimeUnit.SECONDS, new LinkedBlockingQueue<>()) {
        private int n;

        @Override
        public void execute(Runnable r) {
          String k = "" + ++n;
          for (String a : at) {
            if (a.equals(k)) {
              h.fault("executor-rejects");
              throw new java.util.concurrent.RejectedExecutionException("injected");
            }
          }
          super.execute(r);
        }
      };
    }
    if (x.startsWith("bounded:")) {
      int cap = Integer.parseInt(x.substring(8));
      return new ThreadPoolExecutor(1, 1, 0, TimeUnit.SECONDS,
          cap == 0 ? new java.util.concurrent.SynchronousQueue<>() : new LinkedBlockingQueue<>(cap)) {
        @Override
        public void execute(Runnable r) {
          try {
            super.execute(r);
          } catch (RuntimeException e) {
            h.fault("executor-rejects");
            throw e;
          }
        }
      };
    }
    if (x.startsWith("serial:")) {
      m.taskRuns = new ArrayList<>();
      return new SerialExecutor(Integer.parseInt(x.substring(7)), r -> () -> observed(m, r, 0));
    }
    if (x.startsWith("lazy:")) {
      // a pool whose worker is slow to begin with its tasks
      int delay = Integer.parseInt(x.substring(5));
      m.taskRuns = new ArrayList<>();
      return new ThreadPoolExecutor(1, 1, 0, TimeUnit.SECONDS, new LinkedBlockingQueue<>()) {
        @Override
        public void execute(Runnable r) {
          super.execute(() -> observed(m, r, delay));
        }
      };
    }
    throw new IllegalArgumentException(x);
  }

  private void observed(M m, Runnable r, int delay) {
    if (delay > 0) {
      h.probe("slow-executor");
      for (int i = 0; i < delay; i++) {
        Sim.y();
      }
    }
    int[] run = {++h.t, Integer.MAX_VALUE};
    m.taskRuns.add(run);
    try {
      r.run();
    } finally {
      if (!Sim.aborted) {
        run[1] = ++h.t;
      }
    }
  }

  private StateMachineListener listener(M m) {
    String l = J.s(m.def, "listener", "rec");
    if (l.equals("none")) {
      return null;
    }
    for (int i = 0; i < m.listeners.length; i++) {
      m.listeners[i] = new Listener(m, i);
    }
    if (l.startsWith("multi:")) {
      int k = Integer.parseInt(l.substring(6));
      StateMachineListener[] ls = new StateMachineListener[k];
      System.arraycopy(m.listeners, 0, ls, 0, k);
      m.multi = new MultiConsumerStateMachineListener(ls);
      return m.multi;
    }
    return m.listeners[0];
  }

  // ---- call-backs

  private int arg(StateMachine sm) {
    for (M m : ms) {
      if (m.sm == sm) {
        return m.ix;
      }
    }
    return -1;
  }

  private final Map<Integer, Object[]> taints = new HashMap<>();

  /** the event of a call-back, when it is one of the library's and one that was fired */
  private static StateEvent given(Cb in) {
    StateEvent e = in == null ? null : (StateEvent) in.event;
    return e instanceof NamedStateEvent && in.f >= 0 && in.ev != null && in.ev.matches("e\\d+") ? e : null;
  }

  /** the events call-backs were given, and what they were when first given, as kept by a user for later */
  private final Map<StateEvent, Object[]> kept = new java.util.IdentityHashMap<>();
  private final List<Object[]> keptInOrder = new ArrayList<>();

  private void keep(StateEvent e) {
    if (e instanceof NamedStateEvent && !kept.containsKey(e) && kept.size() < 500) {
      Object[] k = {e, e.getName(), e.getPayload()};
      kept.put(e, k);
      keptInOrder.add(k);
    }
  }

  /** the harness itself is about to change the event, or might */
  private void forget(StateEvent e) {
    Object[] k = kept.get(e);
    if (k != null) {
      k[0] = null;
    } else {
      kept.put(e, new Object[1]);
    }
  }

  /** what has become of the events that call-backs were given: null, or what has changed */
  public String keptChanged() {
    for (Object[] k : keptInOrder) {
      StateEvent e = (StateEvent) k[0];
      if (e != null && (k[2] != e.getPayload() || !k[1].equals(e.getName()))) {
        return k[1] + " with payload " + (k[2] == null ? "null" : "P" + payloadId(k[2])) + " has become " + e.getName()
            + " with payload " + (e.getPayload() == null ? "null" : "P" + payloadId(e.getPayload()));
      }
    }
    return null;
  }

  private void ident(Cb c, int owner, StateEvent e) {
    c.ev = e == null ? null : ev(e);
    c.event = e;
    keep(e);
    Object p = e == null ? null : e.getPayload();
    Object[] taint = p instanceof Payload ? taints.get(((Payload) p).id) : null;
    if (taint != null && taint[0] == e) {
      // set by an action on the very event it was given
      c.f = (Integer) taint[1];
      c.payloadNull = (Boolean) taint[2];
    } else if (p != null) {
      c.f = payloadId(p);
    } else if (e instanceof OwnEvent) {
      c.payloadNull = true;
      c.f = ((OwnEvent) e).fire;
    } else {
      c.payloadNull = true;
      Integer f = nullFires.get(owner + ":" + c.ev);
      c.f = f == null ? -1 : f;
    }
  }

  private String curWeak(StateMachine sm) {
    State s = sm == null ? null : sm.getCurrentState();
    return s == null ? null : st(s);
  }

  /** runs the planned behaviour of a call-back, between its recorded begin and end */
  private void body(Cb c, String at, int m, int s, int i) {
    body(c, at, m, s, i, false);
  }

  private Exception body(Cb c, String at, int m, int s, int i, boolean checkedOk) {
    h.begin(c);
    Op hidden = h.swapOpen(null);
    Throwable th = null;
    try {
      for (int k = 0; k < ay; k++) {
        Sim.y();
      }
      String key = key(at, m, s, i);
      List<Map<String, Object>> as = acts.get(key);
      if (as != null && !h.runaway()) {
        int n = counts.merge(key, 1, Integer::sum);
        for (Map<String, Object> a : as) {
          int want = J.i(a, "n", 0);
          if (want == 0 || want == n) {
            for (Object o : J.list(a, "do")) {
              op(J.map(o), c);
            }
          }
        }
      }
    } catch (Sim.Abort e) {
      throw e;
    } catch (Throwable e) {
      th = e;
      throw e;
    } finally {
      h.swapOpen(hidden);
      h.end(c, th);
    }
    return null;
  }

  /** the machine an action works for: states, and so their actions, can be shared by machines */
  private M owner(M m, StateMachine sm) {
    int a = J.b(m.def, "statesShared") ? arg(sm) : -1;
    return a < 0 ? m : ms.get(a);
  }

  private StateAction action(M m0, String type, int s, int i) {
    String wrap = wrapOf(m0, type, s, i);
    StateAction a = (e, sm) -> {
      M m = owner(m0, sm);
      Cb c = new Cb();
      c.type = type;
      c.owner = m.ix;
      c.arg = arg(sm);
      c.s = s;
      c.i = i;
      ident(c, m.ix, e);
      c.cur = curWeak(sm);
      Object x = sm.getContext();
      c.ctxBad = !(x instanceof Ctx) || ((Ctx) x).m != m.ctx;
      body(c, type.toLowerCase(), m.ix, s, i);
    };
    if (wrap == null) {
      return J.b(m0.def, "eqActs") ? new EqualAction(a) : a;
    }
    StateAction once = new HandleExceptionAction(a, (e, sm, ex) -> handler(owner(m0, sm), type, "", s, i, e, sm, ex));
    return !J.b(m0.def, "twice") ? once
        : new HandleExceptionAction(once, (e, sm, ex) -> handler(owner(m0, sm), type, "^", s, i, e, sm, ex));
  }

  private void handler(M m, String type, String level, int s, int i, StateEvent e, StateMachine sm, Exception ex) {
    Cb c = new Cb();
    c.type = "HANDLER";
    c.owner = m.ix;
    c.arg = arg(sm);
    c.s = s;
    c.i = i;
    c.from = type + level;
    c.to = "";
    ident(c, m.ix, e);
    c.exArg = ex;
    body(c, "handler" + (level.isEmpty() ? "-" : "2-") + type.toLowerCase(), m.ix, s, i);
  }

  /** all of a state's actions claim to be equal */
  static final class EqualAction implements StateAction {
    private final StateAction a;

    EqualAction(StateAction a) {
      this.a = a;
    }

    @Override
    public void execute(StateEvent e, StateMachine sm) {
      a.execute(e, sm);
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof EqualAction;
    }

    @Override
    public int hashCode() {
      return 3;
    }
  }

  private String wrapOf(M m, String type, int s, int i) {
    for (Object o : J.list(m.def, "wrapped")) {
      if (o.equals(type.toLowerCase() + ":" + s + ":" + i)) {
        return "w";
      }
    }
    return null;
  }

  private void unmapped(M m, StateEvent e, StateMachine sm) {
    Cb c = new Cb();
    c.type = "UNMAPPED";
    c.arg = arg(sm);
    c.owner = ownerOf(m, c.arg);
    ident(c, c.owner, e);
    fixOwner(c);
    c.cur = curWeak(sm);
    body(c, "unmapped", m.ix, -1, -1);
  }

  private int ownerOf(M m, int arg) {
    return J.s(m.def, "build", "config").startsWith("shared") && arg >= 0 ? arg : m.ix;
  }

  /** handlers shared by several machines belong to the machine the event was fired at */
  private void fixOwner(Cb c) {
    Fire f = fires.get(c.f);
    if (f != null && J.s(ms.get(f.m).def, "build", "config").startsWith("shared")) {
      c.owner = f.m;
    }
  }

  final class Listener implements StateMachineListener {
    final M m;
    final int id;

    Listener(M m, int id) {
      this.m = m;
      this.id = id;
    }

    private void note(String type, State from, StateEvent e, State to) {
      Cb c = new Cb();
      c.type = (id == 0 ? "" : "L") + type;
      c.owner = m.ix;
      c.listener = id;
      c.from = from == null ? null : st(from);
      c.to = to == null ? null : st(to);
      ident(c, m.ix, e);
      int s = c.to != null && c.to.startsWith("s") ? Integer.parseInt(c.to.substring(1)) : -1;
      body(c, (id == 0 ? "" : "l" + id) + type.toLowerCase(), m.ix, s, -1);
    }

    @Override
    public void onStateChangeBegin(State from, StateEvent e, State to) {
      note("BEGIN", from, e, to);
    }

    @Override
    public void onStateChangeEnd(State from, StateEvent e, State to) {
      note("END", from, e, to);
    }
  }

  final class Flow implements UnexpectedFlowListener {
    final M m;

    Flow(M m) {
      this.m = m;
    }

    private void note(String type, StateEvent e, StateMachine sm, Thread t, Exception ex) {
      Cb c = new Cb();
      c.type = type;
      c.arg = arg(sm);
      c.owner = ownerOf(m, c.arg);
      ident(c, c.owner, e);
      fixOwner(c);
      c.threadArg = t;
      c.exArg = ex;
      body(c, type.toLowerCase(), m.ix, -1, -1);
    }

    @Override
    public void onExceptionDuringEventProcessing(StateEvent e, StateMachine sm, Thread t, Exception ex) {
      note("FLOWEX", e, sm, t, ex);
    }

    @Override
    public void onEventAfterMachineEnd(StateEvent e, StateMachine sm) {
      note("FLOWPOST", e, sm, null, null);
    }

    @Override
    public void onEventBeforeMachineStart(StateEvent e, StateMachine sm) {
      note("FLOWPRE", e, sm, null, null);
    }
  }

  // ---- operations

  private static final RuntimeException REUSED = new InjectedException("the same every time");

  static RuntimeException unchecked(int k) {
    switch (k) {
      case 1:
        return new IllegalStateException("injected");
      case 2:
        return new IllegalArgumentException("injected", new InjectedException("cause"));
      case 3:
        return new UnsupportedOperationException();
      case 4:
        return new java.util.concurrent.RejectedExecutionException("injected");
      case 5:
        return new java.util.concurrent.CancellationException();
      case 6:
        return new ClassCastException("injected");
      case 7:
        return new java.util.NoSuchElementException("injected");
      case 8:
        return new java.util.ConcurrentModificationException();
      case 9:
        return new RuntimeException(new InterruptedException("cause"));
      case 10:
        return new java.util.concurrent.CompletionException(new CheckedInjected("cause"));
      case 11:
        return new RuntimeException((String) null);
      case 12:
        return REUSED;
      case 13:
        return new ArithmeticException("injected");
      case 14:
        return new IndexOutOfBoundsException("injected");
      default:
        return new InjectedException("injected");
    }
  }

  static Exception checked(int k) {
    switch (k) {
      case 1:
        return new InterruptedException("injected");
      case 2:
        return new java.io.IOException("injected", new InjectedException("cause"));
      case 3:
        return new java.util.concurrent.TimeoutException();
      case 4:
        return new java.util.concurrent.ExecutionException("injected", new InjectedException("cause"));
      case 5:
        return new CloneNotSupportedException();
      case 6:
        return new ClassNotFoundException("injected");
      case 7:
        return new Exception("injected");
      default:
        return new CheckedInjected("injected");
    }
  }

  private Error error(int k) {
    switch (k) {
      case 1:
        return new StackOverflowError("injected");
      case 2:
        return new OutOfMemoryError("injected");
      case 3:
        return new AssertionError("injected");
      case 4:
        return new NoClassDefFoundError("injected");
      case 5:
        return new ExceptionInInitializerError(new InjectedException("cause"));
      default:
        return new InjectedError("injected");
    }
  }

  @SuppressWarnings("unchecked")
  private static <E extends Throwable> void sneaky(Throwable t) throws E {
    throw (E) t;
  }

  void op(Map<String, Object> o, Cb in) {
    String k = J.s(o, "op", "");
    switch (k) {
      case "throw":
        h.fault("exception-in-" + (in == null ? "client" : in.type));
        throw unchecked(J.i(o, "x", 0));
      case "throwNpe":
        h.fault("exception-in-" + in.type);
        throw new NullPointerException("injected");
      case "throwChecked":
        h.fault("exception-in-" + in.type);
        MachineWorld.<RuntimeException>sneaky(checked(J.i(o, "x", 0)));
        return;
      case "error":
        h.fault("error-in-" + in.type);
        throw error(J.i(o, "x", 0));
      case "hang":
        h.fault("permanently-blocked-" + in.type);
        hung = true;
        hungMachines.add("" + in.owner);
        Sim.hang();
        return;
      case "slow":
        h.probe("slow-callback");
        for (int i = 0; i < J.i(o, "k", 5); i++) {
          Sim.y();
        }
        return;
      case "sleep":
        try {
          if (J.i(o, "us", 100) >= 1000000) {
            h.probe("very-slow");
          }
          Sim.longSleep(J.i(o, "us", 100) * 1000L);
        } catch (InterruptedException e) {
          h.line("interrupted in sleep");
          Thread.currentThread().interrupt();
        }
        return;
      case "intr": {
        Sim.Task t = clientByIx.get(J.i(o, "c", 0));
        if (t != null) {
          h.fault("thread-interrupt");
          t.token.interrupt();
        }
        return;
      }
      case "selfIntr":
        h.fault("worker-interrupt");
        Thread.currentThread().interrupt();
        return;
      case "lock": {
        Object l = locks.computeIfAbsent(J.s(o, "l", "a"), x -> new Object());
        synchronized (l) {
          for (Object x : J.list(o, "do")) {
            op(J.map(x), in);
          }
        }
        return;
      }
      case "fire":
        fire(o, in != null, null);
        return;
      case "flood": {
        h.probe("flood");
        int times = J.i(o, "k", 0);
        for (int i = 0; i < times; i++) {
          Map<String, Object> f = new HashMap<>();
          f.put("op", "fire");
          f.put("m", J.i(o, "m", 0));
          f.put("e", J.i(o, "e", 0));
          f.put("id", J.i(o, "id", 0) + i);
          fire(f, in != null, null);
        }
        return;
      }
      case "refire": {
        // fires the event it was given again, with payloads of its own
        StateEvent e = given(in);
        if (e != null) {
          h.probe("event-refired-by-callback");
          forget(e);
          Object was = e.getPayload();
          try {
            for (Object x : J.list(o, "fires")) {
              fire(J.map(x), true, e);
            }
          } finally {
            e.setPayload(was);
          }
        }
        return;
      }
      case "taint": {
        // sets a payload on the event it was given
        StateEvent e = given(in);
        if (e != null) {
          h.probe("payload-set-by-callback");
          forget(e);
          Payload p = new Payload(700000 + taints.size());
          taints.put(p.id, new Object[]{e, in.f, in.payloadNull, in.owner, in.ev});
          e.setPayload(p);
        }
        return;
      }
      case "setPay": {
        StateEvent e = object(o);
        e.setPayload(payload(J.i(o, "id", -7)));
        h.line("setPayload " + J.s(o, "obj", "") + " P" + J.i(o, "id", -7));
        return;
      }
      case "crash":
        h.fault("process-crash");
        Sim.crash();
        return;
      default:
        client(k, o, in != null);
    }
  }

  private StateEvent object(Map<String, Object> o) {
    StateEvent e = objects.computeIfAbsent(J.s(o, "obj", "o"), x -> event("e" + J.i(o, "e", 0)));
    forget(e);
    return e;
  }

  private void fire(Map<String, Object> o, boolean nested, StateEvent given) {
    Fire f = new Fire();
    f.id = J.i(o, "id", -1);
    f.m = J.i(o, "m", 0);
    f.ev = J.s(o, "name", "e" + J.i(o, "e", 0));
    String pay = J.s(o, "pay", "p");
    if (fires.containsKey(f.id)) {
      // an act that runs at every invocation: later invocations use fresh ids
      int k = 100000 + fires.size();
      f.id = k;
    }
    M m = ms.get(f.m);
    StateEvent e;
    if (given != null) {
      e = given;
      e.setPayload(payload(f.id));
      f.ev = ev(e);
    } else if (J.b(plan, "constants")) {
      if (nullFires.containsKey(f.m + ":" + f.ev)) {
        // which firing a call-back is about can only be told if there was just one
        f.ev = "x" + f.id;
      }
      e = event(f.ev);
      f.nullPayload = true;
      nullFires.put(f.m + ":" + f.ev, f.id);
    } else if (J.b(plan, "ownEvents")) {
      e = event(f.ev);
      ((OwnEvent) e).fire = f.id;
      if (J.b(plan, "ownPay") && !J.b(o, "probe")) {
        e.setPayload(payload(f.id));
      } else {
        f.nullPayload = true;
      }
    } else if (pay.equals("obj")) {
      e = object(o);
      e.setPayload(payload(f.id));
      f.ev = ev(e);
    } else if (pay.equals("objNull")) {
      e = object(o);
      f.ev = ev(e);
      f.nullPayload = true;
      nullFires.put(f.m + ":" + f.ev, f.id);
    } else {
      e = event(f.ev);
      if (pay.equals("n")) {
        f.nullPayload = true;
        nullFires.put(f.m + ":" + f.ev, f.id);
      } else {
        e.setPayload(payload(f.id));
      }
    }
    f.probe = J.b(o, "probe");
    fires.put(f.id, f);
    Op op = h.call("fire", f.m, f.id, f.ev);
    f.op = op;
    op.nested = nested;
    Throwable th = null;
    try {
      m.sm.fire(e);
    } catch (Sim.Abort x) {
      throw x;
    } catch (Throwable x) {
      th = x;
    } finally {
      if (!Sim.aborted) {
        h.ret(op, null, th);
      }
    }
  }

  private void client(String k, Map<String, Object> o, boolean nested) {
    M m = ms.get(J.i(o, "m", 0));
    String arg = null;
    if (k.equals("startIn")) {
      int s = J.i(o, "s", 0);
      arg = s >= 0 && s < m.nStates ? "s" + s : "unknown";
    } else if (o.containsKey("l")) {
      arg = "L" + J.i(o, "l", 0);
    } else if (o.containsKey("want")) {
      arg = J.s(o, "want", null);
    }
    if (k.equals("notify")) {
      arg = (J.b(o, "end") ? "E" : "B") + " n" + J.i(o, "id", 0) + " -1";
    }
    Op op = h.call(k, m.ix, o.containsKey("l") ? J.i(o, "l", 0) : -1, arg);
    op.nested = nested;
    Throwable th = null;
    Object res = null;
    try {
      switch (k) {
        case "start":
          m.sm.start();
          break;
        case "startIn": {
          int s = J.i(o, "s", 0);
          m.sm.startInState(s >= 0 && s < m.nStates ? target(m, s) : new NamedState("nowhere"));
          break;
        }
        case "stop":
          m.sm.stop();
          break;
        case "size":
          res = m.sm.getEventQueueSize();
          break;
        case "state": {
          State s = m.sm.getCurrentState();
          res = s == null ? "null" : st(s);
          break;
        }
        case "isEnded":
          res = m.sm.isEnded();
          break;
        case "isStarted":
          res = m.sm.isStarted();
          break;
        case "startedState": {
          // started must imply a current state
          boolean b = m.sm.isStarted();
          State s = b ? m.sm.getCurrentState() : null;
          res = !b ? "not-started" : s == null ? "null" : st(s);
          break;
        }
        case "endedState": {
          boolean b = m.sm.isEnded() && m.sm.isStarted();
          State s = b ? m.sm.getCurrentState() : null;
          res = !b ? "not-ended" : s == null ? "null" : st(s);
          break;
        }
        case "add":
          res = m.multi.add(m.listeners[J.i(o, "l", 1)]);
          break;
        case "rem":
          res = m.multi.remove(m.listeners[J.i(o, "l", 1)]);
          break;
        case "notify":
          // the fan-out listener used directly, as another notifying thread would
          if (J.b(o, "end")) {
            m.multi.onStateChangeEnd(m.states[0], new NamedStateEvent("n" + J.i(o, "id", 0)), m.states[0]);
          } else {
            m.multi.onStateChangeBegin(m.states[0], new NamedStateEvent("n" + J.i(o, "id", 0)), m.states[0]);
          }
          break;
        case "poll": {
          String want = J.s(o, "want", "state");
          int max = J.i(o, "max", 60);
          int seen = h.t;
          for (int i = 0, q = 0; q < max && i < 2000; i++, q++) {
            if (h.t != seen) {
              // something is still going on
              seen = h.t;
              q = 0;
            }
            if (want.equals("state")) {
              State s = m.sm.getCurrentState();
              res = s == null ? "null" : st(s);
            } else if (want.equals("ended")) {
              res = m.sm.isEnded();
            } else {
              res = m.sm.isStarted();
            }
            Sim.sleepNanos(1000000);
          }
          break;
        }
        default:
          throw new IllegalArgumentException("unknown op " + k);
      }
    } catch (Sim.Abort x) {
      throw x;
    } catch (Throwable x) {
      th = x;
    } finally {
      if (!Sim.aborted) {
        h.ret(op, res, th);
      }
    }
  }

  // ---- phases

  public void spawnClients(String field) {
    int ix = 0;
    for (Object o : J.list(plan, field)) {
      List<Object> ops = (List<Object>) o;
      Sim.Task t = Sim.spawn("client" + ix, () -> {
        for (Object x : ops) {
          try {
            op(J.map(x), null);
          } catch (InjectedException e) {
            h.line("client exception " + e);
          }
        }
      });
      t.client = true;
      clients.add(t);
      clientByIx.put(ix, t);
      ix++;
    }
  }

  public void observeFinal() {
    for (M m : ms) {
      m.finalStarted = m.sm.isStarted();
      m.finalEnded = m.sm.isEnded();
      State s = m.sm.getCurrentState();
      m.finalState = s == null ? null : st(s);
      m.finalSize = m.sm.getEventQueueSize();
      h.line("FINAL m" + m.ix + " started=" + m.finalStarted + " ended=" + m.finalEnded + " state=" + m.finalState
          + " size=" + m.finalSize);
    }
  }

  /** events without payload of the names that call-backs have set payloads on */
  public List<String> tainted(int m) {
    Set<String> l = new LinkedHashSet<>();
    for (Fire f : fires.values()) {
      if (f.op.thrown != null) {
        return List.of();
      }
    }
    for (int k = 700000; taints.containsKey(k); k++) {
      Object[] t = taints.get(k);
      if ((Boolean) t[2] && (Integer) t[3] == m) {
        l.add((String) t[4]);
      }
    }
    return new ArrayList<>(l);
  }

  public void fireLate(int m, int id, String ev) {
    Map<String, Object> o = new HashMap<>();
    o.put("op", "fire");
    o.put("m", m);
    o.put("name", ev);
    o.put("pay", "n");
    o.put("id", id);
    o.put("probe", Boolean.TRUE);
    op(o, null);
  }

  public void fireProbe(int m, int id) {
    Map<String, Object> o = new HashMap<>();
    o.put("op", "fire");
    o.put("m", m);
    o.put("name", "probe");
    o.put("id", id);
    o.put("probe", Boolean.TRUE);
    op(o, null);
  }
}
