package dsim.rt;

import dsim.api.Rng;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;
import jdk.internal.vm.Continuation;
import jdk.internal.vm.ContinuationScope;

/**
 * The simulator: a seeded scheduler for coroutine "threads", a virtual clock, virtual monitors, park/unpark, sleep, join
 * and interrupts. All state is static because every simulated world has its own class loader; one operating-system
 * thread drives one world.
 */
public final class Sim {

  public static final int RUNNABLE = 0, BLOCKED = 1, DONE = 2;
  public static final int W_MONITOR = 1, W_WAIT = 2, W_PARK = 3, W_SLEEP = 4, W_JOIN = 5, W_FOREVER = 6;
  public static final int QUIESCENT = 0, ABORTED = 1;
  private static final ContinuationScope SCOPE = new ContinuationScope("dsim");
  private static final long NEVER = Long.MAX_VALUE;

  public static final class Task {
    public final int id;
    public final Thread token;
    public final String name;
    final Cont cont;
    public int state = RUNNABLE;
    public int why;
    public Object on;
    long deadline = NEVER;
    /** a client or call-back that takes very long: not idle, however many timed waits pass meanwhile */
    boolean longSleep;
    boolean permit;
    boolean interrupted;
    boolean signalled;
    public boolean client;
    int prio;
    Map<Object, Object> locals;
    int[] vc;
    public Throwable death;

    Task(int id, Thread token, String name, Runnable body) {
      this.id = id;
      this.token = token;
      this.name = name;
      this.cont = new Cont(body);
    }

    @Override
    public String toString() {
      return name;
    }
  }

  private static final class Cont extends Continuation {
    Cont(Runnable r) {
      super(SCOPE, r);
    }

    @Override
    protected void onPinned(Continuation.Pinned reason) {
      // yield() then returns false
    }
  }

  static final class Mon {
    Task owner;
    int count;
    int[] vc;
  }

  /** unwinds a task of a run that is being abandoned */
  public static final class Abort extends Error {
    Abort(String m) {
      super(m, null, false, false);
    }
  }

  // ---- world state, reset for every run
  public static int epoch;
  public static Task cur;
  static Task last;
  static Task next;
  public static final ArrayList<Task> tasks = new ArrayList<>();
  private static final IdentityHashMap<Thread, Task> byToken = new IdentityHashMap<>();
  private static final IdentityHashMap<Object, Mon> mons = new IdentityHashMap<>();
  private static final IdentityHashMap<Object, Integer> hashes = new IdentityHashMap<>();
  public static long step;
  private static long nextAt;
  private static long skew;
  public static int noYield;
  public static boolean aborted;
  public static String abortReason;
  public static String inconclusive;
  public static boolean fine;
  public static boolean draining;
  private static Rng rng;
  private static boolean replay;
  private static int mode; // 0 sequential, 1 random walk, 2 PCT
  private static double pSwitch;
  private static long[] changePoints;
  private static int changeIdx;
  private static int lowPrio;
  private static long fairAt;
  private static long maxSteps;
  private static int[] recSw = new int[64];
  private static int recSwN;
  private static int[] recCh = new int[16];
  private static int recChN;
  private static int[] inSw;
  private static int swIdx;
  private static int[] inCh;
  private static int chIdx;
  private static int choiceCount;
  public static long schedDigest;
  public static int pinned;
  private static int hashSeq;
  private static int switchesDone;
  public static Runnable stepHook;

  private Sim() {
  }

  /** for long runs */
  public static void limit(int steps) {
    fairAt = steps / 4;
    maxSteps = steps;
  }

  public static void reset(long seed, int[] switches, int[] choices, int horizon, boolean fineGrain) {
    epoch++;
    cur = last = next = null;
    tasks.clear();
    byToken.clear();
    mons.clear();
    hashes.clear();
    step = 0;
    skew = 0;
    noYield = 0;
    aborted = false;
    abortReason = null;
    inconclusive = null;
    draining = false;
    replay = switches != null;
    inSw = switches;
    inCh = choices;
    swIdx = chIdx = 0;
    recSwN = recChN = 0;
    choiceCount = 0;
    schedDigest = 7;
    pinned = 0;
    hashSeq = 0;
    progress = 0;
    seenProgress = 0;
    switchesDone = 0;
    rng = new Rng(Rng.mix(seed) ^ 0x5eedL);
    mode = -1;
    fine = false;
    fairAt = 15000;
    maxSteps = 60000;
    lowPrio = 0;
    changePoints = null;
    changeIdx = 0;
    int k = rng.i(100);
    fine = fineGrain;
    if (k < 4) {
      mode = 0;
    } else if (k < 58) {
      mode = 1;
      pSwitch = rng.of(0.5, 0.3, 0.15, 0.07, 0.03, 0.01);
    } else {
      mode = 2;
      int d = rng.in(1, 5);
      int h = 20 + rng.i(horizon * (fine ? 3 : 1));
      changePoints = new long[d];
      for (int i = 0; i < d; i++) {
        changePoints[i] = 1 + rng.i(h);
      }
      Arrays.sort(changePoints);
    }
    exits = 0;
    NO_TASK_LOCALS.clear();
    Weak.reset();
    planNext();
  }

  /** a new process in the same run: every thread, lock and static field of the old one is gone, the clock goes on */
  public static void restartProcess() {
    epoch++;
    cur = last = next = null;
    tasks.clear();
    byToken.clear();
    mons.clear();
    noYield = 0;
    aborted = false;
    abortReason = null;
    NO_TASK_LOCALS.clear();
    planNext();
  }

  /** the simulated process dies here and now */
  public static void crash() {
    abort("crash");
    suspend();
    throw new Abort("crash");
  }

  private static void planNext() {
    long n;
    if (step >= fairAt) {
      n = (step / 40 + 1) * 40;
    } else if (replay) {
      while (swIdx < inSw.length && inSw[swIdx] <= step) {
        swIdx += 2;
      }
      n = swIdx < inSw.length ? inSw[swIdx] : NEVER;
    } else if (mode == 1) {
      n = step + rng.geo(pSwitch);
    } else if (mode == 2) {
      n = changeIdx < changePoints.length ? Math.max(step + 1, changePoints[changeIdx]) : NEVER;
    } else {
      n = NEVER;
    }
    if (step < fairAt && n > fairAt) {
      n = fairAt;
    }
    nextAt = Math.min(n, maxSteps);
  }

  // ---- scheduling points

  /** a point at which the scheduler may run another thread */
  public static void y() {
    if (++step < nextAt) {
      return;
    }
    slow();
  }

  /** scheduling point inside a copied unsynchronised collection */
  public static void f() {
    if (fine && cur != null && noYield == 0) {
      y();
    }
  }

  private static void slow() {
    Task c = cur;
    if (c == null || noYield > 0) {
      return;
    }
    if (step >= maxSteps) {
      abort("step limit of " + maxSteps + " reached: no quiescence");
      suspend();
      return;
    }
    wakeTimers();
    Task t = c;
    if (step >= fairAt) {
      t = nextCyclic(c.id);
      if (t == null) {
        t = c;
      }
    } else if (replay) {
      if (swIdx < inSw.length && inSw[swIdx] == step) {
        t = runnable(inSw[swIdx + 1], c);
        swIdx += 2;
      }
    } else if (mode == 1) {
      t = randomRunnable(c);
    } else if (mode == 2) {
      if (changeIdx < changePoints.length && changePoints[changeIdx] <= step) {
        while (changeIdx < changePoints.length && changePoints[changeIdx] <= step) {
          changeIdx++;
        }
        c.prio = --lowPrio;
      }
      t = highest();
    }
    planNext();
    if (t != c) {
      if (step < fairAt) {
        record((int) step, t.id);
      }
      next = t;
      suspend();
    }
  }

  private static Task runnable(int id, Task dflt) {
    if (id >= 0 && id < tasks.size() && tasks.get(id).state == RUNNABLE) {
      return tasks.get(id);
    }
    return dflt;
  }

  private static Task nextCyclic(int from) {
    int n = tasks.size();
    for (int i = 1; i <= n; i++) {
      Task t = tasks.get((from + i) % n);
      if (t.state == RUNNABLE) {
        return t;
      }
    }
    return null;
  }

  private static Task randomRunnable(Task not) {
    int n = 0;
    for (int i = 0; i < tasks.size(); i++) {
      Task t = tasks.get(i);
      if (t.state == RUNNABLE && t != not) {
        n++;
      }
    }
    if (n == 0) {
      return not;
    }
    int k = rng.i(n);
    for (int i = 0; i < tasks.size(); i++) {
      Task t = tasks.get(i);
      if (t.state == RUNNABLE && t != not && k-- == 0) {
        return t;
      }
    }
    return not;
  }

  private static Task highest() {
    Task b = null;
    for (int i = 0; i < tasks.size(); i++) {
      Task t = tasks.get(i);
      if (t.state == RUNNABLE && (b == null || t.prio > b.prio)) {
        b = t;
      }
    }
    return b;
  }

  private static void record(int s, int id) {
    if (recSwN + 2 > recSw.length) {
      recSw = Arrays.copyOf(recSw, recSw.length * 2);
    }
    recSw[recSwN++] = s;
    recSw[recSwN++] = id;
  }

  /** a value choice in [0,n); 0 is the default of minimised replays */
  public static int choose(int n, double pNonDefault) {
    int v = 0;
    int c = choiceCount++;
    if (n > 1) {
      if (replay) {
        while (chIdx < inCh.length && inCh[chIdx] < c) {
          chIdx += 2;
        }
        if (chIdx < inCh.length && inCh[chIdx] == c) {
          v = Math.min(n - 1, inCh[chIdx + 1]);
        }
      } else if (rng.p(pNonDefault)) {
        v = 1 + rng.i(n - 1);
      }
      if (v != 0) {
        if (recChN + 2 > recCh.length) {
          recCh = Arrays.copyOf(recCh, recCh.length * 2);
        }
        recCh[recChN++] = c;
        recCh[recChN++] = v;
      }
    }
    return v;
  }

  public static int[] recordedSwitches() {
    return Arrays.copyOf(recSw, recSwN);
  }

  public static int[] recordedChoices() {
    return Arrays.copyOf(recCh, recChN);
  }

  public static int switchCount() {
    return switchesDone;
  }

  /** counts what the harness records */
  public static int progress;
  private static int seenProgress;
  private static int idleJumps;
  private static final int MAX_IDLE_JUMPS = 100;

  public static void abort(String why) {
    if (!aborted) {
      aborted = true;
      abortReason = why;
    }
  }

  public static void inconclusive(String why) {
    if (inconclusive == null) {
      inconclusive = why;
    }
    abort("inconclusive: " + why);
  }

  private static void suspend() {
    if (!Continuation.yield(SCOPE)) {
      pinned++;
      next = null;
      if (cur.state == BLOCKED) {
        cur.state = RUNNABLE;
        inconclusive("blocking operation under a native frame or real monitor");
        throw new Abort("pinned");
      }
    } else if (aborted) {
      throw new Abort("aborted");
    }
  }

  private static void wakeTimers() {
    long now = nanoTime();
    for (int i = 0; i < tasks.size(); i++) {
      Task t = tasks.get(i);
      if (t.state == BLOCKED && t.deadline <= now) {
        wake(t);
      }
    }
  }

  private static void wake(Task t) {
    if (t.state == BLOCKED) {
      t.state = RUNNABLE;
      t.deadline = NEVER;
      if (mode == 2 && !replay && step < fairAt) {
        nextAt = Math.min(nextAt, step + 1);
      }
    }
  }

  private static void block(int why, Object on, long deadline) {
    Task t = cur;
    if (t == null) {
      throw new IllegalStateException("dsim: blocking call outside a simulated thread");
    }
    if (noYield > 0) {
      inconclusive("blocking operation in a section that cannot be scheduled (" + why + ")");
      throw new Abort("blocked in no-yield section");
    }
    t.why = why;
    t.on = on;
    t.deadline = deadline;
    t.state = BLOCKED;
    suspend();
    t.why = 0;
    t.on = null;
    t.deadline = NEVER;
  }

  private static Task pickAfterBlock() {
    step++;
    wakeTimers();
    int from = last == null ? -1 : last.id;
    Task d = tasks.isEmpty() ? null : nextCyclic(from < 0 ? tasks.size() - 1 : from);
    if (d == null) {
      long min = NEVER;
      for (Task t : tasks) {
        if (t.state == BLOCKED && t.deadline < min) {
          min = t.deadline;
        }
      }
      // threads that only poll with a timeout and change nothing are idle
      if (progress != seenProgress) {
        seenProgress = progress;
        idleJumps = 0;
      }
      if (min != NEVER && ++idleJumps > MAX_IDLE_JUMPS) {
        min = NEVER;
        for (Task t : tasks) {
          if (t.state == BLOCKED && t.longSleep && t.deadline < min) {
            min = t.deadline;
          }
        }
        idleJumps = 0;
      }
      if (min == NEVER) {
        return null;
      }
      skew += Math.max(0, min - nanoTime());
      wakeTimers();
      d = nextCyclic(from < 0 ? tasks.size() - 1 : from);
    }
    if (step >= maxSteps) {
      abort("step limit of " + maxSteps + " reached: no quiescence");
      return null;
    }
    Task t = d;
    if (step < fairAt) {
      if (replay) {
        while (swIdx < inSw.length && inSw[swIdx] < step) {
          swIdx += 2;
        }
        if (swIdx < inSw.length && inSw[swIdx] == step) {
          t = runnable(inSw[swIdx + 1], d);
          swIdx += 2;
        }
      } else if (mode == 1) {
        t = randomRunnable(null);
      } else if (mode == 2) {
        t = highest();
      }
      if (t != d) {
        record((int) step, t.id);
      }
    }
    planNext();
    return t;
  }

  /** runs until no simulated thread can make progress any more */
  public static int run() {
    idleJumps = 0;
    while (true) {
      if (aborted) {
        return ABORTED;
      }
      Task n = next;
      next = null;
      if (n == null) {
        n = pickAfterBlock();
        if (aborted) {
          return ABORTED;
        }
        if (n == null) {
          return QUIESCENT;
        }
      }
      if (n != last) {
        switchesDone++;
        schedDigest = (schedDigest * 31 + step) * 31 + n.id;
      }
      last = n;
      cur = n;
      try {
        n.cont.run();
      } finally {
        cur = null;
      }
    }
  }

  // ---- threads

  public static Task spawn(String name, Runnable body) {
    Thread t = new Thread(body, name);
    return startTask(t, body);
  }

  private static Task startTask(Thread t, Runnable body) {
    Task[] self = new Task[1];
    Task k = new Task(tasks.size(), t, t.getName(), () -> runThread(self[0], body));
    self[0] = k;
    // new threads get a random rank between the others so that PCT orders them arbitrarily
    k.prio = replay ? 0 : 1 + rng.i(1 << 20);
    tasks.add(k);
    byToken.put(t, k);
    Weak.fork(cur, k);
    if (mode == 2 && !replay && step < fairAt) {
      nextAt = Math.min(nextAt, step + 1);
    }
    return k;
  }

  private static void runThread(Task k, Runnable body) {
    try {
      if (body != null) {
        body.run();
      } else {
        k.token.run();
      }
    } catch (Abort e) {
      // run is being abandoned
    } catch (Throwable e) {
      k.death = e;
      if (!aborted) {
        try {
          Thread.UncaughtExceptionHandler h = k.token.getUncaughtExceptionHandler();
          if (h != null && h != k.token.getThreadGroup()) {
            h.uncaughtException(k.token, e);
          }
          if (deathHook != null) {
            deathHook.died(k, e);
          }
        } catch (Throwable e2) {
          // as a JVM does: ignored
        }
      }
    }
    k.state = DONE;
    Weak.exit(k);
    for (int i = 0; i < tasks.size(); i++) {
      Task t = tasks.get(i);
      if (t.state == BLOCKED && t.why == W_JOIN && t.on == k) {
        wake(t);
      }
    }
  }

  public interface DeathHook {
    void died(Task t, Throwable e);
  }

  public static DeathHook deathHook;

  public static Thread currentThread() {
    return cur == null ? Thread.currentThread() : cur.token;
  }

  public static Task task(Thread t) {
    return byToken.get(t);
  }

  public static void start(Thread t) {
    y();
    if (byToken.containsKey(t)) {
      throw new IllegalThreadStateException();
    }
    startTask(t, null);
  }

  public static void join(Thread t) throws InterruptedException {
    join(t, 0);
  }

  public static void join(Thread t, long millis) throws InterruptedException {
    y();
    Task k = byToken.get(t);
    if (k == null) {
      return;
    }
    long dl = millis == 0 ? NEVER : nanoTime() + millis * 1000000;
    while (k.state != DONE && nanoTime() < dl) {
      checkInterrupt();
      block(W_JOIN, k, dl);
    }
    checkInterrupt();
    if (k.state == DONE) {
      Weak.join(k);
    }
  }

  public static void join(Thread t, long millis, int nanos) throws InterruptedException {
    join(t, millis + (nanos > 0 ? 1 : 0));
  }

  public static boolean join(Thread t, java.time.Duration d) throws InterruptedException {
    long ms = d.toMillis();
    if (ms > 0) {
      join(t, ms);
    }
    return !isAlive(t);
  }

  private static void checkInterrupt() throws InterruptedException {
    if (cur != null && cur.interrupted) {
      cur.interrupted = false;
      throw new InterruptedException();
    }
  }

  public static void sleep(long millis) throws InterruptedException {
    sleepNanos(millis * 1000000);
  }

  public static void sleep(long millis, int nanos) throws InterruptedException {
    sleepNanos(millis * 1000000 + nanos);
  }

  public static void sleep(java.time.Duration d) throws InterruptedException {
    sleepNanos(d.toNanos());
  }

  public static void sleep(java.util.concurrent.TimeUnit u, long n) throws InterruptedException {
    sleepNanos(u.toNanos(n));
  }

  /** for the harness: the run does not count as idle before this sleep is over */
  public static void longSleep(long nanos) throws InterruptedException {
    Task t = cur;
    t.longSleep = nanos >= 1000000000L;
    try {
      sleepNanos(nanos);
    } finally {
      t.longSleep = false;
    }
  }

  public static void sleepNanos(long nanos) throws InterruptedException {
    checkInterrupt();
    long dl = nanoTime() + Math.max(1, nanos);
    while (nanoTime() < dl) {
      block(W_SLEEP, null, dl);
      checkInterrupt();
    }
  }

  public static void yieldThread() {
    y();
  }

  public static void onSpinWait() {
    y();
  }

  public static void interrupt(Thread t) {
    y();
    Task k = byToken.get(t);
    if (k != null && k.state != DONE) {
      k.interrupted = true;
      if (k.state == BLOCKED && k.why != W_MONITOR && k.why != W_FOREVER) {
        wake(k);
      }
    }
  }

  public static boolean isInterrupted(Thread t) {
    Task k = byToken.get(t);
    return k != null && k.interrupted;
  }

  public static boolean interrupted() {
    if (cur == null) {
      return false;
    }
    boolean b = cur.interrupted;
    cur.interrupted = false;
    return b;
  }

  public static boolean isAlive(Thread t) {
    y();
    Task k = byToken.get(t);
    return k != null && k.state != DONE;
  }

  public static Thread.State getState(Thread t) {
    y();
    Task k = byToken.get(t);
    if (k == null) {
      return Thread.State.NEW;
    }
    if (k.state == DONE) {
      return Thread.State.TERMINATED;
    }
    if (k.state == RUNNABLE) {
      return Thread.State.RUNNABLE;
    }
    return k.why == W_MONITOR ? Thread.State.BLOCKED
        : k.deadline != NEVER ? Thread.State.TIMED_WAITING : Thread.State.WAITING;
  }

  public static long threadId(Thread t) {
    Task k = byToken.get(t);
    return k == null ? 1000 + identityHash(t) : 1 + k.id;
  }

  /** blocks the calling simulated thread for ever (a permanently stuck callback) */
  public static void hang() {
    while (true) {
      block(W_FOREVER, null, NEVER);
    }
  }

  // ---- park

  public static void park(Object blocker, long deadline) {
    y();
    Task t = cur;
    if (t == null) {
      throw new IllegalStateException("dsim: park outside a simulated thread");
    }
    if (!t.permit && !t.interrupted) {
      if (choose(2, draining ? 0 : 0.02) == 0) { // else: spurious return, as park allows
        block(W_PARK, blocker, deadline);
      }
    }
    t.permit = false;
  }

  public static void unpark(Thread th) {
    if (th == null) {
      return;
    }
    Task t = byToken.get(th);
    if (t == null || t.state == DONE) {
      return;
    }
    t.permit = true;
    if (t.state == BLOCKED && t.why == W_PARK) {
      wake(t);
    }
  }

  // ---- monitors

  private static Mon mon(Object o) {
    Mon m = mons.get(o);
    if (m == null) {
      m = new Mon();
      mons.put(o, m);
    }
    return m;
  }

  public static void menter(Object o) {
    if (o == null) {
      throw new NullPointerException();
    }
    if (cur == null) {
      return;
    }
    y();
    Mon m = mon(o);
    if (m.owner == cur) {
      m.count++;
      return;
    }
    while (m.owner != null) {
      block(W_MONITOR, m, NEVER);
    }
    m.owner = cur;
    m.count = 1;
    Weak.acquire(o);
  }

  public static void mexit(Object o) {
    if (cur == null) {
      return;
    }
    Mon m = mon(o);
    if (m.owner != cur) {
      if (aborted) {
        return;
      }
      throw new IllegalMonitorStateException();
    }
    if (--m.count == 0) {
      release(o, m);
    }
  }

  private static void release(Object o, Mon m) {
    Weak.release(o);
    m.owner = null;
    m.count = 0;
    for (int i = 0; i < tasks.size(); i++) {
      Task t = tasks.get(i);
      if (t.state == BLOCKED && t.why == W_MONITOR && t.on == m) {
        wake(t);
      }
    }
  }

  public static boolean holdsLock(Object o) {
    return cur != null && mon(o).owner == cur;
  }

  public static void owait(Object o) throws InterruptedException {
    owait(o, 0);
  }

  public static void owait(Object o, long millis, int nanos) throws InterruptedException {
    owait(o, millis + (nanos > 0 ? 1 : 0));
  }

  public static void owait(Object o, long millis) throws InterruptedException {
    Mon m = mon(o);
    if (cur == null || m.owner != cur) {
      throw new IllegalMonitorStateException();
    }
    y();
    checkInterrupt();
    int c = m.count;
    release(o, m);
    if (choose(2, draining ? 0 : 0.02) == 0) { // else: spurious wake-up
      block(W_WAIT, m, millis == 0 ? NEVER : nanoTime() + millis * 1000000);
    }
    while (m.owner != null) {
      block(W_MONITOR, m, NEVER);
    }
    m.owner = cur;
    m.count = c;
    Weak.acquire(o);
    checkInterrupt();
  }

  public static void onotify(Object o) {
    notify(o, false);
  }

  public static void onotifyAll(Object o) {
    notify(o, true);
  }

  private static void notify(Object o, boolean all) {
    Mon m = mon(o);
    if (cur == null || m.owner != cur) {
      throw new IllegalMonitorStateException();
    }
    List<Task> w = new ArrayList<>();
    for (Task t : tasks) {
      if (t.state == BLOCKED && t.why == W_WAIT && t.on == m) {
        w.add(t);
      }
    }
    if (w.isEmpty()) {
      return;
    }
    if (all) {
      w.forEach(Sim::wake);
    } else {
      wake(w.get(choose(w.size(), 0.5)));
    }
  }

  // ---- clock, randomness, identity, environment

  public static long nanoTime() {
    return step * 1000 + skew;
  }

  public static long currentTimeMillis() {
    return 1700000000000L + nanoTime() / 1000000;
  }

  public static java.time.Instant instant() {
    return java.time.Instant.ofEpochMilli(currentTimeMillis());
  }

  private static java.util.Random random;
  private static int randomEpoch = -1;

  public static java.util.Random random() {
    if (randomEpoch != epoch) {
      randomEpoch = epoch;
      random = new java.util.Random(42);
    }
    return random;
  }

  public static long seed() {
    return 42 + (hashSeq++);
  }

  public static double mathRandom() {
    return random().nextDouble();
  }

  public static java.util.UUID uuid() {
    return new java.util.UUID(random().nextLong(), random().nextLong());
  }

  public static int probe() {
    return cur == null ? 1 : cur.id + 1;
  }

  public static int advanceProbe(int p) {
    return p * 31 + 7;
  }

  public static int nextSecondarySeed() {
    return 1;
  }

  /** identity hash codes are arbitrary: another base gives other iteration orders */
  public static void hashBase(int b) {
    hashSeq = b * 1000003;
  }

  public static int identityHash(Object o) {
    if (o == null) {
      return 0;
    }
    Integer h = hashes.get(o);
    if (h == null) {
      h = (int) Rng.mix(++hashSeq) & 0x7fffffff;
      hashes.put(o, h);
    }
    return h;
  }

  private static final ClassValue<Boolean> OWN_HASH = new ClassValue<>() {
    @Override
    protected Boolean computeValue(Class<?> c) {
      try {
        return c.getMethod("hashCode").getDeclaringClass() != Object.class;
      } catch (Exception e) {
        return true;
      }
    }
  };

  public static int hashCode(Object o) {
    return OWN_HASH.get(o.getClass()) ? o.hashCode() : identityHash(o);
  }

  public static void exit(int code) {
    exits++;
    hang();
  }

  public static int exits;

  public static void addShutdownHook(Runtime r, Thread t) {
  }

  public static boolean removeShutdownHook(Runtime r, Thread t) {
    return false;
  }

  public static int availableProcessors(Runtime r) {
    return 4;
  }

  public static java.lang.ref.Cleaner.Cleanable cleanerRegister(java.lang.ref.Cleaner c, Object o, Runnable r) {
    return () -> {
    };
  }

  public static void managedBlock(java.util.concurrent.ForkJoinPool.ManagedBlocker b) throws InterruptedException {
    while (!b.isReleasable() && !b.block()) {
      // as ForkJoinPool.managedBlock does outside a pool
    }
  }

  public static int commonPoolParallelism() {
    return 1;
  }

  // ---- static initialisers of the code under test

  public static void clinitEnter() {
    noYield++;
  }

  public static void clinitExit() {
    noYield--;
  }

  public static Map<Object, Object> locals() {
    if (cur == null) {
      return NO_TASK_LOCALS;
    }
    if (cur.locals == null) {
      cur.locals = new HashMap<>();
    }
    return cur.locals;
  }

  private static final Map<Object, Object> NO_TASK_LOCALS = new HashMap<>();
}
