package dsim.boot;

import dsim.api.Json;
import dsim.api.Rng;
import dsim.api.RunResult;
import dsim.api.RunResult.Violation;
import dsim.api.RunSpec;
import dsim.api.Worker;
import dsim.gen.Gen;
import java.io.File;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import java.util.concurrent.Callable;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;
import java.util.concurrent.Future;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicBoolean;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;
import java.util.concurrent.atomic.AtomicReference;

/** check / replay / plan: the command line of the simulator. */
public final class Main {

  static Transform tf;
  static int nThreads = Math.max(1, Integer.getInteger("dsim.threads", Runtime.getRuntime().availableProcessors()));

  static Worker newWorker() {
    try {
      SimLoader l = new SimLoader(tf, Main.class.getClassLoader());
      return (Worker) l.loadClass("dsim.h.WorldImpl").getDeclaredConstructor().newInstance();
    } catch (ReflectiveOperationException e) {
      throw new RuntimeException(e);
    }
  }

  static final ThreadLocal<Worker> WORKER = ThreadLocal.withInitial(Main::newWorker);

  static RunResult run(Map<String, Object> plan, long seed, int[] sw, int[] ch, boolean trace) {
    RunSpec s = new RunSpec();
    s.plan = plan;
    s.seed = seed;
    s.switches = sw;
    s.choices = ch;
    s.trace = trace;
    return WORKER.get().run(s);
  }

  /** the sets of all immutable collections iterate in an order salted per process */
  static void fixSalt() {
    try {
      Class<?> c = Class.forName("java.util.ImmutableCollections");
      jdk.internal.misc.Unsafe u = jdk.internal.misc.Unsafe.getUnsafe();
      java.lang.reflect.Field f = c.getDeclaredField("SALT32L");
      u.putLong(u.staticFieldBase(f), u.staticFieldOffset(f), 0x1234567L);
      f = c.getDeclaredField("REVERSE");
      u.putBoolean(u.staticFieldBase(f), u.staticFieldOffset(f), false);
    } catch (Exception e) {
      throw new RuntimeException(e);
    }
  }

  static String opt(String[] a, String k, String d) {
    for (int i = 0; i + 1 < a.length; i++) {
      if (a[i].equals("--" + k)) {
        return a[i + 1];
      }
    }
    return d;
  }

  public static void main(String[] a) {
    try {
      main2(a);
      System.exit(0);
    } catch (Throwable e) {
      e.printStackTrace();
      System.exit(2);
    }
  }

  private static void main2(String[] a) throws Exception {
    fixSalt();
    tf = new Transform(opt(a, "classes", "build/repo"), Main.class.getClassLoader());
    switch (a[0]) {
      case "check":
        System.exit(new Main(a).check());
        return;
      case "replay":
        System.exit(replay(a));
        return;
      case "survey":
        new Main(a).survey();
        return;
      case "digest":
        digest(a);
        return;
      default:
        throw new IllegalArgumentException(a[0]);
    }
  }

  // ---- replay

  @SuppressWarnings("unchecked")
  static int[] ints(Object o) {
    if (o == null) {
      return new int[0];
    }
    List<Object> l = (List<Object>) o;
    int[] r = new int[l.size()];
    for (int i = 0; i < r.length; i++) {
      r[i] = ((Number) l.get(i)).intValue();
    }
    return r;
  }

  static List<Object> list(int[] x) {
    List<Object> l = new ArrayList<>();
    for (int i : x) {
      l.add((long) i);
    }
    return l;
  }

  @SuppressWarnings("unchecked")
  static int replay(String[] a) throws Exception {
    Map<String, Object> f = (Map<String, Object>) Json.parse(Files.readString(Path.of(opt(a, "file", ""))));
    String prop = (String) f.get("property");
    boolean search = f.get("switches") == null;
    RunResult r = run((Map<String, Object>) f.get("plan"), ((Number) f.get("seed")).longValue(), search ? null
        : ints(f.get("switches")), search ? null : ints(f.get("choices")), true);
    if (!Arrays.asList(a).contains("--quiet")) {
      r.history.forEach(System.out::println);
      System.out.println("faults injected: " + r.faults);
    }
    if (r.harnessError != null) {
      r.harnessError.printStackTrace(System.out);
    }
    if (r.inconclusive != null) {
      System.out.println("INCONCLUSIVE " + r.inconclusive);
    }
    boolean same = false;
    for (Violation v : r.violations) {
      System.out.println("violation of " + String.join(",", v.props) + " [" + v.kind + "]: " + v.detail);
      same |= v.about(prop) && v.kind.equals(f.get("kind"));
    }
    String d = Long.toHexString(r.historyDigest);
    System.out.println("history digest " + d + (f.get("digest") == null ? "" : d.equals(f.get("digest"))
        ? " (same as recorded)" : " (recorded: " + f.get("digest") + ")"));
    System.out.println(same ? "REPRODUCED property=" + prop + " kind=" + f.get("kind") : "NOT REPRODUCED");
    return same ? 1 : 0;
  }

  /** prints history digests of the first n runs, for determinism comparisons between processes */
  static void digest(String[] a) throws Exception {
    String prop = opt(a, "property", "C01");
    int n = Integer.parseInt(opt(a, "n", "100"));
    long seed = Long.parseLong(opt(a, "seed", "1"));
    for (int i = 0; i < n; i++) {
      long s = Rng.mix(Rng.hash(prop) ^ Rng.mix(seed * 1000003 + i));
      RunResult r = run(Gen.plan(prop, s), Rng.mix(s ^ 77), null, null, false);
      System.out.println(i + " " + Long.toHexString(r.historyDigest) + " " + Long.toHexString(r.scheduleDigest) + " " + r.steps);
    }
  }

  // ---- check

  final String prop;
  final String tier;
  final long seed;
  final double secs;
  final String out;
  final String evidence;
  final String known;
  final String knownDir;
  final String[] args;
  final long t0 = System.nanoTime();
  final ExecutorService pool = Executors.newFixedThreadPool(nThreads, r -> {
    Thread t = new Thread(null, r, "sim", 16L << 20);
    // simulated threads inherit this, as the threads of an ordinary main program do
    t.setDaemon(false);
    return t;
  });
  final AtomicLong nextRun = new AtomicLong();
  final AtomicLong runs = new AtomicLong();
  final AtomicLong steps = new AtomicLong();
  final AtomicLong simNanos = new AtomicLong();
  final AtomicLong switches = new AtomicLong();
  final AtomicLong nontrivial = new AtomicLong();
  final AtomicLong inconclusive = new AtomicLong();
  final AtomicLong harnessErrors = new AtomicLong();
  final AtomicLong checkedTwice = new AtomicLong();
  final AtomicLong mismatches = new AtomicLong();
  final AtomicLong unreproducible = new AtomicLong();
  final AtomicLong knownHits = new AtomicLong();
  final Set<Long> histories = ConcurrentHashMap.newKeySet();
  final Set<Long> schedules = ConcurrentHashMap.newKeySet();
  final Map<String, Integer> faults = new ConcurrentHashMap<>();
  final Map<String, Integer> probes = new ConcurrentHashMap<>();
  final Map<String, Integer> inconclusiveWhy = new ConcurrentHashMap<>();
  final List<Object> samples = Collections.synchronizedList(new ArrayList<>());
  final AtomicReference<String> firstHarnessError = new AtomicReference<>();
  final Map<String, String> knownSigs = new LinkedHashMap<>();

  Main(String[] a) {
    args = a;
    prop = opt(a, "property", "C01");
    tier = opt(a, "tier", "quick");
    seed = Long.parseLong(opt(a, "seed", "1"));
    secs = Double.parseDouble(opt(a, "secs", "15"));
    out = opt(a, "out", "out");
    evidence = opt(a, "evidence", "evidence/" + prop + ".json");
    known = opt(a, "known", "known_findings.txt");
    knownDir = opt(a, "known-dir", "known");
  }

  double wall() {
    return (System.nanoTime() - t0) / 1e9;
  }

  static final class Hit {
    Map<String, Object> plan;
    long seed;
    long index;
    RunResult r;
    Violation v;
  }

  /** known findings: "known: property=C03 kind=... replay=... <text>" */
  void loadKnown() throws Exception {
    File f = new File(known);
    if (!f.exists()) {
      return;
    }
    for (String line : Files.readAllLines(f.toPath())) {
      if (line.startsWith("known: property=" + prop + " ")) {
        String kind = line.replaceAll(".* kind=(\\S+) .*", "$1");
        knownSigs.put(kind, line);
      }
    }
  }

  @SuppressWarnings("unchecked")
  void showKnown() throws Exception {
    for (Map.Entry<String, String> e : knownSigs.entrySet()) {
      String replay = e.getValue().replaceAll(".* replay=(\\S+) .*", "$1");
      String text = e.getValue().replaceAll(".* replay=\\S+ ", "");
      Map<String, Object> f = (Map<String, Object>) Json.parse(Files.readString(Path.of(knownDir, replay)));
      Violation found = null;
      for (int i = 0; i < 3000 && found == null; i++) {
        RunResult r = i == 0 ? run((Map<String, Object>) f.get("plan"), 0, ints(f.get("switches")), ints(f.get("choices")), false)
            : run((Map<String, Object>) f.get("plan"), Rng.mix(seed * 31 + i), null, null, false);
        for (Violation v : r.violations) {
          if (v.about(prop) && v.kind.equals(e.getKey())) {
            found = v;
          }
        }
      }
      if (found != null) {
        System.out.println("KNOWN-FINDING: property=" + prop + " " + text + " (" + found.detail + ")");
      } else {
        System.out.println("note: known finding " + e.getKey() + " of " + prop + " did not show in this run");
      }
    }
  }

  Violation relevant(RunResult r) {
    for (Violation v : r.violations) {
      if (v.about(prop)) {
        if (knownSigs.containsKey(v.kind)) {
          knownHits.incrementAndGet();
        } else {
          return v;
        }
      }
    }
    return null;
  }

  static boolean has(RunResult r, String prop, String kind) {
    for (Violation v : r.violations) {
      if (v.about(prop) && v.kind.equals(kind)) {
        return true;
      }
    }
    return false;
  }

  void account(RunResult r) {
    runs.incrementAndGet();
    steps.addAndGet(r.steps);
    simNanos.addAndGet(r.simNanos);
    switches.addAndGet(r.contextSwitches);
    if (r.inconclusive != null) {
      inconclusive.incrementAndGet();
      inconclusiveWhy.merge(r.inconclusive, 1, Integer::sum);
    }
    if (r.harnessError != null) {
      harnessErrors.incrementAndGet();
      java.io.StringWriter w = new java.io.StringWriter();
      r.harnessError.printStackTrace(new java.io.PrintWriter(w));
      firstHarnessError.compareAndSet(null, w.toString());
    }
    schedules.add(r.scheduleDigest);
    if (r.nontrivial) {
      nontrivial.incrementAndGet();
      histories.add(r.historyDigest ^ Rng.mix(r.scheduleDigest));
    }
    r.faults.forEach((k, v) -> faults.merge(k, v, Integer::sum));
    r.probes.forEach((k, v) -> probes.merge(k, v, Integer::sum));
  }

  final AtomicReference<Hit> hit = new AtomicReference<>();

  void search(double until) throws Exception {
    hit.set(null);
    List<Future<?>> fs = new ArrayList<>();
    for (int w = 0; w < nThreads; w++) {
      fs.add(pool.submit(() -> {
        while (hit.get() == null && wall() < until) {
          long i = nextRun.getAndIncrement();
          long s = Rng.mix(Rng.hash(prop) ^ Rng.mix(seed * 1000003 + i));
          Map<String, Object> plan = Gen.plan(prop, s, i);
          // several schedules of every workload
          for (int k = 0; k < (plan.containsKey("maxSteps") ? 1 : 3) && hit.get() == null; k++) {
            long ss = Rng.mix(s ^ 77) + k;
            RunResult r = run(plan, ss, null, null, false);
            account(r);
            Violation v = relevant(r);
            if (v != null) {
              Hit h = new Hit();
              h.plan = plan;
              h.seed = ss;
              h.index = i;
              h.r = r;
              h.v = v;
              hit.accumulateAndGet(h, (o, n) -> o == null || n.index < o.index ? n : o);
            }
            if (k == 0 && i % 40 == 0) {
              checkedTwice.incrementAndGet();
              RunResult r2 = run(plan, ss, r.switches, r.choices, false);
              RunResult r3 = run(plan, ss, null, null, false);
              if (r2.historyDigest != r.historyDigest || r3.historyDigest != r.historyDigest) {
                mismatches.incrementAndGet();
                if (Boolean.getBoolean("dsim.debug")) {
                  mismatch(i, plan, ss, r, r2, r3);
                }
              }
            }
            if (k == 0 && i < 2) {
              RunResult rt = run(plan, ss, r.switches, r.choices, true);
              Map<String, Object> m = new LinkedHashMap<>();
              m.put("seed", ss);
              m.put("plan", plan);
              m.put("history", new ArrayList<Object>(rt.history.subList(0, Math.min(60, rt.history.size()))));
              samples.add(m);
            }
          }
        }
        return null;
      }));
    }
    for (Future<?> f : fs) {
      f.get();
    }
  }

  static synchronized void mismatch(long i, Map<String, Object> plan, long ss, RunResult r, RunResult r2, RunResult r3) throws Exception {
    System.out.println("MISMATCH run " + i + " replay=" + (r2.historyDigest != r.historyDigest) + " seed=" + (r3.historyDigest != r.historyDigest)
        + " steps " + r.steps + " " + r2.steps + " " + r3.steps);
    RunResult a = run(plan, ss, null, null, true);
    RunResult b = run(plan, ss, a.switches, a.choices, true);
    int k = 0;
    while (k < a.history.size() && k < b.history.size() && a.history.get(k).equals(b.history.get(k))) {
      k++;
    }
    for (int j = Math.max(0, k - 6); j < k + 6; j++) {
      System.out.println((j < a.history.size() ? a.history.get(j) : "-") + "   ||   " + (j < b.history.size() ? b.history.get(j) : "-"));
    }
    System.out.println(Json.write(plan));
  }

  /** counts every kind of violation, of any property, without stopping; for development */
  void survey() throws Exception {
    Map<String, AtomicLong> counts = new ConcurrentHashMap<>();
    Map<String, String> first = new ConcurrentHashMap<>();
    List<Future<?>> fs = new ArrayList<>();
    for (int w = 0; w < nThreads; w++) {
      fs.add(pool.submit(() -> {
        while (wall() < secs) {
          long i = nextRun.getAndIncrement();
          long s = Rng.mix(Rng.hash(prop) ^ Rng.mix(seed * 1000003 + i));
          Map<String, Object> plan = Gen.plan(prop, s, i);
          long ss = Rng.mix(s ^ 77);
          RunResult r = run(plan, ss, null, null, false);
          account(r);
          for (Violation v : r.violations) {
            String k = v.kind;
            counts.computeIfAbsent(k, x -> new AtomicLong()).incrementAndGet();
            if (!first.containsKey(k)) {
              Map<String, Object> f = new LinkedHashMap<>();
              f.put("property", v.props[0]);
              f.put("kind", v.kind);
              f.put("violation", v.detail);
              f.put("seed", ss);
              f.put("plan", plan);
              f.put("switches", list(r.switches));
              f.put("choices", list(r.choices));
              new File(out).mkdirs();
              File file = new File(out, "survey-" + prop + "-" + v.kind + ".json").getAbsoluteFile();
              Files.writeString(file.toPath(), Json.pretty(f));
              first.put(k, file.getName() + " " + v.detail);
            }
          }
        }
        return null;
      }));
    }
    for (Future<?> f : fs) {
      f.get();
    }
    System.out.printf("survey %s: runs=%d harnessErrors=%d inconclusive=%d %s%n", prop, runs.get(), harnessErrors.get(), inconclusive.get(), inconclusiveWhy);
    if (firstHarnessError.get() != null) {
      System.out.println(firstHarnessError.get());
    }
    for (String k : new java.util.TreeSet<>(counts.keySet())) {
      String d = first.get(k);
      System.out.println("  " + counts.get(k) + " " + k + ": " + d.substring(0, Math.min(260, d.length())));
    }
  }

  /** a run that blocks outside the simulator's control must not keep the check from giving an answer */
  void watch(double until) {
    Thread t = new Thread(() -> {
      int result = 0;
      try {
        while (wall() < until) {
          Thread.sleep(500);
        }
        System.out.println("note: a run did not end in time and was given up");
        inconclusive.incrementAndGet();
        inconclusiveWhy.merge("given up", 1, Integer::sum);
        Hit h = hit.get();
        if (h != null) {
          Map<String, Object> f = new LinkedHashMap<>();
          f.put("property", prop);
          f.put("kind", h.v.kind);
          f.put("violation", h.v.detail);
          f.put("seed", h.seed);
          f.put("plan", h.plan);
          f.put("switches", list(h.r.switches));
          f.put("choices", list(h.r.choices));
          new File(out).mkdirs();
          File file = new File(out, prop + "-" + h.v.kind + "-" + Long.toHexString(h.seed) + ".json").getAbsoluteFile();
          Files.writeString(file.toPath(), Json.pretty(f));
          if (freshReplay(file)) {
            result = 1;
            System.out.println("VIOLATION property=" + prop + " replay=" + file.getPath());
          }
        }
        writeEvidence(result);
      } catch (Throwable e) {
        e.printStackTrace();
      }
      System.out.flush();
      Runtime.getRuntime().halt(result);
    }, "watch");
    t.setDaemon(true);
    t.start();
  }

  int check() throws Exception {
    System.out.println("dsim property=" + prop + " tier=" + tier + " seed=" + seed + " workers=" + nThreads);
    loadKnown();
    pool.submit((Callable<Void>) () -> {
      showKnown();
      return null;
    }).get();
    double until = wall() + secs;
    watch(until + (tier.equals("quick") ? 240 : 600));
    int result = 0;
    while (result == 0 && wall() < until) {
      search(until);
      Hit h = hit.get();
      if (h == null) {
        break;
      }
      String f = report(h);
      if (f == null) {
        unreproducible.incrementAndGet();
        System.out.println("note: a candidate violation (" + h.v.kind + ") did not replay and is not reported");
      } else {
        result = 1;
        writeEvidence(1);
        System.out.println("VIOLATION property=" + prop + " replay=" + f);
      }
    }
    if (harnessErrors.get() > 0) {
      System.out.println("note: " + harnessErrors + " runs failed in the harness itself: " + firstHarnessError.get());
    }
    if (mismatches.get() > 0) {
      System.out.println("note: " + mismatches + " of " + checkedTwice + " repeated runs differed");
    }
    if (result == 0) {
      writeEvidence(0);
    }
    System.out.printf("runs=%d distinct=%d steps=%d inconclusive=%d repeated=%d mismatches=%d wall=%.1fs%n", runs.get(),
        histories.size(), steps.get(), inconclusive.get(), checkedTwice.get(), mismatches.get(), wall());
    if (result == 0 && (runs.get() == 0 || harnessErrors.get() * 2 > runs.get() || inconclusive.get() * 2 > runs.get())) {
      System.out.println("ERROR: the simulator could not execute the code under test");
      return 3;
    }
    return result;
  }

  // ---- minimisation and reporting

  Hit find(Map<String, Object> plan, String kind, int tries, double until) throws Exception {
    AtomicInteger n = new AtomicInteger();
    AtomicReference<Hit> got = new AtomicReference<>();
    List<Future<?>> fs = new ArrayList<>();
    for (int w = 0; w < nThreads; w++) {
      fs.add(pool.submit(() -> {
        while (got.get() == null && wall() < until) {
          int i = n.getAndIncrement();
          if (i >= tries) {
            return null;
          }
          long s = Rng.mix(i * 7919L + 13);
          RunResult r = run(plan, s, null, null, false);
          if (has(r, prop, kind)) {
            Hit h = new Hit();
            h.plan = plan;
            h.seed = s;
            h.index = i;
            h.r = r;
            got.accumulateAndGet(h, (o, x) -> o == null || x.index < o.index ? x : o);
          }
        }
        return null;
      }));
    }
    for (Future<?> f : fs) {
      f.get();
    }
    return got.get();
  }

  @SuppressWarnings("unchecked")
  static Map<String, Object> copy(Map<String, Object> p) {
    return (Map<String, Object>) Json.parse(Json.write(p));
  }

  /** all plans with one element less */
  @SuppressWarnings("unchecked")
  static List<Map<String, Object>> smaller(Map<String, Object> plan) {
    List<Map<String, Object>> out = new ArrayList<>();
    List<Object> th = (List<Object>) plan.getOrDefault("threads", List.of());
    boolean app = "app".equals(plan.get("kind"));
    for (int i = app ? 1 : 0; i < th.size(); i++) {
      Map<String, Object> c = copy(plan);
      ((List<Object>) c.get("threads")).set(i, new ArrayList<>());
      if (!((List<?>) th.get(i)).isEmpty()) {
        out.add(c);
      }
    }
    for (String k : new String[]{"acts"}) {
      List<Object> l = (List<Object>) plan.getOrDefault(k, List.of());
      for (int i = 0; i < l.size(); i++) {
        Map<String, Object> c = copy(plan);
        ((List<Object>) c.get(k)).remove(i);
        out.add(c);
      }
    }
    for (int i = 0; i < th.size(); i++) {
      List<Object> ops = (List<Object>) th.get(i);
      for (int j = 0; j < ops.size(); j++) {
        if (ops.size() > 1) {
          Map<String, Object> c = copy(plan);
          List<Object> o2 = (List<Object>) ((List<Object>) c.get("threads")).get(i);
          Object gone = o2.remove(j);
          if (c.get("journal") != null) {
            ((List<Object>) c.get("journal")).remove(gone);
          }
          out.add(c);
        }
      }
    }
    if (Boolean.TRUE.equals(plan.get("fine"))) {
      Map<String, Object> c = copy(plan);
      c.put("fine", false);
      out.add(c);
    }
    List<Object> ms = (List<Object>) plan.getOrDefault("machines", List.of());
    for (int i = 0; i < ms.size(); i++) {
      Map<String, Object> d = (Map<String, Object>) ms.get(i);
      for (String k : new String[]{"wrapped", "threadName"}) {
        if (d.get(k) != null) {
          Map<String, Object> c = copy(plan);
          ((Map<String, Object>) ((List<Object>) c.get("machines")).get(i)).remove(k);
          out.add(c);
        }
      }
      for (String k : new String[]{"entry", "exit"}) {
        List<Object> l = (List<Object>) d.get(k);
        for (int s = 0; s < l.size(); s++) {
          if (((Number) l.get(s)).intValue() > ("none".equals(d.get("listener")) ? 1 : 0)) {
            Map<String, Object> c = copy(plan);
            List<Object> l2 = (List<Object>) ((Map<String, Object>) ((List<Object>) c.get("machines")).get(i)).get(k);
            l2.set(s, ((Number) l.get(s)).longValue() - 1);
            out.add(c);
          }
        }
      }
    }
    return out;
  }

  Hit minimise(Hit h, double until) throws Exception {
    Hit best = h;
    boolean progress = true;
    while (progress && wall() < until) {
      progress = false;
      for (Map<String, Object> c : smaller(best.plan)) {
        if (wall() > until) {
          break;
        }
        Hit n = find(c, h.v.kind, 1500, Math.min(until, wall() + 1.5));
        if (n != null) {
          n.v = h.v;
          best = n;
          progress = true;
          break;
        }
      }
    }
    return best;
  }

  RunResult tryReplay(Map<String, Object> plan, long seed, int[] sw, int[] ch, String kind) throws Exception {
    RunResult r = pool.submit(() -> run(plan, seed, sw, ch, true)).get();
    return has(r, prop, kind) ? r : null;
  }

  static int[] without(int[] x, int at, int n) {
    int[] r = new int[x.length - 2 * n];
    System.arraycopy(x, 0, r, 0, 2 * at);
    System.arraycopy(x, 2 * (at + n), r, 2 * at, x.length - 2 * (at + n));
    return r;
  }

  String report(Hit h) throws Exception {
    String kind = h.v.kind;
    System.out.println("candidate violation [" + kind + "] in run " + h.index + ": " + h.v.detail);
    if (tryReplay(h.plan, h.seed, h.r.switches, h.r.choices, kind) == null) {
      return null;
    }
    double budget = tier.equals("quick") ? 25 : 120;
    Hit m = minimise(h, wall() + budget);
    int[] sw = m.r.switches;
    int[] ch = m.r.choices;
    RunResult r = tryReplay(m.plan, m.seed, sw, ch, kind);
    if (r == null) {
      m = h;
      sw = h.r.switches;
      ch = h.r.choices;
      r = tryReplay(m.plan, m.seed, sw, ch, kind);
      if (r == null) {
        return null;
      }
    }
    double until = wall() + budget / 3;
    for (int which = 0; which < 2; which++) {
      for (int n = Math.max(1, (which == 0 ? sw : ch).length / 4); n >= 1; n = n == 1 ? 0 : n / 2) {
        for (int at = 0; at + n <= (which == 0 ? sw : ch).length / 2 && wall() < until; ) {
          int[] s2 = which == 0 ? without(sw, at, n) : sw;
          int[] c2 = which == 1 ? without(ch, at, n) : ch;
          RunResult r2 = tryReplay(m.plan, m.seed, s2, c2, kind);
          if (r2 != null) {
            sw = s2;
            ch = c2;
            r = r2;
          } else {
            at += n;
          }
        }
      }
    }
    Violation v = null;
    for (Violation x : r.violations) {
      if (x.about(prop) && x.kind.equals(kind)) {
        v = x;
      }
    }
    Map<String, Object> f = new LinkedHashMap<>();
    f.put("property", prop);
    f.put("kind", kind);
    f.put("violation", v.detail);
    f.put("seed", m.seed);
    f.put("faults", new LinkedHashMap<String, Object>(r.faults));
    f.put("plan", m.plan);
    f.put("switches", list(sw));
    f.put("choices", list(ch));
    f.put("digest", Long.toHexString(r.historyDigest));
    f.put("history", new ArrayList<Object>(r.history));
    new File(out).mkdirs();
    File file = new File(out, prop + "-" + kind + "-" + Long.toHexString(m.seed) + ".json").getAbsoluteFile();
    Files.writeString(file.toPath(), Json.pretty(f));
    if (!freshReplay(file)) {
      return null;
    }
    System.out.println("violation [" + kind + "]: " + v.detail);
    System.out.println("minimised to " + sw.length / 2 + " scheduling decisions and " + ch.length / 2 + " fault decisions; replay with "
        + "dsim/replay.sh " + file);
    return file.getPath();
  }

  boolean freshReplay(File f) throws Exception {
    List<String> cmd = new ArrayList<>();
    cmd.add(System.getProperty("java.home") + "/bin/java");
    cmd.addAll(java.lang.management.ManagementFactory.getRuntimeMXBean().getInputArguments());
    cmd.add("-cp");
    cmd.add(System.getProperty("java.class.path"));
    cmd.addAll(List.of("dsim.boot.Main", "replay", "--quiet", "--classes", opt(args, "classes", "build/repo"), "--file", f.getPath()));
    Process p = new ProcessBuilder(cmd).redirectErrorStream(true).redirectOutput(ProcessBuilder.Redirect.DISCARD).start();
    if (!p.waitFor(60, TimeUnit.SECONDS)) {
      p.destroyForcibly();
      return false;
    }
    return p.exitValue() == 1;
  }

  // ---- evidence

  void writeEvidence(int violations) throws Exception {
    double w = wall();
    Map<String, Object> e = new LinkedHashMap<>();
    e.put("property", prop);
    e.put("tier", tier);
    e.put("seed", seed);
    e.put("level", "exploration");
    Map<String, Object> c = new LinkedHashMap<>();
    c.put("evaluations", runs.get());
    c.put("distinct_nontrivial", (long) histories.size());
    c.put("rule", "Each evaluation is one simulated execution: a plan (configuration, workload, faults) generated from the seed and"
        + " the run's index with a bias towards " + prop + ", executed under a seeded schedule (sequential, random walk or PCT; three"
        + " schedules per plan). It is non-trivial when the scheduler switched threads more than three times and the code under test"
        + " made at least one call-back; distinct means a distinct pair of schedule digest and history digest.");
    c.put("runs_per_hour", Math.round(runs.get() / w * 3600));
    c.put("workload_seeds_used", nextRun.get());
    c.put("seeds_per_hour", Math.round(nextRun.get() / w * 3600));
    c.put("simulated_seconds", Math.round(simNanos.get() / 1e6) / 1e3);
    c.put("scheduling_points", steps.get());
    c.put("context_switches", switches.get());
    c.put("distinct_interleavings", (long) schedules.size());
    c.put("interleaving_measure", "digest of the sequence of (scheduling point, thread) at every context switch of the run");
    c.put("faults_injected", new TreeMap<String, Object>(faults));
    c.put("rare_conditions_reached", new TreeMap<String, Object>(probes));
    c.put("inconclusive_runs", inconclusive.get());
    c.put("inconclusive_reasons", new TreeMap<String, Object>(inconclusiveWhy));
    c.put("harness_errors", harnessErrors.get());
    c.put("runs_repeated_for_determinism", checkedTwice.get());
    c.put("repeated_runs_that_differed", mismatches.get());
    c.put("candidates_that_did_not_replay", unreproducible.get());
    c.put("known_finding_hits", knownHits.get());
    c.put("real_components", "all classes of com.webotech.statemachine compiled from /repo's working tree; java.util collections,"
        + " java.util.concurrent queues, locks, latches and executors as bytecode copies of the JDK 21 classes with parking, monitors"
        + " and threads virtualised");
    c.put("stub_components", "thread scheduling, monitors, park/unpark, sleep, clock, thread identity, ThreadLocal, random seeds and"
        + " identity hashes (simulator); log4j LogManager (recording sink); state actions, listeners, handlers, subsystems and clients"
        + " (harness)");
    c.put("samples", new ArrayList<Object>(samples));
    e.put("coverage", c);
    e.put("assumptions", List.of("Scheduling points are field accesses of the code under test, its calls into java.util, monitors,"
        + " parking, thread operations, and (in a part of the runs) every field access inside copied unsynchronised collections;"
        + " interleavings between other instructions are not distinguished.", "The search is a sample: a clean run is evidence,"
        + " not proof."));
    e.put("wall_s", Math.round(w * 100) / 100.0);
    e.put("violations", (long) violations);
    File f = new File(evidence).getAbsoluteFile();
    f.getParentFile().mkdirs();
    Files.writeString(f.toPath(), Json.pretty(e));
  }
}
