package dsim.boot;

import java.io.InputStream;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.concurrent.ConcurrentHashMap;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.Handle;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;
import org.objectweb.asm.commons.ClassRemapper;
import org.objectweb.asm.commons.Remapper;
import org.objectweb.asm.tree.*;

/** Rewrites class files so that every source of nondeterminism goes through dsim.rt.Sim. */
public final class Transform implements Opcodes {

  enum Kind { USER, HARNESS, SAFE, UNSAFE }

  static final String SIM = "dsim/rt/Sim";
  static final String WEAK = "dsim/rt/Weak";
  static final String COPY = "dsim/jdk/";

  /** blocking or thread-creating JDK classes: copied, park and threads virtualised, otherwise run as they are */
  static final Set<String> SAFE_COPIES = Set.of(
      "java/util/concurrent/locks/AbstractOwnableSynchronizer", "java/util/concurrent/locks/AbstractQueuedSynchronizer",
      "java/util/concurrent/locks/AbstractQueuedLongSynchronizer", "java/util/concurrent/locks/ReentrantLock",
      "java/util/concurrent/locks/ReentrantReadWriteLock", "java/util/concurrent/locks/StampedLock",
      "java/util/concurrent/CountDownLatch", "java/util/concurrent/CyclicBarrier", "java/util/concurrent/Semaphore",
      "java/util/concurrent/Phaser", "java/util/concurrent/Exchanger", "java/util/concurrent/LinkedBlockingQueue",
      "java/util/concurrent/LinkedBlockingDeque", "java/util/concurrent/ArrayBlockingQueue",
      "java/util/concurrent/PriorityBlockingQueue", "java/util/concurrent/DelayQueue",
      "java/util/concurrent/SynchronousQueue", "java/util/concurrent/LinkedTransferQueue",
      "java/util/concurrent/FutureTask", "java/util/concurrent/AbstractExecutorService",
      "java/util/concurrent/ThreadPoolExecutor", "java/util/concurrent/ScheduledThreadPoolExecutor",
      "java/util/concurrent/Executors", "java/util/concurrent/ExecutorCompletionService",
      "java/util/concurrent/CompletableFuture", "java/util/Timer", "java/util/TimerTask", "java/util/TimerThread",
      "java/util/TaskQueue", "java/util/Vector", "java/util/Hashtable", "java/util/Stack", "java/util/Collections",
      "java/util/concurrent/Helpers", "java/util/concurrent/RejectedExecutionHandler",
      "java/util/concurrent/CompletionStage");

  /** unsynchronised JDK collections: copied so that races inside them can be scheduled */
  static final Set<String> UNSAFE_COPIES = Set.of("java/util/AbstractCollection", "java/util/AbstractList",
      "java/util/AbstractSequentialList", "java/util/AbstractMap", "java/util/AbstractSet", "java/util/AbstractQueue",
      "java/util/ArrayList", "java/util/ArrayDeque", "java/util/LinkedList", "java/util/HashMap", "java/util/HashSet",
      "java/util/LinkedHashMap", "java/util/LinkedHashSet", "java/util/TreeMap", "java/util/TreeSet",
      "java/util/PriorityQueue", "java/util/IdentityHashMap", "java/util/WeakHashMap");

  static final Map<String, String> ATOMICS = Map.of("java/util/concurrent/atomic/AtomicBoolean", "Z",
      "java/util/concurrent/atomic/AtomicInteger", "I", "java/util/concurrent/atomic/AtomicLong", "J",
      "java/util/concurrent/atomic/AtomicReference", "Ljava/lang/Object;");

  static final Map<String, String> STUBS = new HashMap<>();

  static {
    STUBS.put("java/util/concurrent/locks/LockSupport", "dsim/rt/SimLockSupport");
    STUBS.put("java/lang/ThreadLocal", "dsim/rt/SimThreadLocal");
    STUBS.put("java/util/concurrent/ThreadLocalRandom", "java/util/Random");
    STUBS.put("jdk/internal/vm/SharedThreadContainer", "dsim/rt/SimThreadContainer");
    STUBS.put("java/util/concurrent/ForkJoinPool", "dsim/h/SimForkJoinPool");
    STUBS.put("java/util/concurrent/atomic/LongAdder", "dsim/h/SimLongAdder");
    STUBS.put("org/apache/logging/log4j/LogManager", "dsim/rt/SimLogManager");
  }

  /** copied classes whose static state must not leak from one run into the next */
  static final Set<String> RESET_COPIES = Set.of("java/util/concurrent/Executors$DefaultThreadFactory",
      "java/util/Timer", "java/util/concurrent/CompletableFuture$Delayer");

  static String outer(String n) {
    int i = n.indexOf('$');
    return i < 0 ? n : n.substring(0, i);
  }

  static boolean copied(String n) {
    if (!n.startsWith("java/util/")) {
      return false;
    }
    String o = outer(n);
    return SAFE_COPIES.contains(o) || UNSAFE_COPIES.contains(o);
  }

  static final Remapper REMAP = new Remapper() {
    @Override
    public String map(String n) {
      String s = STUBS.get(n);
      if (s != null) {
        return s;
      }
      return copied(n) ? COPY + n.substring(5) : n;
    }
  };

  /** the code under test sees the stand-in for the result of a submission to a ForkJoinPool */
  static final Remapper USER_REMAP = new Remapper() {
    @Override
    public String map(String n) {
      return n.equals("java/util/concurrent/ForkJoinTask") ? "dsim/h/SimForkJoinTask" : REMAP.map(n);
    }
  };

  /** the harness keeps the real collections for its own book-keeping */
  static final Remapper HARNESS_REMAP = new Remapper() {
    @Override
    public String map(String n) {
      String s = STUBS.get(n);
      if (s != null) {
        return s;
      }
      return copied(n) && n.startsWith("java/util/concurrent/") ? COPY + n.substring(5) : n;
    }
  };

  private final String userDir;
  private final ClassLoader app;
  private final ConcurrentHashMap<String, byte[]> cache = new ConcurrentHashMap<>();
  private final ConcurrentHashMap<String, Meta> metas = new ConcurrentHashMap<>();

  static final class Meta {
    boolean exists;
    String superName;
    String[] itfs;
    Map<String, Integer> fields = new HashMap<>();
    boolean ensure;
    boolean itf;
  }

  Transform(String userDir, ClassLoader app) {
    this.userDir = userDir;
    this.app = app;
  }

  static boolean isUser(String n) {
    return n.startsWith("com/webotech/");
  }

  static boolean isHarness(String n) {
    return n.startsWith("dsim/h/");
  }

  /** original class file of an (unmapped) internal name */
  byte[] original(String n) {
    try {
      if (isUser(n)) {
        java.io.File f = new java.io.File(userDir, n + ".class");
        return f.exists() ? java.nio.file.Files.readAllBytes(f.toPath()) : null;
      }
      try (InputStream in = n.startsWith("java/") ? ClassLoader.getSystemResourceAsStream(n + ".class")
          : app.getResourceAsStream(n + ".class")) {
        return in == null ? null : in.readAllBytes();
      }
    } catch (Exception e) {
      throw new RuntimeException(e);
    }
  }

  /** metadata by original name */
  Meta meta(String n) {
    return metas.computeIfAbsent(n, k -> {
      Meta m = new Meta();
      byte[] b = k.startsWith("[") ? null : original(k);
      if (b == null) {
        return m;
      }
      ClassNode c = new ClassNode();
      new ClassReader(b).accept(c, ClassReader.SKIP_CODE | ClassReader.SKIP_DEBUG | ClassReader.SKIP_FRAMES);
      m.exists = true;
      m.superName = c.superName;
      m.itfs = c.interfaces.toArray(new String[0]);
      m.itf = (c.access & ACC_INTERFACE) != 0;
      boolean st = false;
      for (FieldNode f : c.fields) {
        m.fields.put(f.name, f.access);
        if ((f.access & ACC_STATIC) != 0 && f.value == null) {
          st = true;
        }
      }
      m.ensure = st && !m.itf && (c.access & ACC_ENUM) == 0 && (isUser(k) || RESET_COPIES.contains(k));
      return m;
    });
  }

  int fieldAccess(String owner, String name) {
    String o = owner;
    while (o != null) {
      Meta m = meta(o);
      if (!m.exists) {
        return -1;
      }
      Integer a = m.fields.get(name);
      if (a != null) {
        return a;
      }
      for (String i : m.itfs) {
        int x = fieldAccess(i, name);
        if (x >= 0) {
          return x;
        }
      }
      o = m.superName;
    }
    return -1;
  }

  boolean isThread(String owner) {
    String o = owner;
    while (o != null) {
      if (o.equals("java/lang/Thread")) {
        return true;
      }
      if (!isUser(o) && !isHarness(o) && !copied(o)) {
        return false;
      }
      o = meta(o).superName;
    }
    return false;
  }

  /** name: internal name as requested from the loader (mapped) */
  byte[] classBytes(String name) {
    return cache.computeIfAbsent(name, this::make);
  }

  private byte[] make(String name) {
    String orig = name.startsWith(COPY) ? "java/" + name.substring(COPY.length()) : name;
    byte[] b = original(orig);
    if (b == null) {
      return new byte[0];
    }
    if (name.startsWith("dsim/rt/")) {
      return b;
    }
    Kind k = isUser(orig) ? Kind.USER : isHarness(orig) ? Kind.HARNESS
        : SAFE_COPIES.contains(outer(orig)) ? Kind.SAFE : Kind.UNSAFE;
    ClassNode c = new ClassNode();
    new ClassReader(b).accept(c, ClassReader.EXPAND_FRAMES);
    transform(c, k, orig);
    ClassNode d = new ClassNode();
    c.accept(new ClassRemapper(d, k == Kind.HARNESS ? HARNESS_REMAP : k == Kind.USER ? USER_REMAP : REMAP));
    if (k == Kind.SAFE || k == Kind.UNSAFE) {
      d.access |= ACC_PUBLIC;
    }
    ClassWriter w = new ClassWriter(ClassWriter.COMPUTE_MAXS);
    d.accept(w);
    return w.toByteArray();
  }

  private static MethodInsnNode sim(String name, String desc) {
    return new MethodInsnNode(INVOKESTATIC, SIM, name, desc, false);
  }

  private static MethodInsnNode weak(String name, String desc) {
    return new MethodInsnNode(INVOKESTATIC, WEAK, name, desc, false);
  }

  private void transform(ClassNode c, Kind k, String orig) {
    boolean ensure = meta(orig).ensure;
    if (k == Kind.SAFE || k == Kind.UNSAFE) {
      c.methods.removeIf(m -> Set.of("readObject", "writeObject", "readResolve", "writeReplace", "finalize",
          "readObjectNoData").contains(m.name));
      c.visibleAnnotations = null;
      c.signature = null;
    }
    List<MethodNode> add = new ArrayList<>();
    MethodNode clinit = null;
    for (MethodNode m : c.methods) {
      if (m.name.equals("<clinit>")) {
        clinit = m;
      }
      if ((m.access & (ACC_ABSTRACT | ACC_NATIVE)) != 0) {
        continue;
      }
      code(c, m, k, orig, ensure);
      if ((m.access & ACC_SYNCHRONIZED) != 0) {
        add.add(syncWrapper(c, m));
      }
    }
    c.methods.addAll(add);
    if ((k == Kind.USER || k == Kind.HARNESS) && "java/lang/Object".equals(c.superName)
        && (c.access & (ACC_INTERFACE | ACC_ANNOTATION | ACC_MODULE)) == 0
        && c.methods.stream().noneMatch(m -> m.name.equals("hashCode") && m.desc.equals("()I"))) {
      // the identity hash of an object differs from process to process and orders hash tables
      MethodNode h = new MethodNode(ACC_PUBLIC | ACC_SYNTHETIC, "hashCode", "()I", null, null);
      h.instructions.add(new VarInsnNode(ALOAD, 0));
      h.instructions.add(sim("identityHash", "(Ljava/lang/Object;)I"));
      h.instructions.add(new InsnNode(IRETURN));
      c.methods.add(h);
    }
    if (ensure) {
      ensureMethod(c, clinit);
    }
  }

  private void ensureMethod(ClassNode c, MethodNode clinit) {
    if (clinit != null) {
      clinit.name = "$dsim$clinit";
      clinit.access = ACC_PUBLIC | ACC_STATIC | ACC_SYNTHETIC;
    }
    MethodNode e = new MethodNode(ACC_PUBLIC | ACC_STATIC | ACC_SYNTHETIC, "$dsim$ensure", "()V", null, null);
    InsnList l = e.instructions;
    LabelNode end = new LabelNode();
    l.add(new FieldInsnNode(GETSTATIC, c.name, "$dsim$epoch", "I"));
    l.add(new FieldInsnNode(GETSTATIC, SIM, "epoch", "I"));
    l.add(new JumpInsnNode(IF_ICMPEQ, end));
    l.add(new FieldInsnNode(GETSTATIC, SIM, "epoch", "I"));
    l.add(new FieldInsnNode(PUTSTATIC, c.name, "$dsim$epoch", "I"));
    for (FieldNode f : c.fields) {
      if ((f.access & ACC_STATIC) == 0 || f.value != null) {
        continue;
      }
      f.access &= ~ACC_FINAL;
      switch (Type.getType(f.desc).getSort()) {
        case Type.LONG:
          l.add(new InsnNode(LCONST_0));
          break;
        case Type.DOUBLE:
          l.add(new InsnNode(DCONST_0));
          break;
        case Type.FLOAT:
          l.add(new InsnNode(FCONST_0));
          break;
        case Type.OBJECT:
        case Type.ARRAY:
          l.add(new InsnNode(ACONST_NULL));
          break;
        default:
          l.add(new InsnNode(ICONST_0));
      }
      l.add(new FieldInsnNode(PUTSTATIC, c.name, f.name, f.desc));
    }
    if (clinit != null) {
      l.add(sim("clinitEnter", "()V"));
      l.add(new MethodInsnNode(INVOKESTATIC, c.name, "$dsim$clinit", "()V", false));
      l.add(sim("clinitExit", "()V"));
    }
    l.add(end);
    l.add(new FrameNode(F_NEW, 0, new Object[0], 0, new Object[0]));
    l.add(new InsnNode(RETURN));
    c.methods.add(e);
    c.fields.add(new FieldNode(ACC_PUBLIC | ACC_STATIC | ACC_SYNTHETIC, "$dsim$epoch", "I", null, null));
  }

  private MethodNode syncWrapper(ClassNode c, MethodNode m) {
    m.access &= ~ACC_SYNCHRONIZED;
    MethodNode w = new MethodNode(m.access, m.name, m.desc, m.signature,
        m.exceptions == null ? null : m.exceptions.toArray(new String[0]));
    boolean st = (m.access & ACC_STATIC) != 0;
    m.name = m.name + "$dsim$sync";
    m.access = (m.access & ~(ACC_PUBLIC | ACC_PROTECTED | ACC_FINAL | ACC_BRIDGE)) | ACC_PRIVATE | ACC_SYNTHETIC;
    m.visibleAnnotations = null;
    InsnList l = w.instructions;
    Type[] args = Type.getArgumentTypes(m.desc);
    Type ret = Type.getReturnType(m.desc);
    int loc = st ? 0 : 1;
    List<Object> frame = new ArrayList<>();
    if (!st) {
      frame.add(c.name);
    }
    for (Type t : args) {
      loc += t.getSize();
      switch (t.getSort()) {
        case Type.LONG:
          frame.add(LONG);
          break;
        case Type.DOUBLE:
          frame.add(DOUBLE);
          break;
        case Type.FLOAT:
          frame.add(FLOAT);
          break;
        case Type.OBJECT:
        case Type.ARRAY:
          frame.add(t.getInternalName());
          break;
        default:
          frame.add(INTEGER);
      }
    }
    LabelNode a = new LabelNode();
    LabelNode b = new LabelNode();
    LabelNode h = new LabelNode();
    Runnable lock = () -> l.add(st ? new LdcInsnNode(Type.getObjectType(c.name)) : new VarInsnNode(ALOAD, 0));
    lock.run();
    l.add(sim("menter", "(Ljava/lang/Object;)V"));
    l.add(a);
    int i = 0;
    if (!st) {
      l.add(new VarInsnNode(ALOAD, 0));
      i = 1;
    }
    for (Type t : args) {
      l.add(new VarInsnNode(t.getOpcode(ILOAD), i));
      i += t.getSize();
    }
    l.add(new MethodInsnNode(st ? INVOKESTATIC : INVOKESPECIAL, c.name, m.name, m.desc, (c.access & ACC_INTERFACE) != 0));
    l.add(b);
    lock.run();
    l.add(sim("mexit", "(Ljava/lang/Object;)V"));
    l.add(new InsnNode(ret.getOpcode(IRETURN)));
    l.add(h);
    l.add(new FrameNode(F_NEW, frame.size(), frame.toArray(), 1, new Object[]{"java/lang/Throwable"}));
    lock.run();
    l.add(sim("mexit", "(Ljava/lang/Object;)V"));
    l.add(new InsnNode(ATHROW));
    w.tryCatchBlocks.add(new TryCatchBlockNode(a, b, h, null));
    return w;
  }

  private void code(ClassNode c, MethodNode m, Kind k, String orig, boolean ensure) {
    InsnList l = m.instructions;
    boolean ctor = m.name.equals("<init>");
    boolean clinit = m.name.equals("<clinit>");
    boolean user = k == Kind.USER;
    boolean yields = user && !clinit;
    int tmp = m.maxLocals;
    Set<AbstractInsnNode> mine = new HashSet<>();
    for (AbstractInsnNode n = l.getFirst(); n != null; n = n.getNext()) {
      if (mine.contains(n)) {
        continue;
      }
      int op = n.getOpcode();
      if (op == MONITORENTER || op == MONITOREXIT) {
        MethodInsnNode r = sim(op == MONITORENTER ? "menter" : "mexit", "(Ljava/lang/Object;)V");
        l.set(n, r);
        n = r;
      } else if (n instanceof FieldInsnNode) {
        FieldInsnNode f = (FieldInsnNode) n;
        int acc = fieldAccess(f.owner, f.name);
        boolean fin = acc >= 0 && (acc & ACC_FINAL) != 0;
        boolean st = op == GETSTATIC || op == PUTSTATIC;
        if (st && !f.owner.equals(orig) && meta(f.owner).ensure) {
          l.insertBefore(n, new MethodInsnNode(INVOKESTATIC, f.owner, "$dsim$ensure", "()V", false));
        }
        if (user && yields && !fin && acc >= 0 && isUser(f.owner) && !f.name.startsWith("this$")) {
          n = userField(l, f, (acc & ACC_VOLATILE) != 0, ctor, tmp);
          m.maxLocals = Math.max(m.maxLocals, tmp + 4);
        } else if (k == Kind.UNSAFE && !fin && !ctor && !clinit && !st) {
          l.insertBefore(n, sim("f", "()V"));
        } else if (k == Kind.SAFE && !fin && acc >= 0 && (acc & ACC_VOLATILE) != 0 && !st && !ctor) {
          // happens-before edges of volatile fields in copied classes
          if (op == GETFIELD) {
            InsnList q = new InsnList();
            q.add(new InsnNode(DUP));
            q.add(weak("acquire", "(Ljava/lang/Object;)V"));
            l.insertBefore(n, q);
          } else if (Type.getType(f.desc).getSize() == 1) {
            InsnList q = new InsnList();
            q.add(new InsnNode(SWAP));
            q.add(new InsnNode(DUP));
            q.add(weak("release", "(Ljava/lang/Object;)V"));
            q.add(new InsnNode(SWAP));
            l.insertBefore(n, q);
          }
        }
      } else if (n instanceof InsnNode && (op == AALOAD || op == AASTORE) && k == Kind.UNSAFE && !ctor && !clinit) {
        l.insertBefore(n, sim("f", "()V"));
      } else if (n instanceof MethodInsnNode) {
        n = call(c, m, l, (MethodInsnNode) n, k, yields, tmp, mine);
      } else if (n instanceof InvokeDynamicInsnNode) {
        indy(c, (InvokeDynamicInsnNode) n);
      }
    }
    if (user && m.name.startsWith("lambda$")) {
      l.insert(sim("y", "()V"));
    }
    if (ensure && !clinit && (ctor || (m.access & ACC_STATIC) != 0)) {
      l.insert(new MethodInsnNode(INVOKESTATIC, c.name, "$dsim$ensure", "()V", false));
    }
  }

  /** method references to virtualised methods become references to their stand-ins */
  private void indy(ClassNode c, InvokeDynamicInsnNode n) {
    for (int i = 0; i < n.bsmArgs.length; i++) {
      if (n.bsmArgs[i] instanceof Handle) {
        Handle h = (Handle) n.bsmArgs[i];
        String o = h.getOwner();
        String t = null;
        boolean st = h.getTag() == H_INVOKESTATIC;
        if (isThread(o) && h.getTag() != H_NEWINVOKESPECIAL) {
          t = thread(h.getName(), h.getDesc(), st);
          if (t != null) {
            String d = st ? h.getDesc() : "(Ljava/lang/Thread;" + h.getDesc().substring(1);
            n.bsmArgs[i] = new Handle(H_INVOKESTATIC, SIM, t, d, false);
          }
        } else if (o.equals("java/lang/System")) {
          t = system(h.getName());
          if (t != null) {
            n.bsmArgs[i] = new Handle(H_INVOKESTATIC, SIM, t, h.getDesc(), false);
          }
        }
      }
    }
  }

  private static String system(String name) {
    switch (name) {
      case "nanoTime":
      case "currentTimeMillis":
      case "exit":
        return name;
      case "identityHashCode":
        return "identityHash";
      default:
        return null;
    }
  }

  private static String thread(String name, String desc, boolean st) {
    switch (name + desc) {
      case "currentThread()Ljava/lang/Thread;":
        return "currentThread";
      case "sleep(J)V":
      case "sleep(JI)V":
      case "sleep(Ljava/time/Duration;)V":
        return "sleep";
      case "yield()V":
        return "yieldThread";
      case "onSpinWait()V":
        return "onSpinWait";
      case "interrupted()Z":
        return "interrupted";
      case "holdsLock(Ljava/lang/Object;)Z":
        return "holdsLock";
      case "start()V":
        return "start";
      case "join()V":
      case "join(J)V":
      case "join(JI)V":
      case "join(Ljava/time/Duration;)Z":
        return "join";
      case "interrupt()V":
        return "interrupt";
      case "isInterrupted()Z":
        return "isInterrupted";
      case "isAlive()Z":
        return "isAlive";
      case "getState()Ljava/lang/Thread$State;":
        return "getState";
      case "getId()J":
      case "threadId()J":
        return "threadId";
      default:
        return null;
    }
  }

  private AbstractInsnNode userField(InsnList l, FieldInsnNode f, boolean vol, boolean ctor, int tmp) {
    int op = f.getOpcode();
    boolean st = op == GETSTATIC || op == PUTSTATIC;
    Type t = Type.getType(f.desc);
    String key = f.owner + "." + f.name;
    if (ctor && op == PUTFIELD) {
      return f; // not shared yet
    }
    AbstractInsnNode lastInsn = f;
    l.insertBefore(f, sim("y", "()V"));
    LdcInsnNode clsKey = st ? new LdcInsnNode(Type.getObjectType(f.owner)) : null;
    if (ctor && !st) {
      return f;
    }
    if (vol) {
      if (op == GETFIELD || op == GETSTATIC) {
        InsnList q = new InsnList();
        if (st) {
          q.add(clsKey);
        } else {
          q.add(new InsnNode(DUP));
        }
        q.add(weak("acquire", "(Ljava/lang/Object;)V"));
        l.insertBefore(f, q);
      } else {
        InsnList q = new InsnList();
        if (st) {
          q.add(clsKey);
          q.add(weak("release", "(Ljava/lang/Object;)V"));
        } else {
          q.add(new VarInsnNode(t.getOpcode(ISTORE), tmp));
          q.add(new InsnNode(DUP));
          q.add(weak("release", "(Ljava/lang/Object;)V"));
          q.add(new VarInsnNode(t.getOpcode(ILOAD), tmp));
        }
        l.insertBefore(f, q);
      }
      return f;
    }
    String kind;
    String vd;
    switch (t.getSort()) {
      case Type.BOOLEAN:
        kind = "Z";
        vd = "Z";
        break;
      case Type.INT:
        kind = "I";
        vd = "I";
        break;
      case Type.OBJECT:
      case Type.ARRAY:
        kind = "L";
        vd = "Ljava/lang/Object;";
        break;
      default:
        return f;
    }
    InsnList q = new InsnList();
    if (op == GETFIELD || op == GETSTATIC) {
      if (!st) {
        l.insertBefore(f, new InsnNode(DUP));
        // obj, value
        // after the read: swap not needed, arguments are (obj, value, key)
      } else {
        l.insertBefore(f, clsKey);
      }
      q.add(new LdcInsnNode(key));
      q.add(weak("read" + kind, "(Ljava/lang/Object;" + vd + "Ljava/lang/String;)" + vd));
      if (kind.equals("L")) {
        q.add(new TypeInsnNode(CHECKCAST, t.getInternalName()));
      }
      lastInsn = q.getLast();
      l.insert(f, q);
    } else {
      // ..., [obj], value
      InsnList b = new InsnList();
      b.add(new VarInsnNode(t.getOpcode(ISTORE), tmp));
      if (st) {
        b.add(clsKey);
        b.add(new FieldInsnNode(GETSTATIC, f.owner, f.name, f.desc));
      } else {
        b.add(new InsnNode(DUP));
        b.add(new InsnNode(DUP));
        b.add(new FieldInsnNode(GETFIELD, f.owner, f.name, f.desc));
      }
      b.add(new VarInsnNode(t.getOpcode(ILOAD), tmp));
      b.add(new LdcInsnNode(key));
      b.add(weak(kind.equals("L") ? "write" : "write" + kind,
          "(Ljava/lang/Object;" + vd + vd + "Ljava/lang/String;)V"));
      b.add(new VarInsnNode(t.getOpcode(ILOAD), tmp));
      l.insertBefore(f, b);
    }
    return lastInsn;
  }

  private AbstractInsnNode call(ClassNode c, MethodNode m, InsnList l, MethodInsnNode n, Kind k, boolean yields, int tmp,
      Set<AbstractInsnNode> mine) {
    String o = n.owner;
    String nd = n.name + n.desc;
    boolean st = n.getOpcode() == INVOKESTATIC;
    // Thread
    if (!n.name.equals("<init>") && n.getOpcode() != INVOKESPECIAL && isThread(o)) {
      String t = thread(n.name, n.desc, st);
      if (t != null) {
        return replace(l, n, t, st ? n.desc : "(Ljava/lang/Thread;" + n.desc.substring(1));
      }
    }
    // monitors
    if (!st && (nd.equals("wait()V") || nd.equals("wait(J)V") || nd.equals("wait(JI)V") || nd.equals("notify()V")
        || nd.equals("notifyAll()V"))) {
      return replace(l, n, "o" + n.name, "(Ljava/lang/Object;" + n.desc.substring(1));
    }
    if (o.equals("java/lang/System")) {
      String t = system(n.name);
      if (t != null) {
        return replace(l, n, t, n.desc);
      }
    }
    if (nd.equals("hashCode()I") && o.equals("java/lang/Object")) {
      return replace(l, n, n.getOpcode() == INVOKESPECIAL ? "identityHash" : "hashCode", "(Ljava/lang/Object;)I");
    }
    if (o.equals("java/lang/Runtime")) {
      switch (n.name) {
        case "availableProcessors":
        case "addShutdownHook":
        case "removeShutdownHook":
          return replace(l, n, n.name, "(Ljava/lang/Runtime;" + n.desc.substring(1));
        case "exit":
        case "halt": {
          InsnList q = new InsnList();
          q.add(new InsnNode(SWAP));
          q.add(new InsnNode(POP));
          l.insertBefore(n, q);
          return replace(l, n, "exit", "(I)V");
        }
        default:
      }
    }
    if (o.equals("java/util/concurrent/TimeUnit") && n.name.equals("sleep")) {
      return replace(l, n, "sleep", "(Ljava/util/concurrent/TimeUnit;J)V");
    }
    if (o.equals("java/lang/Math") && n.name.equals("random")) {
      return replace(l, n, "mathRandom", n.desc);
    }
    if (o.equals("java/util/UUID") && n.name.equals("randomUUID")) {
      return replace(l, n, "uuid", n.desc);
    }
    if (o.equals("java/time/Instant") && nd.equals("now()Ljava/time/Instant;")) {
      return replace(l, n, "instant", n.desc);
    }
    if (o.equals("java/util/concurrent/ThreadLocalRandom") && st) {
      switch (n.name) {
        case "current":
          return replace(l, n, "random", "()Ljava/util/Random;");
        case "getProbe":
          return replace(l, n, "probe", "()I");
        case "localInit": {
          AbstractInsnNode nop = new InsnNode(NOP);
          l.set(n, nop);
          return nop;
        }
        case "advanceProbe":
          return replace(l, n, "advanceProbe", "(I)I");
        case "nextSecondarySeed":
          return replace(l, n, "nextSecondarySeed", "()I");
        default:
      }
    }
    if (o.equals("java/util/Random") && nd.equals("<init>()V")) {
      l.insertBefore(n, sim("seed", "()J"));
      n.desc = "(J)V";
      return n;
    }
    if (o.equals("java/lang/ref/Cleaner") && n.name.equals("register")) {
      return replace(l, n, "cleanerRegister", "(Ljava/lang/ref/Cleaner;Ljava/lang/Object;Ljava/lang/Runnable;)"
          + "Ljava/lang/ref/Cleaner$Cleanable;");
    }
    if (o.equals("java/util/concurrent/ForkJoinPool")) {
      switch (n.name) {
        case "managedBlock":
          return replace(l, n, "managedBlock", n.desc);
        case "getCommonPoolParallelism":
          return replace(l, n, "commonPoolParallelism", n.desc);
        default:
      }
    }
    if (n.name.equals("parallelStream") && n.desc.equals("()Ljava/util/stream/Stream;") && (k == Kind.USER || k == Kind.HARNESS)) {
      MethodInsnNode r = new MethodInsnNode(INVOKESTATIC, "dsim/rt/SimStreams", "parallelStream",
          "(Ljava/util/Collection;)Ljava/util/stream/Stream;", false);
      l.set(n, r);
      return r;
    }
    if (n.name.equals("parallel") && (k == Kind.USER || k == Kind.HARNESS)) {
      if (o.equals("java/util/stream/Stream") || o.equals("java/util/stream/BaseStream")) {
        MethodInsnNode r = new MethodInsnNode(INVOKESTATIC, "dsim/rt/SimStreams", "parallel",
            "(Ljava/util/stream/BaseStream;)Ljava/util/stream/BaseStream;", false);
        l.set(n, r);
        return r;
      }
    }
    if (n.name.equals("parallelStream") && n.desc.equals("()Ljava/util/stream/Stream;")) {
      n.name = "stream";
    }
    if (o.equals("jdk/internal/misc/Unsafe")) {
      if (n.name.equals("park")) {
        MethodInsnNode r = new MethodInsnNode(INVOKESTATIC, "dsim/rt/SimLockSupport", "unsafePark",
            "(Ljava/lang/Object;ZJ)V", false);
        l.set(n, r);
        return r;
      }
      if (n.name.equals("unpark")) {
        MethodInsnNode r = new MethodInsnNode(INVOKESTATIC, "dsim/rt/SimLockSupport", "unsafeUnpark",
            "(Ljava/lang/Object;Ljava/lang/Object;)V", false);
        l.set(n, r);
        return r;
      }
    }
    boolean atomicOp = o.equals("java/lang/invoke/VarHandle") || o.equals("jdk/internal/misc/Unsafe");
    if (k == Kind.SAFE && atomicOp && !n.name.equals("<init>") && !st && !m.name.equals("<clinit>")) {
      return around(m, l, n, tmp, 1, "sync", "sync", false, mine);
    }
    if (k == Kind.USER && yields && !n.name.equals("<init>")) {
      if (atomicOp || o.startsWith("java/util/concurrent/atomic/") && o.endsWith("FieldUpdater")) {
        l.insertBefore(n, sim("y", "()V"));
        l.insertBefore(n, weak("global", "()V"));
        MethodInsnNode after = weak("global", "()V");
        l.insert(n, after);
        mine.add(after);
        return after;
      }
      if (o.startsWith("java/util/")) {
        boolean plain = o.startsWith("java/util/function/") || o.startsWith("java/util/stream/")
            || o.equals("java/util/Objects") || o.equals("java/util/StringJoiner") || o.equals("java/util/Optional");
        if (!plain) {
          l.insertBefore(n, sim("y", "()V"));
          if (!st && n.getOpcode() != INVOKESPECIAL && !copied(o)) {
            String at = ATOMICS.get(o);
            if (at != null) {
              switch (n.name) {
                case "getPlain":
                case "getOpaque":
                case "getAcquire":
                case "get":
                case "intValue":
                case "longValue": {
                  if (!nd.endsWith(")" + at)) {
                    break;
                  }
                  l.insertBefore(n, new InsnNode(n.name.equals("getPlain") ? ICONST_0
                      : n.name.equals("getOpaque") ? ICONST_1 : ICONST_2));
                  MethodInsnNode r = weak("get" + (at.length() > 1 ? "L" : at), "(L" + o + ";I)" + at);
                  l.set(n, r);
                  return r;
                }
                case "setPlain":
                  return around(m, l, n, tmp, 0, "atomicPrePlain", "atomicPostPlain", true, mine);
                case "setOpaque":
                  return around(m, l, n, tmp, 0, "atomicPrePlain", "atomicPostSet", true, mine);
                case "set":
                case "lazySet":
                case "setRelease":
                  return around(m, l, n, tmp, 0, "atomicPre", "atomicPostSet", true, mine);
                case "toString":
                case "hashCode":
                case "equals":
                  break;
                default:
                  return around(m, l, n, tmp, 0, "atomicPre", "atomicPost", true, mine);
              }
            }
            return around(m, l, n, tmp, 0, "pre", "post", true, mine);
          }
        }
      } else if (o.equals("java/lang/Runnable") || o.equals("java/lang/Iterable")) {
        l.insertBefore(n, sim("y", "()V"));
      }
    }
    return n;
  }

  private AbstractInsnNode replace(InsnList l, MethodInsnNode n, String name, String desc) {
    MethodInsnNode r = sim(name, desc);
    l.set(n, r);
    return r;
  }

  /**
   * Wraps an instance call: spills its arguments, calls Weak.before(x) and Weak.after(x) around it, where x is the
   * receiver (argIndex 0) or the argIndex-th stack operand.
   */
  private AbstractInsnNode around(MethodNode m, InsnList l, MethodInsnNode n, int tmp, int argIndex, String before,
      String after, boolean recv, Set<AbstractInsnNode> mine) {
    Type[] args = Type.getArgumentTypes(n.desc);
    if (!recv && (args.length == 0 || args[0].getSort() != Type.OBJECT && args[0].getSort() != Type.ARRAY)) {
      return n;
    }
    int[] at = new int[args.length];
    int p = tmp + 2;
    for (int i = 0; i < args.length; i++) {
      at[i] = p;
      p += args[i].getSize();
    }
    int self = p++;
    m.maxLocals = Math.max(m.maxLocals, p);
    InsnList q = new InsnList();
    for (int i = args.length - 1; i >= 0; i--) {
      q.add(new VarInsnNode(args[i].getOpcode(ISTORE), at[i]));
    }
    if (recv) {
      q.add(new InsnNode(DUP));
      q.add(new VarInsnNode(ASTORE, self));
      q.add(new VarInsnNode(ALOAD, self));
    } else {
      q.add(new VarInsnNode(ALOAD, at[0]));
      q.add(new VarInsnNode(ASTORE, self));
      q.add(new VarInsnNode(ALOAD, self));
    }
    q.add(weak(before, "(Ljava/lang/Object;)V"));
    for (int i = 0; i < args.length; i++) {
      q.add(new VarInsnNode(args[i].getOpcode(ILOAD), at[i]));
    }
    l.insertBefore(n, q);
    InsnList r = new InsnList();
    r.add(new VarInsnNode(ALOAD, self));
    MethodInsnNode e = weak(after, "(Ljava/lang/Object;)V");
    r.add(e);
    l.insert(n, r);
    return e;
  }
}
