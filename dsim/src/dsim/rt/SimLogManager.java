package dsim.rt;

import java.lang.reflect.Method;
import java.lang.reflect.Proxy;
import java.util.HashMap;
import java.util.Map;
import org.apache.logging.log4j.Level;
import org.apache.logging.log4j.Logger;

/** stands in for org.apache.logging.log4j.LogManager: loggers hand every call to the harness */
public final class SimLogManager {
  public interface Sink {
    void log(String logger, String level, Object[] args);
  }

  public static Sink sink;
  private static final Map<String, Logger> loggers = new HashMap<>();

  public static Logger getLogger() {
    return getLogger("?");
  }

  public static Logger getLogger(Class<?> c) {
    return getLogger(c.getName());
  }

  public static Logger getLogger(Object o) {
    return getLogger(o.getClass().getName());
  }

  public static Logger getRootLogger() {
    return getLogger("");
  }

  public static Logger getLogger(String name) {
    return loggers.computeIfAbsent(name, n -> (Logger) Proxy.newProxyInstance(SimLogManager.class.getClassLoader(),
        new Class<?>[]{Logger.class}, (p, m, a) -> call(n, p, m, a)));
  }

  private static final java.util.Set<String> LEVELS = java.util.Set.of("trace", "debug", "info", "warn", "error",
      "fatal", "log");

  private static Object call(String name, Object p, Method m, Object[] a) {
    String n = m.getName();
    if (LEVELS.contains(n)) {
      if (sink != null && Sim.cur != null) {
        Sim.noYield++;
        try {
          sink.log(name, n, a == null ? new Object[0] : a);
        } finally {
          Sim.noYield--;
        }
      }
      return null;
    }
    if (n.equals("getName") || n.equals("toString")) {
      return name;
    }
    if (n.equals("hashCode")) {
      return name.hashCode();
    }
    if (n.equals("equals")) {
      return p == a[0];
    }
    if (n.equals("getLevel")) {
      return Level.ALL;
    }
    Class<?> r = m.getReturnType();
    if (r == boolean.class) {
      return true;
    }
    if (r == org.apache.logging.log4j.LogBuilder.class) {
      return org.apache.logging.log4j.LogBuilder.NOOP;
    }
    return null;
  }
}
