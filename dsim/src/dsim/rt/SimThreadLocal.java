package dsim.rt;

import java.util.Map;
import java.util.function.Supplier;

/** stands in for java.lang.ThreadLocal */
public class SimThreadLocal<T> {
  private Supplier<? extends T> s;

  public static <S> SimThreadLocal<S> withInitial(Supplier<? extends S> s) {
    SimThreadLocal<S> t = new SimThreadLocal<>();
    t.s = s;
    return t;
  }

  protected T initialValue() {
    return s == null ? null : s.get();
  }

  @SuppressWarnings("unchecked")
  public T get() {
    Map<Object, Object> m = Sim.locals();
    if (!m.containsKey(this)) {
      m.put(this, initialValue());
    }
    return (T) m.get(this);
  }

  public void set(T v) {
    Sim.locals().put(this, v);
  }

  public void remove() {
    Sim.locals().remove(this);
  }
}
