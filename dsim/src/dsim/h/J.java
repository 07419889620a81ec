package dsim.h;

import java.util.Collections;
import java.util.List;
import java.util.Map;

/** typed access to plan trees */
@SuppressWarnings("unchecked")
public final class J {
  public static Map<String, Object> map(Object o) {
    return (Map<String, Object>) o;
  }

  public static List<Object> list(Map<String, Object> m, String k) {
    Object o = m.get(k);
    return o == null ? Collections.emptyList() : (List<Object>) o;
  }

  public static int i(Map<String, Object> m, String k, int d) {
    Object o = m.get(k);
    return o == null ? d : ((Number) o).intValue();
  }

  public static double d(Map<String, Object> m, String k, double d) {
    Object o = m.get(k);
    return o == null ? d : ((Number) o).doubleValue();
  }

  public static String s(Map<String, Object> m, String k, String d) {
    Object o = m.get(k);
    return o == null ? d : o.toString();
  }

  public static boolean b(Map<String, Object> m, String k) {
    return Boolean.TRUE.equals(m.get(k));
  }
}
