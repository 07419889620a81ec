package dsim.api;

import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** Minimal JSON: Map, List, String, Long, Double, Boolean, null. */
public final class Json {

  public static String write(Object o) {
    StringBuilder b = new StringBuilder();
    w(b, o, -1, 0);
    return b.toString();
  }

  public static String pretty(Object o) {
    StringBuilder b = new StringBuilder();
    w(b, o, 1, 0);
    return b.append('\n').toString();
  }

  private static void nl(StringBuilder b, int ind, int d) {
    if (ind >= 0) {
      b.append('\n');
      for (int i = 0; i < d; i++) {
        b.append(' ');
      }
    }
  }

  private static boolean flat(Object o) {
    if (o instanceof Map) {
      for (Object v : ((Map<?, ?>) o).values()) {
        if (v instanceof Map || v instanceof List) {
          return false;
        }
      }
      return true;
    }
    if (o instanceof List) {
      for (Object v : (List<?>) o) {
        if (v instanceof Map || v instanceof List && !flat(v)) {
          return false;
        }
      }
      return ((List<?>) o).size() < 40;
    }
    return true;
  }

  private static void w(StringBuilder b, Object o, int ind, int d) {
    if (ind >= 0 && flat(o)) {
      ind = -1;
    }
    if (o == null) {
      b.append("null");
    } else if (o instanceof Map) {
      b.append('{');
      boolean first = true;
      for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) {
        if (!first) {
          b.append(',');
        }
        first = false;
        nl(b, ind, d + 1);
        str(b, String.valueOf(e.getKey()));
        b.append(':');
        w(b, e.getValue(), ind, d + 1);
      }
      nl(b, ind, d);
      b.append('}');
    } else if (o instanceof Iterable) {
      b.append('[');
      boolean first = true;
      for (Object e : (Iterable<?>) o) {
        if (!first) {
          b.append(',');
        }
        first = false;
        nl(b, ind, d + 1);
        w(b, e, ind, d + 1);
      }
      nl(b, ind, d);
      b.append(']');
    } else if (o instanceof Number || o instanceof Boolean) {
      b.append(o);
    } else {
      str(b, o.toString());
    }
  }

  private static void str(StringBuilder b, String s) {
    b.append('"');
    for (int i = 0; i < s.length(); i++) {
      char c = s.charAt(i);
      if (c == '"' || c == '\\') {
        b.append('\\').append(c);
      } else if (c < 32) {
        b.append(String.format("\\u%04x", (int) c));
      } else {
        b.append(c);
      }
    }
    b.append('"');
  }

  private final String s;
  private int p;

  private Json(String s) {
    this.s = s;
  }

  public static Object parse(String s) {
    return new Json(s).val();
  }

  private void ws() {
    while (p < s.length() && s.charAt(p) <= ' ') {
      p++;
    }
  }

  private Object val() {
    ws();
    char c = s.charAt(p);
    if (c == '{') {
      p++;
      Map<String, Object> m = new LinkedHashMap<>();
      ws();
      if (s.charAt(p) == '}') {
        p++;
        return m;
      }
      while (true) {
        ws();
        String k = st();
        ws();
        p++; // :
        m.put(k, val());
        ws();
        if (s.charAt(p++) == '}') {
          return m;
        }
      }
    }
    if (c == '[') {
      p++;
      List<Object> l = new ArrayList<>();
      ws();
      if (s.charAt(p) == ']') {
        p++;
        return l;
      }
      while (true) {
        l.add(val());
        ws();
        if (s.charAt(p++) == ']') {
          return l;
        }
      }
    }
    if (c == '"') {
      return st();
    }
    int q = p;
    while (p < s.length() && ",]} \n\r\t".indexOf(s.charAt(p)) < 0) {
      p++;
    }
    String t = s.substring(q, p);
    switch (t) {
      case "null":
        return null;
      case "true":
        return true;
      case "false":
        return false;
      default:
        if (t.indexOf('.') >= 0 || t.indexOf('E') >= 0) {
          return Double.parseDouble(t);
        }
        return Long.parseLong(t);
    }
  }

  private String st() {
    p++;
    StringBuilder b = new StringBuilder();
    while (true) {
      char c = s.charAt(p++);
      if (c == '"') {
        return b.toString();
      }
      if (c == '\\') {
        c = s.charAt(p++);
        if (c == 'u') {
          b.append((char) Integer.parseInt(s.substring(p, p + 4), 16));
          p += 4;
        } else {
          b.append(c == 'n' ? '\n' : c == 't' ? '\t' : c == 'r' ? '\r' : c);
        }
      } else {
        b.append(c);
      }
    }
  }
}
