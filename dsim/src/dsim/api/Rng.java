package dsim.api;

/** SplitMix64; the only source of pseudo-randomness of a simulated run. */
public final class Rng {
  private long s;

  public Rng(long seed) {
    s = seed;
  }

  public static long mix(long z) {
    z = (z ^ (z >>> 30)) * 0xbf58476d1ce4e5b9L;
    z = (z ^ (z >>> 27)) * 0x94d049bb133111ebL;
    return z ^ (z >>> 31);
  }

  public static long hash(String t) {
    long h = 1125899906842597L;
    for (int i = 0; i < t.length(); i++) {
      h = 31 * h + t.charAt(i);
    }
    return mix(h);
  }

  public long next() {
    return mix(s += 0x9e3779b97f4a7c15L);
  }

  /** uniform in [0,n) */
  public int i(int n) {
    return (int) Math.floorMod(next() >>> 1, (long) n);
  }

  /** uniform in [a,b] */
  public int in(int a, int b) {
    return a + i(b - a + 1);
  }

  public boolean p(double pr) {
    return d() < pr;
  }

  public double d() {
    return (next() >>> 11) * 0x1.0p-53;
  }

  @SafeVarargs
  public final <T> T of(T... ts) {
    return ts[i(ts.length)];
  }

  /** geometric: number of trials up to and including the first success, at least 1 */
  public int geo(double pr) {
    if (pr >= 1) {
      return 1;
    }
    double u = 1 - d();
    double g = Math.ceil(Math.log(u) / Math.log1p(-pr));
    return g < 1 ? 1 : g > 1e8 ? 100000000 : (int) g;
  }
}
