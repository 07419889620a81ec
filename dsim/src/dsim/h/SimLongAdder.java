package dsim.h;

import dsim.rt.Sim;

/** Stand-in for java.util.concurrent.atomic.LongAdder as it is under contention: one cell per thread, a sum that is no snapshot. */
public class SimLongAdder extends Number {

  private final long[] cells = new long[4];

  public SimLongAdder() {
  }

  private int cell() {
    return Sim.cur == null ? 0 : Sim.cur.id & 3;
  }

  public void add(long x) {
    Sim.y();
    cells[cell()] += x;
  }

  public void increment() {
    add(1);
  }

  public void decrement() {
    add(-1);
  }

  public long sum() {
    long s = 0;
    for (long c : cells) {
      Sim.y();
      s += c;
    }
    return s;
  }

  public void reset() {
    for (int i = 0; i < cells.length; i++) {
      Sim.y();
      cells[i] = 0;
    }
  }

  public long sumThenReset() {
    long s = 0;
    for (int i = 0; i < cells.length; i++) {
      Sim.y();
      s += cells[i];
      cells[i] = 0;
    }
    return s;
  }

  @Override
  public String toString() {
    return Long.toString(sum());
  }

  @Override
  public long longValue() {
    return sum();
  }

  @Override
  public int intValue() {
    return (int) sum();
  }

  @Override
  public float floatValue() {
    return sum();
  }

  @Override
  public double doubleValue() {
    return sum();
  }
}
