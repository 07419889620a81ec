package dsim.boot;

/** Defines one simulated world: code under test, copied JDK classes, runtime and harness. */
public final class SimLoader extends ClassLoader {
  private final Transform tf;

  static {
    registerAsParallelCapable();
  }

  public SimLoader(Transform tf, ClassLoader parent) {
    super(parent);
    this.tf = tf;
  }

  @Override
  protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
    if (name.startsWith("com.webotech.") || name.startsWith("dsim.rt.") || name.startsWith("dsim.h.")
        || name.startsWith("dsim.jdk.")) {
      synchronized (getClassLoadingLock(name)) {
        Class<?> c = findLoadedClass(name);
        if (c == null) {
          byte[] b = tf.classBytes(name.replace('.', '/'));
          if (b.length == 0) {
            throw new ClassNotFoundException(name);
          }
          c = defineClass(name, b, 0, b.length);
        }
        return c;
      }
    }
    return super.loadClass(name, resolve);
  }
}
