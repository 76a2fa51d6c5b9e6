// TLC override for Eager.tla: turns a lazily evaluated function into a tuple of values.
import tlc2.value.impl.*;
public class Eager {
  public static Value Tup(Value f) { Value t = f.toTuple(); return t == null ? f : t; }
}
