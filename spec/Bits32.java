// TLC override for Bits32.tla
import tlc2.value.impl.*;
public class Bits32 {
  static int i(Value v) { return ((IntValue) v).val; }
  public static Value And32(Value a, Value b) { return IntValue.gen(i(a) & i(b)); }
  public static Value Or32(Value a, Value b) { return IntValue.gen(i(a) | i(b)); }
  public static Value Xor32(Value a, Value b) { return IntValue.gen(i(a) ^ i(b)); }
}
