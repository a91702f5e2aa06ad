package cpsz;

import java.util.*;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Accelerated counting of symbols for EntropyCost.tla; Huffman.tla compares it with the definition. */
public class EntropyCost {
  private static Object key(Value v) { return v instanceof ExactReal.Num ? (Object) ((ExactReal.Num) v).d : v; }
  private static int count(Value v) { return v instanceof ExactReal.Num ? (int) ((ExactReal.Num) v).d : ((IntValue) v).val; }

  private static Value sorted(Map<Object, Integer> count) {
    int[] c = new int[count.size()];
    int i = 0;
    for (int x : count.values()) c[i++] = x;
    Arrays.sort(c);
    Value[] r = new Value[c.length];
    for (i = 0; i < c.length; i++) r[i] = IntValue.gen(c[i]);
    return new TupleValue(r);
  }

  @TLAPlusOperator(identifier = "Sorted", module = "EntropyCost", warn = false)
  public static Value sorted(final Value m) {
    Map<Object, Integer> n = new HashMap<>();
    for (Value v : ExactReal.elems(m)) n.merge(key(v), 1, Integer::sum);
    return sorted(n);
  }

  @TLAPlusOperator(identifier = "SortedRuns", module = "EntropyCost", warn = false)
  public static Value sortedRuns(final Value v, final Value c) {
    Map<Object, Integer> n = new HashMap<>();
    Value[] a = ExactReal.elems(v), b = ExactReal.elems(c);
    for (int i = 0; i < a.length; i++) n.merge(key(a[i]), count(b[i]), Integer::sum);
    return sorted(n);
  }
}
