package cpsz;

import tlc2.overrides.ITLCOverrides;

/** The TLC operator overrides of this verification: accelerated exact arithmetic, and access to recorded traces. */
public class Overrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() {
    return new Class[] { ExactReal.class, TraceData.class, EntropyCost.class };
  }
}
