public final class KripOver implements tlc2.overrides.ITLCOverrides {
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] {Words.class}; }
}
