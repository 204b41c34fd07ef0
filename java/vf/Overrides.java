package vf;

import tlc2.overrides.ITLCOverrides;

public class Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override public Class[] get() { return new Class[] { R64Impl.class, QImpl.class, TraceIOImpl.class }; }
}
