import tlc2.overrides.ITLCOverrides;

/** Registers Crypto's operators with TLC (-Dtlc2.overrides.TLCOverrides=...). */
public class VfOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    public Class[] get() { return new Class[] { CryptoOverrides.class }; }
}
