SPECIFICATION Spec
INVARIANT NoStrangers
PROPERTIES RoundTrip FailsQuietly
VIEW view
CHECK_DEADLOCK FALSE
