SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
INVARIANT CorrectIsQuiet
INVARIANT Truthful
INVARIANT Atomic
INVARIANT Prefix
INVARIANT Untouched
PROPERTY Terminates
