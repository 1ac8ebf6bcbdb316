SPECIFICATION Spec
INVARIANT Right
INVARIANT Untouched
PROPERTY Ends
