SPECIFICATION Spec
CONSTANTS Depth = 2
 Multi = 1
INVARIANT NeverSuccess
INVARIANT RightCode
INVARIANT RightClass
INVARIANT OnlyFailures
INVARIANT RightHttp
INVARIANT WrapsKeep
CHECK_DEADLOCK FALSE
