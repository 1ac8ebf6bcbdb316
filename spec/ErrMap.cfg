SPECIFICATION Spec
CONSTANTS Depth = 1
 Multi = 2
INVARIANT NeverSuccess
INVARIANT RightCode
INVARIANT RightClass
INVARIANT OnlyFailures
INVARIANT RightHttp
INVARIANT WrapsKeep
CHECK_DEADLOCK FALSE
