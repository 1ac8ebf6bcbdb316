SPECIFICATION Spec
CONSTANTS Keys = {1, 2}
Nodes = {1, 2, 3, 4, 5}
Its = {1, 2}
MaxAdds = 4
INVARIANTS Refines List Refs NoLeak
CHECK_DEADLOCK FALSE
