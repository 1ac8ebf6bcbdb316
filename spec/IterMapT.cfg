SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3}
Nodes = {1, 2, 3, 4, 5, 6, 7}
Its = {1, 2, 3}
MaxAdds = 4
INVARIANTS Refines List Refs NoLeak
CHECK_DEADLOCK FALSE
