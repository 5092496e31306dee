SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3, 4, 5} Values = {0, 1} Bounds = {0, 1} Length = 7 Emit = TRUE
INVARIANTS Answers Refines Ordered Consistent Emitted
VIEW Layout
CHECK_DEADLOCK FALSE
