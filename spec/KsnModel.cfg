SPECIFICATION Spec
INVARIANTS Smallest Order Neighbours
CONSTANT MaxW = 7
CHECK_DEADLOCK FALSE
