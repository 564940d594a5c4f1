SPECIFICATION Spec
INVARIANTS Agreement OneStep OneKeyEach ForwardSecret AllUsed
PROPERTIES InOrder LastIsMax
CONSTANT MaxW = 6
CHECK_DEADLOCK FALSE
