SPECIFICATION Spec
INVARIANTS BoundedQueue CallbacksInOrder CompleteMeansAll
PROPERTIES Ends
CHECK_DEADLOCK FALSE
