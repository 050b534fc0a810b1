SPECIFICATION TraceSpec
INVARIANTS EndMeansAll NeverTooMuch ChunkBounded EmptyIsLast BoundedMemory BoundedQueue CallbacksInOrder CompleteMeansAll Report
CHECK_DEADLOCK FALSE
