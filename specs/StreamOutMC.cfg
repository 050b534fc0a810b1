SPECIFICATION Spec
INVARIANTS EndMeansAll NeverTooMuch ChunkBounded EmptyIsLast BoundedMemory
PROPERTIES Ends
