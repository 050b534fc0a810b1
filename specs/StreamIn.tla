------------------------------ MODULE StreamIn ------------------------------
(***************************************************************************)
(* The observable behaviour of base/push_deserializer: a client pushes     *)
(* blocks of bytes, that are cut into chunks of at most `chunk` bytes and  *)
(* put in a queue of at most `chunks` chunks.  A reader consumes the       *)
(* chunks; when it is done with the last chunk of a block it calls the     *)
(* callback of that block.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES
  icfg,       \* chunk, chunks, comp.
  queue,      \* A sequence of [i |-> block, last |-> BOOLEAN, s |-> size].
  pushing,    \* [i, s] the block being pushed and the bytes to be queued.
  blocks,     \* For each block pushed, whether it has a callback.
  current,    \* The chunk being read.
  taken,      \* Number of non-empty chunks taken by the reader.
  done,       \* Number of blocks whose callback was called, or that have none.
  state       \* "open", "complete", "joined".

inVars == <<icfg, queue, pushing, blocks, current, taken, done, state>>

NoPush == [i |-> -1, s |-> -1, left |-> 0]
NoChunk == [i |-> -1, last |-> FALSE, s |-> -1]

InInit ==
  /\ queue = <<>>
  /\ pushing = NoPush
  /\ blocks = <<>>
  /\ current = NoChunk
  /\ taken = 0
  /\ done = 0
  /\ state = "open"

InvokePush(i, s, cb) ==
  /\ pushing = NoPush
  /\ i = Len(blocks)
  /\ blocks' = Append(blocks, cb)
  \* At least one chunk is needed.
  /\ pushing' = [i |-> i, s |-> s, left |-> IF s = 0 \/ icfg.comp THEN 1
                                            ELSE (s + icfg.chunk - 1) \div icfg.chunk]
  /\ UNCHANGED <<icfg, queue, current, taken, done, state>>

\* Silent: a chunk is added to the queue.
EnqueueChunk ==
  /\ pushing.left > 0
  /\ Len(queue) < icfg.chunks
  /\ queue' = Append(queue, [i |-> pushing.i,
                             last |-> pushing.left = 1,
                             s |-> pushing.s])
  /\ pushing' = [pushing EXCEPT !.left = @ - 1]
  /\ UNCHANGED <<icfg, blocks, current, taken, done, state>>

ReturnPush(i) ==
  /\ pushing.i = i
  /\ pushing.left = 0
  /\ pushing' = NoPush
  /\ UNCHANGED <<icfg, queue, blocks, current, taken, done, state>>

\* The reader has nothing left to do for the current chunk.
Settled == current = NoChunk \/ ~current.last \/ done = current.i + 1

\* The reader obtains the next chunk.
TakeChunk ==
  /\ queue # <<>>
  /\ Settled
  /\ current.s # 0
  /\ current' = Head(queue)
  /\ queue' = Tail(queue)
  /\ taken' = taken + 1
  /\ UNCHANGED <<icfg, pushing, blocks, done, state>>

\* The reader calls the callback of a block, none of which is needed anymore.
Callback(i) ==
  /\ current.i = i
  /\ current.last
  /\ done = i
  /\ blocks[i + 1]
  /\ done' = done + 1
  /\ UNCHANGED <<icfg, queue, pushing, blocks, current, taken, state>>

\* Silent: there is no callback.
NoCallback ==
  /\ current # NoChunk
  /\ current.last
  /\ done = current.i
  /\ ~blocks[current.i + 1]
  /\ done' = done + 1
  /\ UNCHANGED <<icfg, queue, pushing, blocks, current, taken, state>>

\* The end of the stream was reached.
Complete ==
  /\ state = "open"
  /\ current.s = 0
  /\ Settled
  /\ state' = "complete"
  /\ UNCHANGED <<icfg, queue, pushing, blocks, current, taken, done>>

Join ==
  /\ state = "complete"
  /\ state' = "joined"
  /\ UNCHANGED <<icfg, queue, pushing, blocks, current, taken, done>>

-----------------------------------------------------------------------------
(* Properties. *)

BoundedQueue == Len(queue) <= icfg.chunks
\* The callbacks are called in order, after their block was entirely read.
CallbacksInOrder ==
  \A k \in 1..Len(queue) : queue[k].i >= done
\* At the end every callback was called.
CompleteMeansAll == state # "open" => queue = <<>> /\ done = Len(blocks)
=============================================================================
