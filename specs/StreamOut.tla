------------------------------ MODULE StreamOut ------------------------------
(***************************************************************************)
(* The observable behaviour of base/pull_serializer: a message of `total`  *)
(* bytes is cut into chunks of at most `chunk` bytes, that are optionally  *)
(* compressed, and are pulled by a client.  The memory available is that   *)
(* of `chunks` chunks, including the one that the client was last given    *)
(* and, when compressing, the source and the destination.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES
  cfg,        \* chunk, chunks, comp, total.
  client,     \* "idle", "pulling", "pulled", "ended"
  sizes,      \* The sizes of the compressed blocks, when compressing.
  compressing,\* Whether a block is being compressed.
  ready,      \* Number of compressed blocks.
  pulled,     \* Number of chunks obtained by the client.
  delivered,  \* Number of bytes obtained by the client.
  last        \* The size of the chunk last obtained.

outVars == <<cfg, client, sizes, compressing, ready, pulled, delivered, last>>

Sum(s) == LET RECURSIVE f(_)
              f(i) == IF i = 0 THEN 0 ELSE s[i] + f(i - 1)
          IN f(Len(s))

OutInit ==
  /\ client = "idle"
  /\ sizes = <<>>
  /\ compressing = FALSE
  /\ ready = 0
  /\ pulled = 0
  /\ delivered = 0
  /\ last = -1

InvokePull ==
  /\ client = "idle"
  /\ client' = "pulling"
  /\ UNCHANGED <<cfg, sizes, compressing, ready, pulled, delivered, last>>

\* Silent: the previous chunk is released and the next one is obtained.
EffectPull(s) ==
  /\ client = "pulling"
  /\ IF delivered = cfg.total
     THEN /\ s = 0
          /\ ~compressing
     ELSE /\ s > 0
          /\ s <= cfg.chunk
          /\ delivered + s <= cfg.total
          /\ cfg.comp => /\ pulled < ready
                         /\ s = sizes[pulled + 1]
  /\ client' = "pulled"
  /\ pulled' = pulled + 1
  /\ delivered' = delivered + s
  /\ last' = s
  /\ UNCHANGED <<cfg, sizes, compressing, ready>>

ReturnPull(s) ==
  /\ client = "pulled"
  /\ s = last
  /\ client' = IF s = 0 THEN "ended" ELSE "idle"
  /\ UNCHANGED <<cfg, sizes, compressing, ready, pulled, delivered, last>>

BeginCompress(i, s) ==
  /\ cfg.comp
  /\ ~compressing
  /\ i = ready
  /\ s > 0
  /\ s <= cfg.chunk
  /\ Sum(sizes) + s <= cfg.total
  \* There is enough memory.
  /\ (1 + ready - pulled) + 2 <= cfg.chunks
  /\ sizes' = Append(sizes, s)
  /\ compressing' = TRUE
  /\ UNCHANGED <<cfg, client, ready, pulled, delivered, last>>

EndCompress(i) ==
  /\ compressing
  /\ i = ready
  /\ compressing' = FALSE
  /\ ready' = ready + 1
  /\ UNCHANGED <<cfg, client, sizes, pulled, delivered, last>>

-----------------------------------------------------------------------------
(* Properties. *)

\* The client gets everything, and nothing else.
EndMeansAll == client = "ended" => delivered = cfg.total
NeverTooMuch == delivered <= cfg.total
ChunkBounded == last <= cfg.chunk
\* Only the last chunk is empty.
EmptyIsLast == last = 0 => delivered = cfg.total
BoundedMemory ==
  cfg.comp => (1 + ready - pulled) <= cfg.chunks
=============================================================================
