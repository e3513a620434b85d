----------------------------- MODULE TraceBase -----------------------------
(* Reading a recorded trace, and reporting how much of it a specification can explain. *)
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils
LOCAL INSTANCE TLC
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* to be used as a CONSTRAINT, with one worker: remembers the furthest position reached *)
Progress(l) == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 0)
(* to be used as a POSTCONDITION *)
Report == PrintT(<<"EXPLAINED", TLCGet(1) - 1, Len(Trace)>>)
=============================================================================
