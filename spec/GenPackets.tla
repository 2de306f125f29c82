----------------------------- MODULE GenPackets -----------------------------
EXTENDS PacketPool
Keys == LET A == All IN
        [i \in 1..Len(A) |-> [f |-> A[i], body |-> Body(A[i]), key |-> "packet " \o ToString(<<A[i].t, i>>)]]
ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Keys)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
