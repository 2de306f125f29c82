--------------------------- MODULE TraceLockState ---------------------------
(* A recorded history must be a behaviour of the lock-state machine.       *)
EXTENDS LockState, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, s) == IF c THEN {s} ELSE {}
\* one observed step o against the specified one w
BadStep(k, a, o, w) ==
  LET u == {c \in 1..k.n : ~o.locked[c]}  h == {c \in 1..k.n : o.secrets[c]} IN
  If(o.res = "ok" /\ w.res = "err" /\ a.op \in {"sign", "decrypt"}, "a locked key was used to " \o a.op)
  \cup If(o.res = "ok" /\ w.res = "err" /\ a.op \in {"unlock", "enter"}, "wrong passphrase accepted")
  \cup If(o.res # w.res /\ ~(o.res = "ok" /\ w.res = "err"), a.op \o " gave " \o o.res \o " instead of " \o w.res)
  \cup If(u \ w.st.open # {}, "unlocked without authority after " \o a.op)
  \cup If(w.st.open \ u # {}, "not unlocked after " \o a.op)
  \cup If(h \ w.st.open # {}, "secret values present in a locked key after " \o a.op)
  \cup If(~o.good, "wrong outcome of " \o a.op)
BadHistory(r) ==
  LET W == RunAll(r.k, Locked0, r.ops) IN
  If(Len(r.obs) # Len(r.ops), "history cut short")
  \cup UNION {BadStep(r.k, r.ops[j], r.obs[j], W[j]) : j \in 1..(IF Len(r.obs) < Len(r.ops) THEN Len(r.obs) ELSE Len(r.ops))}
BadProtect(r) ==
  If(r.right # "ok", "right passphrase refused: " \o r.right)
  \cup If(r.right = "ok" /\ r.values # r.want, "unlocked to other secret values")
  \cup If(r.right = "ok" /\ r.relocked # <<>>, "secret values left after locking")
  \cup If(~r.open /\ r.wrong = "ok", "wrong passphrase accepted")
  \cup If(~r.open /\ r.usable, "unlocked by a wrong passphrase")
  \cup If(~r.same, "the written key changed")
  \cup If(~r.recoded, "encrypting the secret values again gives other octets")
  \cup If(r.made # "as read", "a packet made from the secret values: " \o r.made)
  \cup If(r.altered # <<>>, "altered secret values accepted")
Bad(r) == IF r.fam = "history" THEN BadHistory(r) ELSE BadProtect(r)
TInit == i = 1
TNext == /\ i <= Len(Trace)
         /\ LET b == Bad(Trace[i]) IN b # {} => PrintT(<<"BAD", i, b>>)
         /\ i' = i + 1
         /\ i' > Len(Trace) => PrintT(<<"DONE", Len(Trace)>>)
=============================================================================
