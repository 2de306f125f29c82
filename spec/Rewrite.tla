------------------------------ MODULE Rewrite ------------------------------
(***************************************************************************)
(* A keyring is changed by a program of file-system calls.  The process    *)
(* may die before, after or within each call, and each call may fail.      *)
(* Whatever happens the file holds, in full, the old or the new content,   *)
(* and only the new one if success was reported.                           *)
(***************************************************************************)
EXTENDS Keyring
\* how a run of the program ended: "ok", "err" or "died"
Outcomes(old, new, end) == CASE end = "ok" -> {new} [] OTHER -> {old, new}
=============================================================================
