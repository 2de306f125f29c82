------------------------------ MODULE Equality ------------------------------
(***************************************************************************)
(* When two objects are equal.  An object is o.what with fields o.f.  What *)
(* it says is its octets without what the standard calls equivalent: the   *)
(* number of octets of a length, the order of subpackets, absent flags.    *)
(***************************************************************************)
EXTENDS Subpackets, FiniteSets
RECURSIVE Octs(_, _), Says(_, _)
Octs(what, f) ==
  CASE what \in {"packet", "signature"} -> <<f.t>> \o Body(f)
    [] what = "sub" -> SubOctets(f)
    [] what \in {"notation", "revkey"} -> Content(f)
    [] what = "s2k" -> S2K(f)
    [] what = "attribute" -> UatSub(f)
RangeOf(s) == {s[i] : i \in DOMAIN s}
Says(what, f) ==
  CASE what \in {"packet", "signature"} /\ f.t = 2 /\ f.version = 4 ->
         <<2, f.stype, f.algo, f.hash, RangeOf(f.hashed), RangeOf(f.unhashed), f.hash2, f.mpis>>
    [] what = "packet" /\ f.t = 17 -> <<17, [i \in DOMAIN f.subs |-> <<f.subs[i].type, f.subs[i].body>>]>>
    [] what = "sub" /\ f.ty \in FlagTypes -> <<f.ty, f.crit, FlagBits(f)>>
    [] what = "sub" -> <<f.ty, f.crit, Content(f)>>
    [] what = "attribute" -> <<f.type, f.body>>
    [] OTHER -> <<Octs(what, f)>>
\* what is certain
MustEqual(what, f, g) == Octs(what, f) = Octs(what, g)
\* signatures with other fields than these are certainly others
Comparable(f, g) == DOMAIN f = DOMAIN g
MustDiffer(what, f, g) == IF ~Comparable(f, g) THEN TRUE ELSE Says(what, f) # Says(what, g)
=============================================================================
