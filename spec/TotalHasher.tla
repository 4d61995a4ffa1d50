----------------------------- MODULE TotalHasher ----------------------------
(* What every hasher owes every caller, whatever the input: exactly the     *)
(* bytes asked for, or an error that names the oversized domain; and the    *)
(* same answer again.                                                       *)
EXTENDS Integers, Sequences
MaxDomain == 8
CrhLen(h) == IF h = "direct" THEN 32 ELSE 48
\* the composite CRH ignores the domain
Refused(h, op, domain) == domain > MaxDomain /\ ~(h = "composite" /\ op = "crh")
Outcome(h, op, domain, msg, len) ==
  IF Refused(h, op, domain) THEN [st |-> "err", outlen |-> 0, err |-> "DomainTooLarge", errarg |-> domain]
  ELSE [st |-> "ok", outlen |-> IF op = "crh" THEN CrhLen(h) ELSE len, err |-> "", errarg |-> 0]
=============================================================================
