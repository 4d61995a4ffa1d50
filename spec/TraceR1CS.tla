------------------------------ MODULE TraceR1CS ------------------------------
(* Every satisfying assignment of a recorded system is reachable here.      *)
(* Sound: it satisfies the relation the gadget stands for.  Complete: every *)
(* choice of the inputs the relation admits can be completed.               *)
EXTENDS R1CS, FiniteSets, TLC, Json, IOUtils
B == INSTANCE Bitmap WITH bits <- << >>, counted <- 0, seen <- 0
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES l, asg

S == Trace[l]
Vals(role, a) == [ i \in 1..Len(role) |-> Val(role[i], a, S.p) ]
One(role, a) == Val(role, a, S.p)

\* the low bits of a packed element, most significant first, are the chunk
ChunkOf(bits, i, size) == SubSeq(bits, (i - 1) * size + 1, IF i * size < Len(bits) THEN i * size ELSE Len(bits))
RECURSIVE BE(_, _)
BE(b, acc) == IF b = << >> THEN acc ELSE BE(Tail(b), 2 * acc + b[1])
Packs(bits, packed, size) ==
  /\ Len(packed) = (Len(bits) + size - 1) \div size
  /\ \A i \in 1..Len(packed) : LET c == ChunkOf(bits, i, size) IN packed[i] % (2 ^ Len(c)) = BE(c, 0)

\* what must follow from satisfaction
Sound ==
  Full(S, asg) =>
    CASE S.gadget = "bitmap" -> LET b == Vals(S.roles.bits, asg) IN
           /\ \A i \in 1..Len(b) : b[i] \in {0, 1}
           /\ B!AtMost(b, S.extra.value, One(S.roles.max, asg))
      [] S.gadget = "is_eq_zero" -> One(S.roles.bit, asg) = (IF One(S.roles.el, asg) = 0 THEN 1 ELSE 0)
      \* at exactly half, both answers satisfy: the recorded finding, which has its own event
      [] S.gadget = "normalize" -> \/ One(S.roles.bit, asg) = (IF One(S.roles.el, asg) > Half(S.p) THEN 1 ELSE 0)
                                   \/ One(S.roles.el, asg) = Half(S.p) /\ One(S.roles.bit, asg) = 1
      [] S.gadget = "multipack" -> LET b == Vals(S.roles.bits, asg) IN
           /\ \A i \in 1..Len(b) : b[i] \in {0, 1}
           /\ Packs(b, Vals(S.roles.packed, asg), S.extra.size)

\* which inputs must be completable (asg holds exactly the inputs)
Admits ==
  CASE S.gadget = "bitmap" -> LET b == Vals(S.roles.bits, asg) m == One(S.roles.max, asg) IN
         (\A i \in 1..Len(b) : b[i] \in {0, 1}) /\ m < Half(S.p) /\ Len(b) <= Half(S.p) /\ B!AtMost(b, S.extra.value, m)
    [] S.gadget \in {"is_eq_zero", "normalize"} -> TRUE
    [] S.gadget = "multipack" -> LET b == Vals(S.roles.bits, asg) IN
         (\A i \in 1..Len(b) : b[i] \in {0, 1}) /\ (S.extra.input = 1 => Packs(b, Vals(S.roles.packed, asg), S.extra.size))
Complete == (Len(asg) = S.inputs /\ Admits) => Completable(S, asg)

Init == l \in 1..N /\ asg = <<1>> /\ Consistent(Trace[l], <<1>>)
Assign == /\ ~Full(S, asg)
          /\ \E x \in 0..(S.p - 1) : Extends(S, asg, x) /\ asg' = Append(asg, x)
          /\ UNCHANGED l
Spec == Init /\ [][Assign]_<<l, asg>>
=============================================================================
