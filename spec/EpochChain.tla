------------------------------ MODULE EpochChain ------------------------------
(* The chain of epochs a proof attests to.  Keys are formal multiples of    *)
(* the generator, blocks are their fields, a signature is a formal sum: how *)
(* often it holds each block's hash, the generator's, and anything else.    *)
(* A block of index zero is a dummy: it changes nothing and contributes the *)
(* generator signed by the key one.                                         *)
EXTENDS Integers, Sequences
CONSTANTS PadKey, MaxIndex
BG == INSTANCE BlsGadget WITH pc <- "", keys <- << >>, bits <- << >>, pad <- 0, i <- 0, agg <- 0, absent <- 0, refused <- FALSE

\* block: [index, round, ee, pe, mns, keys]; entropies: 0 absent, ZeroEntropy present but zero
ZeroEntropy == 9
Val(e) == IF e = ZeroEntropy THEN 0 ELSE e
State(b) == [ index |-> b.index, ee |-> Val(b.ee), mns |-> b.mns, keys |-> b.keys ]
Dummy(u) == u.b.index = 0
\* what one update must satisfy, given what came before it
Follows(st, u) == Dummy(u) \/ (u.b.index = st.index + 1 /\ u.b.index <= MaxIndex)
Linked(st, eb, u) == Dummy(u) \/ ~eb \/ Val(u.b.pe) = st.ee
Quorum(st, u) == BG!BitmapOk(st.keys, u.bits, PadKey, st.mns)
Signable(st, u) == Dummy(u) \/ BG!Agg(st.keys, u.bits) # 0
StepOk(st, eb, u) == Follows(st, u) /\ Linked(st, eb, u) /\ Quorum(st, u) /\ Signable(st, u)
StepState(st, u) == IF Dummy(u) THEN st ELSE State(u.b)
\* the aggregate expected to have signed this block; zero on a dummy's own hash
StepCoef(st, u) == IF Dummy(u) THEN 0 ELSE BG!Agg(st.keys, u.bits)

VARIABLES pc, first, chain, at, sig, st, eb, coefs, dummies, ok
cvars == << pc, first, chain, at, sig, st, eb, coefs, dummies, ok >>
\* sig: [coef: one per update, gen, junk]
CInit(f, ups, s) ==
  /\ pc = "walk" /\ first = f /\ chain = ups /\ at = 1 /\ sig = s
  /\ st = State(f) /\ eb = (Val(f.ee) # 0) /\ coefs = << >> /\ dummies = 0 /\ ok = TRUE
Advance(u) ==
  /\ ok' = (ok /\ StepOk(st, eb, u)) /\ st' = StepState(st, u) /\ coefs' = Append(coefs, StepCoef(st, u))
  /\ at' = at + 1 /\ UNCHANGED << pc, first, chain, sig, eb >>
Real == pc = "walk" /\ at <= Len(chain) /\ ~Dummy(chain[at]) /\ Advance(chain[at]) /\ UNCHANGED dummies
Skip == pc = "walk" /\ at <= Len(chain) /\ Dummy(chain[at]) /\ Advance(chain[at]) /\ dummies' = dummies + 1
Verdict == pc = "walk" /\ at > Len(chain)
  /\ pc' = (IF /\ ok /\ Len(chain) > 0 /\ ~Dummy(chain[Len(chain)])
              /\ BG!All(st.keys) # 0
              /\ sig.coef = coefs /\ sig.gen = dummies /\ sig.junk = 0
           THEN "accepted" ELSE "rejected")
  /\ UNCHANGED << first, chain, at, sig, st, eb, coefs, dummies, ok >>
CNext == Real \/ Skip \/ Verdict

\* the same, as a function of the whole chain
RECURSIVE Walk(_, _, _, _, _)
Walk(s, e, ups, k, acc) ==
  IF k > Len(ups) THEN [ acc EXCEPT !.st = s ]
  ELSE Walk(StepState(s, ups[k]), e, ups, k + 1,
            [ ok |-> acc.ok /\ StepOk(s, e, ups[k]), coef |-> Append(acc.coef, StepCoef(s, ups[k])),
              gen |-> acc.gen + (IF Dummy(ups[k]) THEN 1 ELSE 0), st |-> s ])
Walked(f, ups) == Walk(State(f), Val(f.ee) # 0, ups, 1, [ ok |-> TRUE, coef |-> << >>, gen |-> 0, st |-> State(f) ])
Accept(f, ups, s) ==
  LET w == Walked(f, ups) IN
  /\ w.ok /\ Len(ups) > 0 /\ ~Dummy(ups[Len(ups)]) /\ BG!All(w.st.keys) # 0
  /\ s.coef = w.coef /\ s.gen = w.gen /\ s.junk = 0
\* what honest signers would produce for it
HonestSig(f, ups) == LET w == Walked(f, ups) IN [ coef |-> w.coef, gen |-> w.gen, junk |-> 0 ]
=============================================================================
