-------------------------- MODULE TraceHashToCurve --------------------------
(* One recorded call of the real hash-to-curve per line, with the calls it  *)
(* made into its hasher (a recording hasher) in order.                      *)
EXTENDS HashToCurve, TLC, Json, IOUtils
CONSTANT Compat    \* the encoding's y-sign comes from bit 377 instead of bit 383

RealP == <<1, 0, 0, 0, 0, 192, 8, 133, 0, 0, 0, 48, 68, 93, 11, 23, 0, 72, 9, 186, 47, 98, 243, 30, 143, 19, 245, 0, 243, 217, 34, 26, 59, 73, 161, 108, 192, 5, 59, 198, 234, 16, 197, 23, 70, 58, 174, 1>>
RealHalf == <<0, 0, 0, 0, 0, 96, 132, 66, 0, 0, 0, 24, 162, 174, 133, 11, 0, 164, 4, 221, 23, 177, 121, 143, 199, 137, 122, 128, 249, 108, 17, 141, 157, 164, 80, 54, 224, 130, 29, 99, 117, 136, 226, 11, 35, 29, 215, 0>>
W == INSTANCE Codec WITH P <- RealP, Half <- RealHalf, R <- << >>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Parts == atoi(IOEnv.PARTS)
N == Len(Trace)
VARIABLES l, i
vars == << h2cvars, l, i >>

TraceInit == H2CInit /\ l \in 1..Parts /\ i = 1
Ev == Trace[l]
Call == Ev.calls[i]
Consume == i' = i + 1 /\ UNCHANGED l

THashLen == /\ st = "idle" /\ l <= N /\ Ev.op = "hlen"
            /\ Ev.out = HashLength(Ev.n)
            /\ l' = l + Parts /\ UNCHANGED << h2cvars, i >>
\* the decoding of a candidate on its own: bit 7 of the last byte asks for the larger root, bit 6 marks infinity (with
\* a zero abscissa only), the other bits beyond the modulus are dropped in each component
Masked(b) == [ k \in 1..Len(b) |-> IF k % 48 = 0 THEN b[k] % 2 ELSE b[k] ]
DecodedOk ==
  LET x == Masked(Ev.bytes) top == Ev.bytes[Len(Ev.bytes)] IN
  CASE ~W!Reduced(x)                                       -> Ev.out.st = "none"
    [] W!Reduced(x) /\ W!IsZero(x) /\ (top \div 64) % 2 = 1 -> Ev.out.st = "inf"
    [] OTHER -> IF ~Ev.exists THEN Ev.out.st = "none"
                ELSE /\ Ev.out.st = "pt" /\ Ev.out.oncurve /\ Ev.out.x = x
                     /\ W!IsZero(Ev.out.y) \/ (W!Positive(Ev.out.y) <=> top >= 128)   \* a point of order two has one root only
TDecode == /\ st = "idle" /\ l <= N /\ Ev.op = "decode"
           /\ DecodedOk
           /\ l' = l + Parts /\ UNCHANGED << h2cvars, i >>
\* the flags of one byte: read, and written back
TFlags == /\ st = "idle" /\ l <= N /\ Ev.op = "flags"
          /\ Ev.pos = (Ev.byte >= 128) /\ Ev.inf = ((Ev.byte \div 64) % 2 = 1)
          /\ Ev.back = 64 * (Ev.byte \div 64)
          /\ l' = l + Parts /\ UNCHANGED << h2cvars, i >>
TStart == /\ st = "idle" /\ l <= N /\ Ev.op = "hash"
          /\ Start(Ev.mode, Ev.domain, Ev.msg, Ev.extra, Ev.nbytes)
          /\ i' = 1 /\ UNCHANGED l
TDigest == /\ st = "trying" /\ i <= Len(Ev.calls) /\ Call.fn = "crh" /\ Call.ok
           /\ Digest(Call.domain, Call.input, Call.len, Call.out) /\ Consume
TCandidate == /\ st = "trying" /\ i <= Len(Ev.calls) /\ Call.fn = "xof" /\ Call.ok
              /\ Candidate(Call.domain, Call.input, Call.len, Call.kind) /\ Consume
TError == /\ st = "trying" /\ i <= Len(Ev.calls) /\ ~Call.ok
          /\ HasherError(Call.domain) /\ Consume
TExhausted == Exhausted /\ UNCHANGED << l, i >>
\* the point returned is candidate i - 1's, with the sign its encoding asks for
TFinish == /\ CASE st = "found"   -> /\ Ev.st = "ok" /\ Ev.attempt = c /\ Ev.ptcall = i - 1
                                     /\ Ev.ptpos = (IF Compat THEN Ev.calls[i - 1].b1 ELSE Ev.calls[i - 1].b7)
                                     /\ Ev.subgroup
             [] st = "failed"  -> Ev.st = "err" /\ Ev.err = "HashToCurveError"
             [] st = "hasherr" -> Ev.st = "err" /\ Ev.err = Ev.calls[i - 1].err
             [] OTHER -> FALSE
           /\ i = Len(Ev.calls) + 1
           /\ Finish /\ l' = l + Parts /\ i' = 1
TEnd == st = "idle" /\ l > N /\ UNCHANGED vars
TraceNext == THashLen \/ TDecode \/ TFlags \/ TStart \/ TDigest \/ TCandidate \/ TError \/ TExhausted \/ TFinish \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
