----------------------------- MODULE TraceCodec -----------------------------
(* One encoding or decoding by the real code per line.                      *)
EXTENDS Codec, TLC, Json, IOUtils
RealP == <<1, 0, 0, 0, 0, 192, 8, 133, 0, 0, 0, 48, 68, 93, 11, 23, 0, 72, 9, 186, 47, 98, 243, 30, 143, 19, 245, 0, 243, 217, 34, 26, 59, 73, 161, 108, 192, 5, 59, 198, 234, 16, 197, 23, 70, 58, 174, 1>>
RealHalf == <<0, 0, 0, 0, 0, 96, 132, 66, 0, 0, 0, 24, 162, 174, 133, 11, 0, 164, 4, 221, 23, 177, 121, 143, 199, 137, 122, 128, 249, 108, 17, 141, 157, 164, 80, 54, 224, 130, 29, 99, 117, 136, 226, 11, 35, 29, 215, 0>>
RealR == <<1, 0, 0, 0, 0, 128, 17, 10, 1, 0, 0, 208, 254, 118, 170, 89, 1, 176, 55, 92, 30, 77, 180, 96, 86, 165, 44, 154, 94, 101, 171, 18>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Parts == atoi(IOEnv.PARTS)
N == Len(Trace)
VARIABLE l
TraceInit == l \in 1..Parts
Ev == Trace[l]
Width == IF Ev.ty = "key" THEN 96 ELSE 48
TEnc == /\ l <= N /\ Ev.op = "enc" /\ Ev.ty # "sk"
        /\ Ev.out = EncodePoint(Ev.pt, Width, Ev.compressed)
        \* the sizes announced are those written
        /\ Ev.size = Len(EncodePoint(Ev.pt, Width, TRUE)) /\ Ev.usize = Len(EncodePoint(Ev.pt, Width, FALSE))
        /\ l' = l + Parts
TEncScalar == /\ l <= N /\ Ev.op = "enc" /\ Ev.ty = "sk"
              /\ Ev.out = EncodeScalar(Ev.pt.x) /\ Ev.size = Len(Ev.out) /\ Ev.usize = Len(Ev.out) /\ l' = l + Parts
TDec == /\ l <= N /\ Ev.op = "dec" /\ Ev.ty # "sk"
        /\ DecodeOk(Ev.in, Width, Ev.compressed, Ev.facts, Ev.out)
        /\ l' = l + Parts
TDecScalar == /\ l <= N /\ Ev.op = "dec" /\ Ev.ty = "sk" /\ DecodeScalarOk(Ev.in, Ev.out) /\ l' = l + Parts
\* two coordinates, any two: the first and the sign of the second; what follows them is not looked at
TCompress == /\ l <= N /\ Ev.op = "compress"
             /\ LET n == Width
                    x == Take(Ev.in, n)
                    y == SubSeq(Ev.in, n + 1, 2 * n) IN
                IF Len(Ev.in) < 2 * n \/ ~Reduced(x) \/ ~Reduced(y) THEN Ev.out = [ st |-> "err" ]
                ELSE Ev.out = [ st |-> "ok", bytes |-> EncodePoint([ st |-> "pt", x |-> x, y |-> y ], n, TRUE) ]
             /\ l' = l + Parts
TEnd == l > N /\ UNCHANGED l
TraceNext == TEnc \/ TEncScalar \/ TDec \/ TDecScalar \/ TCompress \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
