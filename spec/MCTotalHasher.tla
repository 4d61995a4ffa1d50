---------------------------- MODULE MCTotalHasher ---------------------------
EXTENDS TotalHasher, TLC, Json, IOUtils, SequencesExt, FiniteSets
Hashers == {"direct", "composite"}
Ops == {"crh", "xof", "hash"}
Lens == (0..300) \cup {511, 512, 513, 767, 768, 1023, 1024, 1025, 4096, 8159, 8160, 8161, 8191, 8192, 8193, 16384, 32768, 65504, 65534, 65535}
Doms == (0..40) \cup {63, 64, 255, 256, 257, 260, 264, 265, 512, 65536, 65540}
MsgLens == {0, 1, 2, 31, 32, 33, 55, 56, 63, 64, 65, 127, 128, 129, 191, 192, 193, 1000, 4095, 4096, 4097, 19530}
Gen == [ hasher : Hashers, op : Ops, domain : {0, 8}, msg : {48}, len : Lens ]
  \cup [ hasher : Hashers, op : Ops, domain : Doms, msg : {0, 48}, len : {0, 1, 32, 96, 512} ]
  \cup [ hasher : Hashers, op : Ops, domain : {0, 7, 8, 9}, msg : MsgLens, len : {0, 1, 32, 33, 48, 512} ]
VARIABLES req, ans
Init == req = [hasher |-> "none"] /\ ans = [st |-> "none"]
Ask == req.hasher = "none" /\ \E r \in Gen : req' = r /\ UNCHANGED ans
Answer == req.hasher # "none" /\ ans.st = "none" /\ ans' = Outcome(req.hasher, req.op, req.domain, req.msg, req.len) /\ UNCHANGED req
Next == Ask \/ Answer
Spec == Init /\ [][Next]_<< req, ans >>
ExactOrError == ans.st = "ok" /\ req.op # "crh" => ans.outlen = req.len
NothingOnError == ans.st = "err" => ans.outlen = 0
LongRefused == ans.st # "none" /\ req.domain > 8 /\ req.op # "crh" => ans.st = "err"
ASSUME IF "GEN" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.GEN, SetToSeq(Gen)) ELSE TRUE
=============================================================================
