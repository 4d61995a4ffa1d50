"""One function per property."""
import vlib
from vlib import THOROUGH


def flip_out(e, rnd):
    """Corrupt one element of the recorded output."""
    o = e.get("out")
    if e.get("st") != "ok" or not isinstance(o, list) or not o:
        return None
    i = rnd.randrange(len(o))
    if not isinstance(o[i], int):
        return None
    o[i] = o[i] ^ 1
    return e


def C01(c):
    g, t = c.path("gen.ndjson"), c.path("trace.ndjson")
    c.model("MCDirectHasher", gen=g, must_cover=["Call", "CrhStep", "XofStep", "XofEnd", "Return"])
    c.drive("core-real", "hash", g, t)
    c.conform("TraceDirectHasher", t, parts=64, corrupt=flip_out)


def corrupt_h2c(e, rnd):
    if e["op"] == "hlen":
        e["out"] += 1
    elif e["op"] == "flags":
        e["back"] ^= 64
    elif e["op"] == "decode":
        if e["out"]["st"] == "pt":
            e["out"]["x"][0] ^= 1
        else:
            e["out"] = {"st": "inf" if e["out"]["st"] == "none" else "none"}
    elif e["st"] == "ok" and rnd.random() < 0.5:
        e["attempt"] += 1
    elif e["st"] == "ok":
        e["ptpos"] ^= 1
    else:
        return None
    return e


def h2c(c, mode):
    g = c.path("gen.ndjson")
    c.model("MCHashToCurve", gen=g, must_cover=["MCStart", "MCDigest", "MCCandidate", "MCErr", "MCExh", "MCFinish"])
    for variant, cfg in (("", "TraceHashToCurve.cfg"), ("nc", "TraceHashToCurveNC.cfg")):
        t = c.path("trace%s.ndjson" % variant)
        c.drive("drv-crypto", "h2c", g, t, env={"H2C_MODE": mode}, variant=variant)
        c.conform("TraceHashToCurve", t, cfg=cfg, parts=64, corrupt=corrupt_h2c)


def C03(c):
    h2c(c, "legacy")


def C04(c):
    h2c(c, "cip22")


def C11(c):
    g, t = c.path("gen.ndjson"), c.path("trace.ndjson")
    c.model("MCBitConv", gen=g, must_cover=["Feed"])
    c.drive("core-real", "conv", g, t)
    c.conform("TraceBitConv", t, parts=64, corrupt=flip_out)


ACTS = ["DoNewKey", "DoSign", "DoSignPop", "DoTamper", "DoVerify", "DoVerifyPop", "DoAggKeys", "DoAggSigs", "DoCombKeys",
        "DoCombSigs", "DoMulti", "DoBatchNew", "DoBatchAdd", "DoBatchVerify", "DoBatchEach"]


def corrupt_session(e, rnd):
    i = rnd.randrange(len(e["ops"]))
    o = e["ops"][i]
    if "res" in o and rnd.random() < 0.5:
        o["res"] = "VerificationFailed" if o["res"] == "ok" else "ok"
    else:
        o["cls"] += 1
        if o["op"] in ("verify", "verifypop", "multi", "bnew", "badd", "bverify", "beach", "exps"):
            return None
    return e


def bls(c, fam, name):
    c.model("MCBls", cfg="MCBlsDeep.cfg" if THOROUGH else "MCBls.cfg", must_cover=ACTS, timeout=1700)
    g = c.path("sim.ndjson")
    c.simulate("MCBls", "SimBls%s.cfg" % name, g, 3000 if THOROUGH else 250)
    for h, cfg in (("legacy", "TraceBls.cfg"), ("cip22", "TraceBlsCip22.cfg")):
        t = c.path("trace-%s.ndjson" % h)
        c.drive("drv-crypto", "bls", g, t, env={"BLS_FAM": fam, "BLS_HASHERS": h}, timeout=3000 if THOROUGH else 400)
        c.conform("TraceBls", t, cfg=cfg, corrupt=corrupt_session)


def C06(c):
    bls(c, "sig", "Sig")


def C07(c):
    bls(c, "agg", "Agg")


def C08(c):
    bls(c, "batch", "Batch")


def C09(c):
    c.model("MCKeyCache", cfg="MCKeyCacheDeep.cfg" if THOROUGH else "MCKeyCache.cfg", must_cover=["DoDe", "DoAgg", "DoClear"])
    g, t = c.path("sim.ndjson"), c.path("trace.ndjson")
    c.simulate("MCKeyCache", "SimKeyCache.cfg", g, 2000 if THOROUGH else 200)
    c.drive("drv-crypto", "cache", g, t)

    def corrupt(e, rnd):
        o = e["ops"][rnd.randrange(len(e["ops"]))]
        o[rnd.choice([k for k in ("out", "combined") if k in o])] += 1
        return e
    c.conform("TraceKeyCache", t, corrupt=corrupt)


def C10(c):
    g, t = c.path("gen.ndjson"), c.path("trace.ndjson")
    c.model("MCCodec", gen=g, must_cover=["Enc", "Dec", "DecShort", "DecScalar"])
    c.drive("drv-crypto", "codec", g, t)

    def corrupt(e, rnd):
        if e["op"] == "enc":
            e["out"][rnd.randrange(len(e["out"]))] ^= 1
        elif e["out"]["st"] == "pt":
            e["out"]["x"][rnd.randrange(len(e["out"]["x"]))] ^= 1
        else:
            e["out"]["st"] = "inf" if e["out"]["st"] == "err" else "err"
        return e
    c.conform("TraceCodec", t, corrupt=corrupt)


def C05(c):
    g, t = c.path("gen.ndjson"), c.path("trace.ndjson")
    c.model("MCBoweHopwood", gen=g, must_cover=["Feed", "Hash", "Refuse"])
    c.drive("drv-crypto", "composite", g, t)
    c.conform("TraceComposite", t, corrupt=flip_out)


def C02(c):
    g, t = c.path("gen.ndjson"), c.path("trace.ndjson")
    c.model("MCTotalHasher", gen=g, must_cover=["Ask", "Answer"])
    c.drive("drv-crypto", "total", g, t)

    def corrupt(e, rnd):
        e["outlen"] += 1
        return e
    c.conform("TraceTotalHasher", t, corrupt=corrupt)


def corrupt_verdict(e, rnd):
    """Flip the verdict of a circuit event, or the relation of an explored system."""
    if e["op"] == "cheat":
        return None
    if e["op"] == "system":
        if e["gadget"] == "bitmap":
            e["extra"]["value"] ^= 1
        elif e["gadget"] in ("normalize", "is_eq_zero"):
            e["gadget"] = "normalize" if e["gadget"] == "is_eq_zero" else "is_eq_zero"
        elif e["gadget"] == "multipack":
            e["roles"]["bits"].reverse()
            if len(e["roles"]["bits"]) == 1:
                return None
        return e
    if "bit" in e:
        e["bit"] ^= 1
    elif isinstance(e.get("max"), dict) and e["max"]["cls"] != "int":
        return None
    else:
        e["out"] = {"sat": "unsat", "unsat": "sat"}.get(e["out"], "sat")
    return e


def toy_systems(c, trace):
    """Recorded toy-field constraint systems are explored exhaustively; the other events go to their own specification."""
    sys_, rest = c.split(trace, lambda e: e["op"] == "system")
    c.conform("TraceR1CS", sys_, corrupt=corrupt_verdict, timeout=1500)
    return rest


def C12(c):
    g, t = c.path("gen.ndjson"), c.path("trace.ndjson")
    c.model("MCBitmap", gen=g)
    c.drive("drv-gadgets", "bitmap", g, t)
    c.conform("TraceBitmap", toy_systems(c, t), corrupt=corrupt_verdict)


def C15(c):
    g, t = c.path("gen.ndjson"), c.path("trace.ndjson")
    c.model("MCYBit", gen=g, must_cover=["Claim", "Check"])
    c.drive("drv-gadgets", "ytb", g, t)
    c.conform("TraceYBit", toy_systems(c, t), corrupt=corrupt_verdict)


def C14(c):
    g, t, t2 = c.path("gen.ndjson"), c.path("trace.ndjson"), c.path("trace-nc.ndjson")
    c.model("MCHashGadget", gen=g, must_cover=["Claim", "Check"])

    def corrupt(e, rnd):
        if e["op"] == "tries":
            return None
        if "pt" not in e and "xof" not in e:
            e["out"] = "sat"
        elif rnd.random() < 0.5 or "pt" not in e:
            e["xof"][rnd.randrange(len(e["xof"]))] ^= 1
        else:
            e["pt"] = e["pt"][::-1]
        return e if e.get("out") != "panic" and e.get("gen") != 0 else None
    c.drive("drv-gadgets", "htg", g, t)
    c.conform("TraceHashGadget", t, corrupt=corrupt)
    c.drive("drv-gadgets", "htg", g, t2, variant="nc")
    c.conform("TraceHashGadget", t2)


def C13(c):
    g, t = c.path("gen.ndjson"), c.path("trace.ndjson")
    c.model("MCBlsGadget", gen=g, must_cover=["Walk", "Walked"])
    c.drive("drv-gadgets", "bls", g, t)

    def corrupt(e, rnd):
        if e["op"] == "tries":
            return None
        if e["out"] == "sat" and e["op"] in ("agg", "bitmap", "all") and rnd.random() < 0.5:
            e["agg"] += 1
        else:
            e["out"] = "unsat" if e["out"] == "sat" else "sat"
        return e
    c.conform("TraceBlsGadget", t, corrupt=corrupt)


def C16(c):
    g, t = c.path("gen.ndjson"), c.path("trace.ndjson")
    c.model("MCEpochEncoding", gen=g, must_cover=["Write"])
    c.drive("drv-epoch", "enc", g, t)

    def corrupt(e, rnd):
        f = "bits" if e["op"] == "key" else rnd.choice(["plain", "first", "inner", "extra", "h1"])
        i = rnd.randrange(len(e[f]))
        e[f][i] ^= 1
        return e
    c.conform("TraceEpochEncoding", t, corrupt=corrupt)


def C17(c):
    g, t = c.path("gen.ndjson"), c.path("trace.ndjson")
    c.model("MCEpochData", gen=g, must_cover=["Choose", "Check"])
    c.drive("drv-epoch", "data", g, t)

    def corrupt(e, rnd):
        if e["op"] in ("tries", "cheated") or (e["op"] == "hash" and e["out"] != "sat"):
            return None
        f = rnd.choice(["firstbits", "lastbits"] + (["crh"] if e["op"] == "hash" else ["innerbits", "extrabits"]))
        e[f][rnd.randrange(len(e[f]))] ^= 1
        return e
    c.conform("TraceEpochData", t, corrupt=corrupt)


def C18(c):
    g, t = c.path("gen.ndjson"), c.path("trace.ndjson")
    c.model("MCEpochChain", gen=g, env={"PAIRS": "9000" if vlib.THOROUGH else "1500"}, must_cover=["Real", "Skip", "Verdict"])
    c.model("MCEpochWorld", must_cover=["Sign"])
    c.drive("drv-epoch", "chain", g, t)

    def corrupt(e, rnd):
        if e["op"] != "chain":
            return None
        if e["out"] == "sat" and rnd.random() < 0.6:
            k = rnd.randrange(2)
            e["inst"][k][rnd.randrange(100)] ^= 1
        else:
            e["out"] = "unsat" if e["out"] == "sat" else "sat"
            e.setdefault("firstblk", {}), e.setdefault("lastblk", {}), e.setdefault("inst", [])
        return e
    c.conform("TraceEpochChain", t, corrupt=corrupt)


def C19(c):
    g, t = c.path("gen.ndjson"), c.path("trace.ndjson")
    c.model("MCPacking", gen=g, must_cover=["DoTake"])
    c.drive("drv-epoch", "pack", g, t)

    def corrupt(e, rnd):
        if e["op"] == "tries":
            return None
        f = {"native": "elems", "circ": "vals", "packed": "vals"}.get(e["op"], "inst")
        if not e[f]:
            return None
        e[f][0][0] ^= 1
        return e
    c.conform("TracePacking", toy_systems(c, t), corrupt=corrupt)


def C20(c):
    g, t = c.path("gen.ndjson"), c.path("trace.ndjson")
    c.model("MCSnark", gen=g, must_cover=["Setup", "Prove", "AskOwn", "AskOther"])
    c.drive("drv-epoch", "snark", g, t)

    def corrupt(e, rnd):
        if e["op"] != "prove" or not e["answers"]:
            return None
        i = rnd.randrange(len(e["answers"]))
        e["answers"][i] = "failed" if e["answers"][i] == "ok" else "ok"
        return e
    c.conform("TraceSnark", t, corrupt=corrupt)


def C21(c):
    s, t = c.path("scripts.ndjson"), c.path("trace.ndjson")
    c.model("MCFfi", must_cover=["DoNewKey", "DoToPublic", "DoSign", "DoSignPop", "DoVerify", "DoVerifyPop", "DoTamper", "DoBatch", "DoStrict",
                                 "DoAggKeys", "DoSubKeys", "DoAggSigs", "DoSerialize", "DoCompress", "DoDeserialize", "DoHash", "DoRelease"])
    if vlib.THOROUGH:
        c.model("MCFfi", cfg="MCFfiDeep.cfg", timeout=1500)
    c.simulate("MCFfi", "SimFfi.cfg", s, 4000 if vlib.THOROUGH else 400, depth=80)
    c.drive("drv-ffi", "session", s, t)

    def corrupt(e, rnd):
        ops = [o for o in e["ops"] if o["op"] not in ("destroynull", "newkey", "genkey")]
        o = rnd.choice(ops)
        if o["op"] == "finish":
            o["bad"] += 1
        elif o.get("verdict") in ("yes", "no"):
            o["verdict"] = {"yes": "no", "no": "yes"}[o["verdict"]]
        elif o.get("each") and rnd.random() < 0.7:
            i = rnd.randrange(len(o["each"]))
            o["each"][i] = not o["each"][i]
        elif o.get("cls", -1) > 0:
            o["cls"] = max(1, o["cls"] - 1) if o["cls"] > 1 else 2
        else:
            o["ret"] = not o["ret"]
        return e
    c.conform("TraceFfi", t, corrupt=corrupt)


def C22(c):
    g, t = c.path("gen-codec.ndjson"), c.path("wire.ndjson")
    c.model("MCCodec", gen=g, must_cover=["Enc", "Dec", "DecShort", "DecScalar"])
    c.drive("drv-ffi", "wire", g, t)

    def corrupt(e, rnd):
        if e["op"] == "enc":
            e["out"][rnd.randrange(len(e["out"]))] ^= 1
        elif e["out"]["st"] == "ok":
            e["out"]["bytes"][rnd.randrange(len(e["out"]["bytes"]))] ^= 1
        elif e["out"]["st"] == "pt":
            e["out"]["x"][rnd.randrange(len(e["out"]["x"]))] ^= 1
        else:
            e["out"]["st"] = "inf" if e["out"]["st"] == "err" else "err"
        return e
    c.conform("TraceCodec", t, corrupt=corrupt)
    g, t = c.path("gen-epoch.ndjson"), c.path("epochs.ndjson")
    c.model("MCEpochEncoding", gen=g, must_cover=["Write"])
    c.drive("drv-ffi", "epochs", g, t)

    def corrupt(e, rnd):
        f = rnd.choice(["plain", "inner", "extra"])
        e[f][rnd.randrange(len(e[f]))] ^= 1
        return e
    c.conform("TraceEpochEncoding", t, corrupt=corrupt)
    g, t = c.path("gen-proofs.ndjson"), c.path("proofs.ndjson")
    c.model("MCSnark", gen=g, must_cover=["Setup", "Prove", "AskOwn", "AskOther"])
    c.drive("drv-ffi", "proofs", g, t)

    def corrupt(e, rnd):
        if not e["answers"]:
            return None
        l = rnd.choice([e["answers"], e["cuts"]])
        i = rnd.randrange(len(l))
        if l is e["cuts"]:
            l[i]["answer"] = "failed" if l[i]["answer"] == "ok" else "ok"
        else:
            l[i] = "failed" if l[i] == "ok" else "ok"
        return e
    c.conform("TraceSnark", t, corrupt=corrupt)
