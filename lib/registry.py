import peg, genseq, utf8, memseq, linecol, shortvec, filter_, notify, defseq, stream

PEG_RULE = ("behaviours of spec/Peg.tla enumerated by TLC over families of small parsers and inputs are replayed on the "
            "real combinators (several carriers, by reference and once); random larger parsers are run, their "
            "observations and calls recorded and checked by TLC against the same machine")
CHECKS = {p: (peg.run, "model_checking", PEG_RULE) for p in peg.PLAN}

GEN_RULE = ("GenSeqImpl (the chain as built) is checked by TLC to refine GenSeq; its command histories, exhaustive up to a length "
            "and random longer ones, and random recorded ones, run on the real sequence; every recorded event is checked by TLC against GenSeq")
CHECKS.update({p: (genseq.run, "model_checking", GEN_RULE) for p in genseq.PLAN})

UTF_RULE = ("Utf8Impl (the carrying validator) is checked by TLC to refine Utf8 (Unicode table 3-7) for streams of any length over the byte "
            "classes; enumerated and random streams and chunkings run on the real validator over two controls; recorded loads are checked by TLC")
CHECKS["C16"] = (utf8.run, "model_checking", UTF_RULE)

MEM_RULE = ("operations on slices of one block are checked by TLC to follow MemSeq; every short history and random long ones run on real "
            "strings, slices (also of zero-sized items) and their measured forms with a meter that remembers all it is fed; every observation is checked by TLC")
CHECKS["C09"] = (memseq.run, "model_checking", MEM_RULE)
CHECKS["C10"] = (memseq.run, "model_checking", MEM_RULE)

LC_RULE = ("the meter as built is checked by TLC to give LineCol's position for every text up to a length; all short texts in all cuts "
           "and random long ones run on the real meters, bare and through measured strings; every position is checked by TLC")
CHECKS["C11"] = (linecol.run, "model_checking", LC_RULE)

SV_RULE = ("the vector as built (capacity, inline cells, heap block) is checked by TLC to follow ShortVec; every short history and random long "
           "ones run on the real vector with items of many sizes (also zero), under an allocator that records every request; every event is checked by TLC")
CHECKS["C21"] = (shortvec.run, "model_checking", SV_RULE)
CHECKS["C22"] = (shortvec.run, "model_checking", SV_RULE)

FL_RULE = ("filters as built (nested observers) are checked by TLC to follow Filter; every short history of subscriptions and publications and "
           "random long ones run on the real filters; every question to a predicate and every delivery is checked by TLC")
CHECKS["C23"] = (filter_.run, "model_checking", FL_RULE)

NT_RULE = ("the notifier as built (version, lock, registered wakers, every shared access a step) is checked by TLC to keep Notify's promises for all "
           "programs of some threads; all small programs and random larger ones run on the real notifier under a scheduler that explores interleavings; "
           "every distinct history is checked by TLC")
CHECKS["C19"] = (notify.run, "model_checking", NT_RULE)
CHECKS["C20"] = (notify.run, "model_checking", NT_RULE)

DS_RULE = ("the default sequence as built (waiting, both looks and the end flag as separate steps, any requests of the reader, any producer) is checked by TLC "
           "to keep DefSeq's promises; all small producers and readers and random larger ones run on the real sequence under a scheduler that explores "
           "interleavings; every distinct history is checked by TLC")
CHECKS["C17"] = (defseq.run, "model_checking", DS_RULE)
CHECKS["C18"] = (defseq.run, "model_checking", DS_RULE)

ST_RULE = ("the primitive parsers as built, on a sequence that is being filled, are checked by TLC to say what Peg says of the whole; parsers and inputs enumerated "
           "from Peg and random larger ones run on a real default sequence over a real generic one, filled by another thread under a scheduler that explores "
           "interleavings; every distinct outcome is checked by TLC against the meaning in PegSem")
CHECKS["C26"] = (stream.run, "model_checking", ST_RULE)


def replay(c, d):
    if d["kind"] == "stream" or (d["kind"] == "crash" and d["args"][0].startswith("stream")):
        if d["kind"] == "crash":
            import json
            d = {"case": json.loads(d["case"])}
        return stream.replay(c, d)
    if d["kind"] == "defseq" or (d["kind"] == "crash" and d["args"][0].startswith("defseq")):
        if d["kind"] == "crash":
            import json
            d = {"case": json.loads(d["case"])}
        return defseq.replay(c, d)
    if d["kind"] in ("notify", "option") or (d["kind"] == "crash" and d["args"][0] in ("notify-run", "option-run")):
        if d["kind"] == "crash":
            import json
            d = {"kind": d["args"][0][:-4], "case": json.loads(d["case"])}
        return notify.replay(c, d)
    if d["kind"] == "filter" or (d["kind"] == "crash" and d["args"][0].startswith("filter")):
        if d["kind"] == "crash":
            import json
            d = {"case": json.loads(d["case"])}
        return filter_.replay(c, d)
    if d["kind"] == "shortvec" or (d["kind"] == "crash" and d["args"][0].startswith("shortvec")):
        if d["kind"] == "crash":
            import json
            d = {"case": json.loads(d["case"])}
        return shortvec.replay(c, d)
    if d["kind"] == "linecol" or (d["kind"] == "crash" and d["args"][0].startswith("linecol")):
        if d["kind"] == "crash":
            import json
            d = {"case": json.loads(d["case"])}
        return linecol.replay(c, d)
    if d["kind"] == "memseq" or (d["kind"] == "crash" and d["args"][0].startswith("memseq")):
        if d["kind"] == "crash":
            import json
            case = json.loads(d["case"])
            d = {"case": {"units": case["full"], "cmds": case["cmds"], "seed": 1, "carrier": memseq.CARRIERS[c.pid]}}
        return memseq.replay(c, d)
    if d["kind"] == "utf8" or (d["kind"] == "crash" and d["args"][0].startswith("utf8")):
        if d["kind"] == "crash":
            import json
            d = {"kind": "utf8", "case": json.loads(d["case"])}
        return utf8.replay(c, d)
    if d["kind"].startswith("genseq") or (d["kind"] == "crash" and d["args"][0].startswith("genseq")):
        if d["kind"] == "crash":
            import json
            d = {"kind": "genseq-long", "n": 100000} if d["args"][0] == "genseq-long" else {"kind": "genseq", "case": json.loads(d["case"])}
        return genseq.replay(c, d)
    if d["kind"] in ("peg", "errors", "sides", "uniform") or (d["kind"] == "crash" and d["args"][0] in ("peg-run", "errors-run", "sides-run", "uniform-run")):
        if d["kind"] == "crash":
            import json
            d = dict(d)
            d["case"] = json.loads(d["case"])
            if d["args"][0] == "uniform-run":
                d["kind"] = "uniform"
        peg.replay(c, d)


TECHNIQUE = {
    "*": "TLA+ specification checked with TLC; its behaviours replayed on the code and recorded runs of the code checked against it",
}
NOTES = {
    "*": "Exhaustive within the stated bounds for the specification; the code is bound to it by replaying every enumerated "
         "behaviour and by checking random recorded runs. Trusts TLC, the harness and rustc; larger inputs are only sampled.",
}
NOT_APPLICABLE = {}
