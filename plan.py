"""What is run for every property: recordings of the library checked by a trace
specification (kind trace), and exhaustive runs of the specification (kind model)."""

WIRE = """CONSTANTS MaxNameLen = 255 MaxSigLen = 255 MaxArrayDepth = 32 MaxStructDepth = 32 MaxDictDepth = 32
CONSTANTS MaxArrayLen = 67108864 MaxMsgLen = 134217728 Bulk = 512
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
"""
TEXT = """CONSTANTS MaxNameLen = 255 MaxSigLen = 255 MaxArrayDepth = 32 MaxStructDepth = 32 MaxDictDepth = 32
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
"""
SMALL = TEXT.replace("SigLen = 255", "SigLen = 5").replace("Depth = 32", "Depth = 2")
NAMES = TEXT.split("INIT")[0]
REST = TEXT[len(NAMES):]
CFG = {
    "session": NAMES + "CONSTANTS R = 2 Depth = 3 MaxBody = 3\n" + REST,
    "session2": NAMES + "CONSTANTS R = 2 Depth = 2 MaxBody = 3\n" + REST,
    "session4": NAMES + "CONSTANTS R = 2 Depth = 4 MaxBody = 2\n" + REST,
    "gsession": NAMES + "CONSTANTS R = 3 Length = 9\n" + REST,
    "text": TEXT,
    "wire": WIRE,
    "match": TEXT.replace("INIT", "CONSTANTS ArgIndexes = 64\nINIT", 1),
    "limits": TEXT.replace("INIT", "CONSTANTS MaxArrayLen = 67108864 MaxMsgLen = 134217728\nINIT", 1).replace("MaxNameLen = 255 ", ""),
    "stream": "CONSTANTS MaxMsgs = 2 MaxLen = 3 MaxFds = 1\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n",
    "stream3": "CONSTANTS MaxMsgs = 3 MaxLen = 3 MaxFds = 1\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n",
    "pure": "CONSTANTS Threads = {1, 2, 3, 4, 5, 6, 7, 8} OpsCount = 20000 Idle = 0\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n",
    "mnames": TEXT.replace("255 MaxSig", "4 MaxSig", 1).replace("INIT", "CONSTANT N = 5\nINIT", 1),
    "mnames6": TEXT.replace("255 MaxSig", "5 MaxSig", 1).replace("INIT", "CONSTANT N = 6\nINIT", 1),
    "msigs": SMALL.replace("INIT", "CONSTANT N = 6\nINIT", 1),
    "msigs7": SMALL.replace("SigLen = 5", "SigLen = 6").replace("INIT", "CONSTANT N = 7\nINIT", 1),
    "mpaths": TEXT.replace("INIT", "CONSTANT N = 3\nINIT", 1),
    "mmatch": TEXT.replace("INIT", "CONSTANTS ArgIndexes = 64 R = 2 N = 3 T = 6\nINIT", 1),
    "mmatch3": TEXT.replace("INIT", "CONSTANTS ArgIndexes = 64 R = 2 N = 4 T = 7\nINIT", 1),
    "gwire": NAMES + "CONSTANTS MaxElems = 3 MaxToks = 40 MaxVariants = 4 MaxTypes = 4\n" + REST,
    "mwire": WIRE.replace("Bulk = 512", "Bulk = 2").replace("INIT", "CONSTANTS N = 2 MaxElems = 2 MaxToks = 4 MaxVariants = 2 Flips = {1}\nINIT", 1),
    "mwire3": WIRE.replace("Bulk = 512", "Bulk = 2").replace("INIT", "CONSTANTS N = 3 MaxElems = 2 MaxToks = 6 MaxVariants = 2 Flips = {1, 255}\nINIT", 1),
    "mlimits": WIRE.replace("Bulk = 512", "Bulk = 2").replace("67108864", "8").replace("INIT", "CONSTANTS N = 3 MaxElems = 3 MaxToks = 6 MaxVariants = 2\nINIT", 1),
    "mlimits4": WIRE.replace("Bulk = 512", "Bulk = 2").replace("67108864", "12").replace("INIT", "CONSTANTS N = 4 MaxElems = 3 MaxToks = 8 MaxVariants = 2\nINIT", 1),
    "mheader": WIRE.replace("INIT", "CONSTANT N = 3\nINIT", 1),
    "mheader4": WIRE.replace("INIT", "CONSTANT N = 4\nINIT", 1),
    "mmatching": TEXT.replace("INIT", "CONSTANTS ArgIndexes = 64 R = 2\nINIT", 1),
    "mmatching3": TEXT.replace("INIT", "CONSTANTS ArgIndexes = 64 R = 3\nINIT", 1),
    "mreasons": SMALL.replace("MaxNameLen = 255", "MaxNameLen = 4").replace("INIT", "CONSTANT N = 5\nINIT", 1),
    "mreasons7": SMALL.replace("MaxNameLen = 255", "MaxNameLen = 6").replace("SigLen = 5", "SigLen = 6").replace("INIT", "CONSTANT N = 7\nINIT", 1),
    "mfds": "CONSTANTS MaxLen = 6 MaxFd = 3\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n",
    "mfds8": "CONSTANTS MaxLen = 8 MaxFd = 3\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n",
    "plain": "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n",
    "bytes": "CONSTANT N = 3\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n",
    "bytes5": "CONSTANT N = 4\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n",
}
KINDS = {"T_Wire": ("dec", "enc", "rec", "pre"),
         "T_Text": ("name", "sweep", "path", "sig", "sigsweep", "type", "arr", "str", "vty"),
         "T_Session": ("ses",),
         "T_Stream": ("stm",),
         "T_Endian": ("pair",),
         "T_Reasons": ("dec", "enc"),
         "T_Pure": ("fresh", "hist", "par"),
         "T_Header": ("hnew", "hfld", "mty"),
         "T_Compare": ("cmp",),
         "T_Says": ("says",),
         "T_Fds": ("mfd",),
         "T_Limits": ("benc", "bdec"),
         "T_Match": ("mtext", "mshow", "meval")}


def trace(fam, *invs, module="T_Wire", cfg="wire", **kw):
    return dict(kind="trace", fam=fam, module=module, cfg=cfg, invs=list(invs), kinds=KINDS[module], **kw)


def model(module, cfg, *invs, **kw):
    return dict(kind="model", module=module, cfg=cfg, invs=list(invs), **kw)


def text(fam, *invs, **kw):
    return trace(fam, *invs, module="T_Text", cfg="text", **kw)


def head(*invs, **kw):
    return trace("head", *invs, module="T_Header", cfg="wire", **kw)


def match(fam, *invs, **kw):
    return trace(fam, *invs, module="T_Match", cfg="match", **kw)


def size(fam, *invs, **kw):
    return trace(fam, *invs, module="T_Limits", cfg="limits", limit=800, **kw)


def fds(*invs, **kw):
    return trace("mfd", *invs, module="T_Fds", cfg="plain", **kw)


def ses(fam, *invs, **kw):
    return trace(fam, *invs, module="T_Session", cfg="wire", **kw)


SES = model("MC_Session", "session2", "Complete", "Frame", "NoChange", "Answer", "Sending", "Rebuilt",
            cfg_thorough="session4", limit=3000)
GSES = dict(module="Gen_Session", cfg="gsession", num=300)
STM = model("MC_Stream", "stream", "Safe", "NeverStuck", props=("InOrder", "AllArrive"), cfg_thorough="stream3")
UTF8 = model("MC_Bytes", "bytes", "Agree", cfg_thorough="bytes5")

GWIRE = dict(module="Gen_Wire", cfg="gwire", num=400, inv="Sent", depth=200)
WIREMC = model("MC_Wire", "mwire", "RoundTrip", "Prefix", "OneForm", cfg_thorough="mwire3", limit=800)
MNAMES = model("MC_Names", "mnames", "Agree", "Sound", "Buses", "Chain", cfg_thorough="mnames6")
MSIGS = model("MC_Sigs", "msigs", "Agree", "Split", cfg_thorough="msigs7")
MPATHS = model("MC_Paths", "mpaths", "Texts", "Under", "Strip", "Appends")
MMATCH = model("MC_Match", "mmatch", "Back", "Again", "Plainly", cfg_thorough="mmatch3")

MLIMITS = model("MC_Limits", "mlimits", "Sizes", "MarksRight", "TooLong", "Merged", cfg_thorough="mlimits4", limit=800)
MHEADER = model("MC_Header", "mheader", "Rules", "Order", "Cut", cfg_thorough="mheader4", limit=3000)
MMATCHING = model("MC_Matching", "mmatching", "Monotone", "Printed", "Meaning1", "Chained", cfg_thorough="mmatching3", limit=800)
MREASONS = model("MC_Reasons", "mreasons", "NameReason", "SigReason", cfg_thorough="mreasons7", limit=800)
MFDS = model("MC_Fds", "mfds", "Resolve", "Once", "All", "Stays", "Pattern", cfg_thorough="mfds8", limit=800)
MCOMPARE = model("MC_Compare", "plain", "Relation", "Met", "Exactly")

PLAN = {
    "P01": [size("mid", "P01"), trace("enc", "P01"), trace("encr", "P01"), trace("scale", "P01"),
            trace("gwire", "P01", gen=GWIRE)],
    "P02": [WIREMC, size("mid", "P02"), trace("enc", "P02"), trace("encr", "P02"), trace("scale", "P02"),
            trace("gwire", "P02", gen=GWIRE)],
    "P03": [UTF8, size("mid", "P03"), trace("dec", "P03"), trace("decr", "P03"), trace("num", "P03"), trace("scaled", "P03"), trace("lim", "P03"),
            trace("gwire", "P03", gen=GWIRE)],
    "P04": [UTF8, trace("bad", "P04"), trace("num", "P04"), trace("lim", "P04"), trace("hdr", "P04"),
            trace("gbad", "P04", gen=GWIRE)],
    "P05": [trace("bad", "P05"), trace("num", "P05"), trace("encr", "P05"), trace("hdr", "P05"),
            text("name", "P05"), text("path", "P05"), text("sig", "P05"), text("type", "P05"), text("cont", "P05"),
            text("limtext", "P05"), match("mtext", "P05"), match("mshow", "P05"), match("meval", "P05"),
            match("limargs", "P05"), head("P05"), ses("reply", "P05"), ses("walk", "P05"), trace("lim", "P05"),
            trace("stream", "P05", module="T_Stream"),
            trace("gbad", "P05", gen=GWIRE), trace("says", "P05", module="T_Says", cfg="plain"), fds("P05")],
    "P06": [trace("pre", "P06"),
            trace("gpre", "P06", gen=GWIRE)],
    "P07": [trace("rec", "P07"),
            trace("grec", "P07", gen=GWIRE)],
    "P08": [MFDS, fds("P08"), trace("fde", "P08"), trace("fdd", "P08"),
            trace("gwire", "P08", gen=GWIRE)],
    "P09": [MHEADER, trace("hdr", "P09"), trace("num", "P09"), head("P09")],
    "P10": [MNAMES, text("name", "P10"), text("sweep", "P10")],
    "P11": [MPATHS, text("path", "P11")],
    "P12": [MSIGS, text("sig", "P12"), text("type", "P12")],
    "P13": [text("cont", "P13")],
    "P14": [MLIMITS, trace("lim", "P14"), text("limtext", "P14"), match("limargs", "P14"),
            size("big", "P14"), size("mid", "P14")],
    "P15": [match("mshow", "P15")],
    "P16": [MMATCH, match("mtext", "P16")],
    "P17": [MMATCHING, match("meval", "P17")],
    "P18": [SES, ses("gses", "P18", gen=GSES), ses("reply", "P18"), ses("ses", "P18"), ses("walk", "P18")],
    "P19": [dict(SES, cfg="session"), ses("gses", "P19", gen=GSES), ses("ses", "P19"), ses("reply", "P19"), ses("walk", "P19")],
    "P20": [SES, fds("P20"), ses("gses", "P20", gen=GSES), trace("stale", "P20"), ses("ses", "P20"), ses("walk", "P20")],
    "P21": [trace("endian", "P21", "Paired", module="T_Endian"), trace("flip", "P03", "P04"),
            trace("gpair", "P21", "Paired", module="T_Endian", gen=GWIRE)],
    "P22": [STM, fds("P22"), trace("stream", "P22", module="T_Stream")],
    "P25": [MCOMPARE, trace("compare", "P25", module="T_Compare", cfg="plain")],
    "P24": [trace("pure", "P24", "P05", "Recorded", module="T_Pure", cfg="pure")],
    "P23": [MREASONS, trace("why", "P23", module="T_Reasons"), trace("num", "P23", module="T_Reasons"), trace("hdr", "P23", module="T_Reasons"), head("P23"),
            text("name", "P23"), text("sig", "P23"), text("cont", "P23"), text("type", "P23"), match("mtext", "P23"),
            trace("says", "P23", module="T_Says", cfg="plain")],
}

TLC = "TLA+ specification checked with TLC; recordings of the real code validated against it"
NOTE = {
    "P01": (TLC, "encode-decode runs of systematic, random and large messages; every step of the unmarshalling machine is matched"),
    "P02": (TLC, "the machine reads the encoder's bytes back, token by token, against the message that was encoded"),
    "P03": (TLC, "well-formed inputs by an independent marshaller: the machine's tokens against what the library reports"),
    "P04": (TLC, "faults planted at every site of every construct, byte mutations, ill-formed values and headers"),
    "P05": (TLC, "every run recorded, panics and endless runs caught; outcome and reported lengths checked"),
    "P06": (TLC, "all prefixes of each message and appended bytes"),
    "P07": (TLC, "decode, encode, decode and encode again, valid and mutated inputs"),
    "P08": (TLC, "descriptors at every nesting, every index against every list length"),
    "P09": (TLC, "all header field combinations by type, duplicates, wrong types, invalid names, unknown codes"),
    "P10": (TLC, "all words over the character classes, every byte at every automaton position, lengths around the limit, in every input form"),
    "P11": (TLC, "histories of operations, every path against every base"),
    "P12": (TLC, "all short words, nesting and length around the limits, every byte after every prefix, random texts and mutations"),
    "P13": (TLC, "every element type against every value, nesting to the limits"),
    "P14": (TLC, "size arithmetic over tables modulo the alignment for values described by their lengths; messages and arrays of exactly the largest sizes and one more, built and decoded; nesting, names, signatures and argument indexes about each limit"),
    "P15": (TLC, "all values over the special characters, every character, random lists, printed and parsed again"),
    "P16": (TLC, "all short texts over the special characters, every key with every value, every character in every place"),
    "P17": (TLC, "related and unrelated values for every kind of rule, random messages with rules drawn from them"),
    "P18": (TLC, "replies of every kind to every combination of type and fields, replies to replies, random histories"),
    "P19": (TLC, "histories of calls over three registers, every register observed through every accessor after each call"),
    "P20": (TLC, "headers carrying other signatures and counts, histories of splitting and rebuilding; the encoded header read by the machine"),
    "P21": (TLC, "two machines in lockstep over both encodings of each message; byte order marks turned"),
    "P23": (TLC, "the reason recorded for every refusal, judged by predicates saying when a reason is true of the input; inputs with one and with several defects"),
    "P25": (TLC, "pools of related things of every class, made in several ways: all pairs compared, all triples ordered"),
    "P24": (TLC, "each operation of a pool alone in a process, then all pairs, random histories and eight threads, against a specification in which an outcome depends on the operation alone"),
    "P22": (TLC, "model of a receiver on a byte stream; recorded receivers over all two-piece cuts and random chunkings checked against it"),
}
