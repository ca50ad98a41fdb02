"""One function per property; see DESIGN.md."""
import json
import os


def expand_limits(k, path):
    """Every emitted input under a few limits."""
    out = path + ".lim"
    with open(out, "w") as f:
        for n, line in enumerate(open(path)):
            j = json.loads(line)
            for dl, il in ((-1, -1), (0, -1), (1, -1), (-1, 0), (-1, 1), (-1, 2), (1, 2), (2, 3)):
                f.write(json.dumps({"in": j["in"], "dl": dl, "il": il}) + "\n")
    return out


def big(k, how):
    """Sizes: every shape of value at sizes around powers of two and ten."""
    k.design("MCBig", N=k.pick(24, 70), D=k.pick(1200, 11000))
    k.validate("TraceBig", k.drive("big", 0, how), samples=2)


def C01(k):
    k.design("MCBencode", "MCBencodeTokens", L=k.pick(4, 6))
    k.validate("TraceBencode", k.drive("roundtrip", k.pick(4000, 60000)))
    big(k, "rt")


def C02(k):
    k.design("MCBencode", "MCBencodeTokens", L=k.pick(4, 6))
    k.validate("TraceBencode", k.drive("canon", k.pick(4000, 60000)))
    k.validate("TraceBencode", k.drive("reencode", k.pick(4000, 60000)))
    big(k, "canon")


def C03(k):
    a = k.design("MCBencode", "MCBencodeBytes", emit="bytes", L=k.pick(4, 6), Emit="TRUE")
    b = k.design("MCBencode", "MCBencodeTokens", emit="tokens", L=k.pick(4, 5), Emit="TRUE")
    for f in (a, b):
        k.validate("TraceBencode", k.drive("declist", 0, f))
    k.validate("TraceBencode", k.drive("decode", k.pick(8000, 100000)), samples=2)
    big(k, "dec")
    for which in ("own", "bor"):
        for n in (20000, 1000000):
            k.validate("TraceBencode", k.drive("deep", n, which), corrupt=0, samples=0,
                       known=lambda c: "deep-drop-" + which if c["ev"][-1]["n"] == 1000000
                       and c["ev"][-1]["r"]["k"] == "abort" else None)


def C04(k):
    b = k.design("MCBencode", "MCBencodeTokens", emit="tokens", L=k.pick(3, 5), Emit="TRUE")
    k.validate("TraceBencode", k.drive("declist", 0, expand_limits(k, b)))
    k.validate("TraceBencode", k.drive("limits", k.pick(6000, 80000)), samples=2)
    big(k, "lim")


def C05(k):
    k.design("MCBencode", "MCBencodeTokens", L=k.pick(4, 5))
    k.validate("TraceBencode", k.drive("agree", k.pick(4000, 60000)), samples=2)
    big(k, "pair")


def store_design(k, part, emit=None, **c):
    return k.design("MCStorage", emit=emit, Part='"%s"' % part, Emit="TRUE" if emit else "FALSE", **c)


def C06(k):
    a = store_design(k, "peers", "peers1", MT=1, MP=2, MR=1)
    b = store_design(k, "peers", "peers4", MT=1, MP=2, MR=4) if k.tier == "thorough" else None
    for f in filter(None, (a, b)):
        k.validate("TraceStorage", k.drive("storelist", 6, f))
    k.validate("TraceStorage", k.drive("peers", k.pick(700, 12000)), samples=2)


def C07(k):
    a = store_design(k, "peers", "peers1", MT=1, MP=1, MR=1000)
    k.validate("TraceStorage", k.drive("storelist", 7, a))
    if k.tier == "thorough":
        a = store_design(k, "peers", "peers2", MT=2, MP=1, MR=1000)
        k.validate("TraceStorage", k.drive("storelist", 7, a))
    k.validate("TraceStorage", k.drive("capacity", k.pick(1500, 20000)), samples=2)


def C08(k):
    a = store_design(k, "peers", "peers1", MT=1, MP=k.pick(1, 2), MR=100)
    k.validate("TraceStorage", k.drive("storelist", 8, a))
    k.validate("TraceStorage", k.drive("scrape", k.pick(1200, 15000)), samples=2)


def C09(k):
    a = store_design(k, "mut", "mut", MI=k.pick(1, 2))
    k.validate("TraceStorage", k.drive("storelist", 9, a))
    k.validate("TraceStorage", k.drive("mitems", k.pick(1500, 20000)), samples=2)


def C10(k):
    a = store_design(k, "imm", "imm", MI=2)
    k.validate("TraceStorage", k.drive("storelist", 10, a))
    k.validate("TraceStorage", k.drive("iitems", k.pick(2000, 25000)), samples=2)


def C11(k):
    a = store_design(k, "imm", "imm", MI=2)
    k.validate("TraceStorage", k.drive("storelist", 11, a))
    b = store_design(k, "mut", "mut", MI=1)
    k.validate("TraceStorage", k.drive("storelist", 11, b))
    k.validate("TraceStorage", k.drive("evict", k.pick(2000, 25000)), samples=2)


def C12(k):
    for part, mi in (("imm", 2), ("mut", 1), ("peers", 1)):
        a = store_design(k, part, part, MT=1, MP=1, MI=mi, MR=4000)
        k.validate("TraceStorage", k.drive("storelist", 12, a))
    k.validate("TraceStorage", k.drive("counters", k.pick(800, 10000)), samples=2)


def C13(k):
    k.design("MCIdent")
    k.validate("TraceIdent", k.drive("dist", k.pick(2000, 40000)), samples=2)


def C14(k):
    k.design("MCIdent")
    a = k.design("MCIdent", emit="regs", Part='"regs"', Depth=2, Emit="TRUE")
    k.validate("TraceIdent", k.drive("regs", 4, a))
    k.validate("TraceIdent", k.drive("regs", k.pick(4000, 60000)), samples=2)


def C28(k):
    a = k.design("MCBound", emit="bound", Len1=k.pick(4, 6), Emit="TRUE")
    k.validate("TraceIdent", k.drive("bound", 0, a))
    k.validate("TraceIdent", k.drive("bound", k.pick(800, 15000)))


def C25(k):
    a = k.design("MCBloom", emit="bloom", Depth=k.pick(3, 4), Emit="TRUE")
    k.validate("TraceBloom", k.drive("bloom", 0, a))
    k.validate("TraceBloom", k.drive("bloom", k.pick(600, 8000)), samples=2)


def docs_design(k, part, mx):
    return k.design("MCDocs", emit=part, Part='"%s"' % part, Max=mx, Emit="TRUE")


def C15(k):
    a = docs_design(k, "state", 2)
    k.validate("TraceDocs", k.drive("state", 0, a))
    k.validate("TraceDocs", k.drive("state", k.pick(2500, 40000)), samples=2)


def C16(k):
    a = docs_design(k, "opts", 2)
    k.validate("TraceDocs", k.drive("opts", k.pick(3, 1), a))
    k.validate("TraceDocs", k.drive("opts", k.pick(1200, 20000)), samples=1)


def C17(k):
    a = docs_design(k, "wire", k.pick(2, 3))
    k.validate("TraceDocs", k.drive("streams", 0, a))
    k.validate("TraceDocs", k.drive("streams", k.pick(4000, 60000)), samples=2)


def C24(k):
    a = docs_design(k, "msg", k.pick(3, 4))
    k.validate("TraceDocs", k.drive("msgs", 0, a))
    k.validate("TraceDocs", k.drive("msgs", k.pick(4000, 60000)), samples=2)


def text_design(k, part, mx, emit=True):
    return k.design("MCText", emit=part if emit else None, Part='"%s"' % part, Max=mx, Emit="TRUE" if emit else "FALSE")


def C22(k):
    for part, mx in (("hex", k.pick(3, 5)), ("b32", k.pick(3, 5)), ("pct", k.pick(3, 5))):
        k.validate("TraceText", k.drive("codec", 0, text_design(k, part, mx)))
    text_design(k, "b32bytes", k.pick(3, 6), False)
    k.validate("TraceText", k.drive("codec", k.pick(2500, 40000)), samples=2)


def C23(k):
    for part, mx in (("split", k.pick(5, 7)), ("trim", k.pick(4, 5)), ("int", k.pick(3, 5))):
        k.validate("TraceText", k.drive("piece", 0, text_design(k, part, mx)))
    k.validate("TraceText", k.drive("piece", k.pick(2500, 40000)), samples=2)


def magnet_design(k, part, mx):
    return k.design("MCMagnet", emit=part, Part='"%s"' % part, Max=mx, Emit="TRUE")


def C18(k):
    k.validate("TraceMagnet", k.drive("mag-ih", 0, magnet_design(k, "link", k.pick(2, 3))))
    k.validate("TraceMagnet", k.drive("mag-ih", k.pick(3000, 50000)), samples=2)


def C19(k):
    k.validate("TraceMagnet", k.drive("mag-so", 0, magnet_design(k, "so", k.pick(4, 6))))
    k.validate("TraceMagnet", k.drive("mag-so", k.pick(3000, 50000)), samples=2)


def C20(k):
    k.validate("TraceMagnet", k.drive("mag-all", 0, magnet_design(k, "link", k.pick(2, 3))))
    k.validate("TraceMagnet", k.drive("mag-all", 0, magnet_design(k, "ad", k.pick(5, 7))))
    k.validate("TraceMagnet", k.drive("mag-all", k.pick(4000, 60000)), samples=2)


def C21(k):
    a = k.design("MCTorrent", emit="torrent", Max=k.pick(2, 3), Emit="TRUE")
    k.validate("TraceTorrent", k.drive("torrent", 0, a))
    k.validate("TraceTorrent", k.drive("torrent", k.pick(4000, 60000)), samples=2)
    k.validate("TraceTorrent", k.drive("tordeep", 0), corrupt=0, samples=0)
    k.validate("TraceTorrent", k.drive("torbig", k.pick(1, 2)), samples=0)
    k.validate("TraceTorrent", k.drive("torbytes", k.pick(1, 2)), samples=0)


def C29(k):
    a = k.design("MCSha1", emit="sha1", Max=k.pick(2, 4), Emit="TRUE")
    k.validate("TraceSha1", k.drive("sha1", 0, a))
    k.validate("TraceSha1", k.drive("sha1", k.pick(2500, 30000)), samples=2)


def C30(k):
    a = k.design("MCSink", emit="sink", Max=k.pick(3, 5), Emit="TRUE")
    k.validate("TraceSink", k.drive("sink", 0, a))
    k.validate("TraceSink", k.drive("sink", k.pick(4000, 50000)), samples=2)


def C31(k):
    a = k.design("MCEdit", emit="edit", Depth=k.pick(3, 4), Emit="TRUE")
    k.validate("TraceEdit", k.drive("edit", 0, a))
    k.validate("TraceEdit", k.drive("edit", k.pick(1500, 20000)), samples=2)


def C32(k):
    a = k.design("MCOrder", emit="order", Wide=k.pick("FALSE", "TRUE"), Emit="TRUE")
    k.validate("TraceOrder", k.drive("order", 0, a))
    k.validate("TraceOrder", k.drive("order", k.pick(4000, 50000)), samples=2)


def C33(k):
    a = k.design("MCBencode", "MCBencodeBytes", emit="bytes", L=k.pick(4, 5), Emit="TRUE")
    b = k.design("MCBencode", "MCBencodeTokens", emit="tokens", L=k.pick(3, 5), Emit="TRUE")
    for f in (a, b):
        k.validate("TraceBencode", k.drive("why", 0, expand_limits(k, f)))
    k.validate("TraceBencode", k.drive("why", k.pick(8000, 100000)), samples=2)
    big(k, "why")


def C34(k):
    a = k.design("MCMerge", emit="merge", Depth=k.pick(2, 3), Emit="TRUE")
    k.validate("TraceMerge", k.drive("mag-merge", 0, a))
    k.validate("TraceMerge", k.drive("mag-merge", k.pick(3000, 40000)), samples=2)


def C35(k):
    k.validate("TraceMagnet", k.drive("mag-why", 0, magnet_design(k, "link", k.pick(2, 3))))
    k.validate("TraceMagnet", k.drive("mag-why", 0, magnet_design(k, "so", k.pick(3, 5))))
    k.validate("TraceMagnet", k.drive("mag-why", k.pick(6000, 80000)), samples=2)


def C36(k):
    k.validate("TraceBounds", k.drive("bounds", 0, k.design("MCBounds", emit="bounds", Max=k.pick(3, 6), Emit="TRUE")))
    k.validate("TraceBounds", k.drive("bounds", k.pick(2000, 20000)), samples=2)


def C37(k):
    k.validate("TraceReply", k.drive("reply", 0, k.design("MCReply", emit="reply", Depth=k.pick(2, 3), Emit="TRUE")))
    k.validate("TraceReply", k.drive("reply", k.pick(1500, 20000)), samples=2)
