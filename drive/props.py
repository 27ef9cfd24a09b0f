"""What each check explores: bounded models, and inputs for the conformance runs."""
import corpus as C
import sizes as S
from common import CONFIGS

ASSUMPTIONS = [
    "the specification in /verif/spec states the intended behaviour, including the deviations named in DESIGN.md",
    "the conformance runs see the inputs that the models enumerate and the generated ones, not all inputs",
    "the features of the library do not interact in ways that need more than the configurations that were built",
    "TLC, rustc and the harness's report of the public values are trusted",
]


def C01(k):
    g = k.gen
    k.model("MC_Reader", "Progress", Depth=k.t(4, 5), EmitDepth=0)
    k.cases("soup", list(C.soup(g, k.t(2500, 20000))) + list(C.noise(g, k.t(1500, 10000))), "all")
    k.cases("soup", list(C.soup(g, k.t(800, 8000))) + list(C.noise(g, k.t(500, 5000))), "nomime", "compat")
    big = list(C.stress(k.t(70000, 200000))) + list(C.limits()) + [C.deep_multipart(n) for n in (1, 10, 60, 150)]
    many = list(C.cuts(1)) + list(C.bytes_at(g, k.t(8, 64), 1)) + list(C.soup(g, k.t(8000, 100000), 1, 60)) + list(C.noise(g, k.t(8000, 100000)))
    k.total("stress", big, "all", "nomime", "none", "compat")
    k.total("mutants", many, "all", "nomime", "none", "compat")
    k.total("nearly right", C.lenient("address", "id", "date", "type", "encoding", "version", "disposition", "received", "word"), "all", "nomime", "compat")
    k.total("charsets", list(C.charsets(g, k.t(2000, 20000))), "all")
    for f in (C.parameters, C.encoded_words, C.base64s, C.qps, C.multiparts, C.comments, C.words, C.dates):
        k.total(f.__name__, list(f(g, k.t(500, 5000))), "all", "compat")
    for of in sorted(S.SWEEP):
        k.total("sizes " + of, k.sizes(of, 1200), "all", "none")
    k.explore("all")


def C02(k):
    g = k.gen
    k.model("MC_Reader", "Exact Progress Emit", Depth=k.t(4, 5), EmitDepth=3, workers=4)
    k.vectors("all", "nomime", "none", limit=k.t(2300, None))
    k.cases("bodies", C.bodies(g, k.t(500, 6000)), "all", "nomime", "none", "mime")
    k.sweep("all", "none")
    k.explore("all")


def C03(k):
    g = k.gen
    k.model("MC_Fields", "Complete Plainly Kept Emit", Depth=k.t(2, 3), EmitDepth=2, workers=4)
    k.vectors("all", "nomime", limit=k.t(1600, None))
    k.cases("sequences", list(C.headers(g, k.t(1500, 15000), 0, 14)) + [m for n in (5, 50, 300) for m in C.many(n)], "all", "nomime", "none")
    k.cases("sequences", list(C.traces(g, k.t(200, 3000))), "all", "no-trace")
    k.sweep("all")
    k.cases("contexts", list(C.contexts(g, k.t(800, 10000))) + list(C.contexts(g, k.t(400, 5000), b"X-Y", b"X-Z")), "all", "nomime")
    k.explore("all")


def C04(k):
    g = k.gen
    k.model("MC_Names", "Recognised Disabled Emit", workers=4)
    k.vectors("all", "nomime", "none", limit=k.t(2000, None))
    bad = list(C.malformed(g, k.t(1500, 15000)))
    k.cases("names", list(C.names(g, k.t(1000, 10000))) + bad, "all")
    k.cases("names", C.pick(g, bad, k.t(800, 10000)), "nomime", "none")
    k.sweep("all")
    l = list(C.lenient("address", "id", "date", "type", "encoding", "version", "disposition", "received"))
    k.cases("nearly right", l, "all")
    k.cases("nearly right", C.pick(g, l, k.t(500, None)), "nomime", "none")
    k.explore("all")


def C05(k):
    g = k.gen
    k.model("MC_Email", "Decides Reasons Order Emit", Depth=2, EmitDepth=k.t(1, 2), workers=6)
    k.vectors("all", "nomime", "none", limit=k.t(1500, None))
    d = list(C.duplicates(g, k.t(800, 10000)))
    k.cases("duplicates", d, "all")
    k.cases("duplicates", C.pick(g, d, k.t(700, 5000)), "nomime", "no-from", "no-date", "no-cd")
    k.sweep("all")
    k.explore("all")


def C06(k):
    g = k.gen
    k.model("MC_Email", "Decides Sender Emit", Depth=2, EmitDepth=1, workers=4)
    k.vectors("all", "no-from", limit=k.t(500, None))
    s = list(C.senders(g, k.t(600, 8000)))
    k.cases("senders", s, "all", "nomime")
    k.cases("senders", C.pick(g, s, k.t(700, 8000)), "no-from", "no-sender", "only-sender")
    k.sweep("all")
    k.cases("contexts", C.contexts(g, k.t(800, 8000), b"From", b"Sender"), "all", "nomime")
    k.explore("all")


def C07(k):
    g = k.gen
    k.model("MC_Unstructured", "Exact Emit", Depth=k.t(5, 6), EmitDepth=3, workers=4, heap="6g")
    k.vectors("all", "nomime", "none", limit=k.t(2300, None))
    u = list(C.unfolding(g, k.t(800, 8000)))
    k.cases("unfolding", u, "all", "nomime")
    k.cases("unfolding", C.pick(g, u, k.t(1200, 8000)), "none", "mime")
    k.sweep("all", "none")
    k.explore("all")


def C08(k):
    g = k.gen
    k.model("MC_Comment", "Machine Emit", Depth=k.t(4, 5), EmitDepth=3)
    k.model("MC_Cfws", "Transparent Emit", Most=k.t(1, 2), EmitMost=1, workers=k.t(2, 6), heap="6g")
    k.vectors("all", "nomime", limit=k.t(3200, None))
    k.cases("commented", list(C.commented(g, k.t(1500, 15000))) + list(C.comments(g, k.t(800, 8000))), "all")
    k.cases("commented", list(C.commented(g, k.t(500, 6000))), "nomime", "compat")
    k.sweep("all")
    k.cases("nearly right", C.pick(g, [m for m in C.lenient("address", "id", "date", "type", "encoding", "version", "disposition", "received") if b"(" in m or b"\r\n " in m], k.t(1000, None)), "all")
    k.explore("all")


def C09(k):
    g = k.gen
    k.model("MC_Address", "RoundTrip Emit", Most=k.t(1, 2), EmitMost=k.t(1, 2))
    k.model("MC_AddressText", "Grammar Emit", Depth=k.t(3, 4), EmitDepth=3, workers=4)
    k.vectors("all", "nomime", limit=k.t(4500, None))
    k.cases("addresses", C.addresses(g, k.t(1500, 15000)), "all", "nomime")
    k.sweep("all")
    k.cases("nearly right", C.lenient("address"), "all", "nomime")
    k.explore("all")


def C10(k):
    g = k.gen
    k.model("MC_Quoted", "Strs Dots Literals Emit", Depth=k.t(4, 6), EmitDepth=3, workers=4)
    k.vectors("all", "compat", limit=k.t(2500, None))
    k.cases("words", C.words(g, k.t(800, 8000)), "all", "compat", "nomime")
    k.sweep("all")
    k.cases("nearly right", C.lenient("address", "id"), "all", "compat")
    k.explore("all")


def C11(k):
    g = k.gen
    k.model("MC_Ids", "Lists Single Emit", Depth=k.t(4, 5), EmitDepth=3, workers=4)
    k.vectors("all", "nomime", limit=k.t(2500, None))
    k.cases("ids", C.ids(g, k.t(800, 8000)), "all", "nomime", "compat")
    k.sweep("all")
    k.cases("nearly right", C.lenient("id"), "all", "compat")
    k.explore("all")


def C12(k):
    g = k.gen
    k.model("MC_Date", "Exact Emit", Most=k.t(1, 2), EmitMost=k.t(1, 2), workers=4)
    k.vectors("all", limit=k.t(None, None))
    k.vectors("nomime", limit=k.t(300, 5000))
    d = list(C.dates(g, k.t(250, 4000)))
    k.cases("dates", d, "all")
    k.cases("dates", C.pick(g, d, k.t(500, 5000)), "nomime")
    k.sweep("all")
    k.cases("nearly right", C.lenient("date"), "all", "compat")
    k.explore("all")


def C13(k):
    g = k.gen
    k.model("MC_Trace", "Grouped Emit", Depth=k.t(3, 4), EmitDepth=3, workers=4)
    k.model("MC_Received", "Exact Again Emit", Depth=k.t(2, 3), EmitDepth=2, workers=4)
    k.vectors("all", "nomime", limit=k.t(4000, None))
    t = list(C.traces(g, k.t(900, 9000)))
    k.cases("traces", t, "all", "nomime")
    k.cases("traces", C.pick(g, t, k.t(500, 5000)), "no-to", "no-date", "compat")
    k.sweep("all")
    k.cases("nearly right", C.lenient("received"), "all", "nomime")
    k.cases("contexts", C.contexts(g, k.t(600, 6000), b"X-Y"), "all", "no-trace")
    k.explore("all")


def C14(k):
    k.model("MC_Base64", "Exact Round Emit", Depth=k.t(5, 6), EmitDepth=k.t(3, 4), workers=4)
    k.vectors("all", limit=k.t(2500, None))
    k.cases("base64", C.base64s(k.gen, k.t(1200, 15000)), "all")
    k.sweep("all")
    k.explore("all")


def C15(k):
    k.model("MC_Qp", "Exact Round Emit", Depth=k.t(4, 5), EmitDepth=3, workers=4)
    k.vectors("all", limit=k.t(3000, None))
    k.cases("quoted-printable", C.qps(k.gen, k.t(1500, 15000)), "all")
    k.sweep("all")
    k.explore("all")


def C16(k):
    g = k.gen
    k.model("MC_EncodedWords", "Exact Phrases Emit", Depth=k.t(2, 3), EmitDepth=2, workers=4)
    k.vectors("all", limit=k.t(3000, None))
    k.vectors("nomime", limit=k.t(500, 5000))
    w = list(C.encoded_words(g, k.t(900, 9000)))
    k.cases("encoded words", w, "all")
    k.cases("encoded words", C.pick(g, w, k.t(500, 5000)), "nomime", "no-uh", "mime")
    k.sweep("all")
    k.cases("nearly right", C.lenient("word"), "all", "nomime", "no-uh")
    k.explore("all")


def C17(k):
    k.model("MC_Params", "Exact Files Sorted Emit", Depth=2, EmitDepth=2, Rich="TRUE", workers=k.t(5, 6))
    if k.deep:
        k.model("MC_Params", "Exact Files Sorted Emit", Depth=3, EmitDepth=2, Rich="FALSE", workers=6)
    k.vectors("all", limit=k.t(4000, None))
    k.cases("parameters", C.parameters(k.gen, k.t(1200, 12000)), "all")
    k.sweep("all")
    k.cases("nearly right", C.lenient("type", "disposition"), "all")
    k.explore("all")


def C18(k):
    g = k.gen
    k.model("MC_MimeHeaders", "Messages PartsToo Emit", Most=k.t(2, 3), EmitMost=2, workers=4)
    k.vectors("all", limit=k.t(3000, None))
    m = list(C.mime_headers(g, k.t(900, 9000)))
    k.cases("mime headers", m, "all")
    k.cases("mime headers", C.pick(g, m, k.t(500, 5000)), "mime", "no-cd")
    k.sweep("all")
    k.cases("nearly right", C.lenient("type", "encoding", "version", "disposition"), "all", "mime", "no-cd")
    k.explore("all")


def C19(k):
    k.model("MC_Multipart", "Splits Trees Emit", Depth=k.t(4, 5), EmitDepth=3, Nested="FALSE", workers=4)
    k.model("MC_Multipart", "Splits Trees Emit", Depth=k.t(5, 7), EmitDepth=k.t(4, 5), Nested="TRUE", workers=4)
    k.vectors("all", limit=k.t(3000, None))
    k.cases("multiparts", C.multiparts(k.gen, k.t(1300, 12000)), "all")
    k.sweep("all")
    k.explore("all")


def C20(k):
    k.model("MC_Charset", "Utf Total Additive AsciiFirst Gb Accents Emit", Depth=k.t(2, 3), EmitDepth=2, workers=4)
    k.vectors("all", limit=k.t(3000, None))
    c = list(C.charsets(k.gen, k.t(700, 8000), k.t(2, 1)))
    k.cases("charsets", c, "all")
    k.sweep("all")
    k.cases("nearly right", C.lenient("word"), "all")
    k.explore("all")


def C21(k):
    g = k.gen
    every = sorted(CONFIGS)
    k.builds(*every)
    k.model("MC_Features", "Kinds1 Blocks Emails Bodies Emit", Depth=k.t(1, 2), EmitAll="TRUE")
    k.vectors(*every, limit=k.t(60, None))
    m = list(C.headers(g, k.t(60, 500), 4, 14)) + [g.message() for _ in range(k.t(60, 500))] + \
        list(C.traces(g, k.t(8, 60)))[:k.t(20, 200)] + [C.msg(*[C.line(n, C.VALID[n]) for n in C.NAMES if n not in (b"From", b"Date")], body=b"x")]
    m += [x for of in sorted(S.SWEEP) for x in k.sizes(of, 4, 4000)] + list(C.contexts(g, k.t(40, 400))) + list(C.pick(g, C.lenient("address", "id", "date", "received", "word"), k.t(40, 1000)))
    k.cases("features", m, *every)


def C22(k):
    g = k.gen
    k.model("MC_Borrow", "Sound Sharp Copies Emit", Depth=k.t(3, 4), EmitDepth=3, workers=6)
    k.vectors("all", "nomime", limit=k.t(3000, None), spans=True)
    b = list(C.borrowed(g, k.t(1200, 12000)))
    k.cases("borrowed", b, "all", "nomime", spans=True)
    k.cases("unfolded", list(C.pick(g, C.unfolding(g, 300), k.t(800, 6000))) + list(C.pick(g, C.words(g, 300), k.t(600, 6000))) +
            list(C.pick(g, C.ids(g, 300), k.t(400, 4000))) + list(C.pick(g, C.bodies(g, 100), k.t(500, 4000))), "all", "nomime", "none", spans=True)
    k.cases("parts", list(C.pick(g, C.multiparts(g, 300), k.t(600, 6000))) + list(C.pick(g, C.parameters(g, 300), k.t(600, 6000))) +
            list(C.pick(g, C.mime_headers(g, 300), k.t(500, 5000))) + list(C.pick(g, C.encoded_words(g, 300), k.t(500, 5000))), "all", spans=True)
    for of, n in (("C02", 150), ("C03", 100), ("C07", 250), ("C09", 100), ("C10", 200), ("C11", 150), ("C13", 60), ("C17", 200), ("C18", 150), ("C19", 200), ("C23", 60)):
        k.cases("sizes " + of, k.sizes(of, n), "all", spans=True)
    k.explore("all", spans=True)


def C23(k):
    g = k.gen
    k.model("MC_Email", "Accumulate Emit", Depth=2, EmitDepth=1, workers=4)
    k.vectors("all", limit=k.t(300, None))
    r = list(C.repeated(g, k.t(700, 8000)))
    k.cases("repeated", r, "all", "nomime")
    k.cases("repeated", C.pick(g, r, k.t(400, 4000)), "no-comments", "no-keywords")
    k.sweep("all")
    k.cases("contexts", C.contexts(g, k.t(800, 8000), b"Comments", b"Keywords"), "all", "no-comments", "no-keywords")
    k.explore("all")


def C24(k):
    g = k.gen
    m = [g.message() for _ in range(k.t(300, 2000))] + [g.multipart_message() for _ in range(k.t(100, 800))] + \
        C.pick(g, C.parameters(g, 200), k.t(200, 1000)) + C.pick(g, C.encoded_words(g, 200), k.t(200, 1000)) + \
        C.pick(g, C.traces(g, 200), k.t(100, 800)) + C.pick(g, C.unfolding(g, 200), k.t(200, 1000)) + list(C.soup(g, k.t(150, 1500)))
    f = list(C.framed(g))
    m += [x for of in sorted(S.SWEEP) for x in k.sizes(of, 12, 4000)]
    every = list(C.variants(g, m)) + f
    k.pure("histories", every, "all", "nomime", "compat")
    k.cases("messages", C.pick(g, every, k.t(1500, 8000)) + f, "all", "nomime")
    k.explore("all")


def C25(k):
    g = k.gen
    k.model("MC_Values", "Sound Sharp Agree Congruent Bounded", Size=2, Most=k.t(3, 4), workers=2)
    k.model("MC_Copies", "EqualIff Emit", Most=k.t(1, 2), EmitMost=1, workers=4)
    k.copies("models", None, "all")
    k.copies("near", C.near(g, k.t(2500, 40000)), "all")
    m = [g.message() for _ in range(k.t(200, 3000))] + [g.multipart_message() for _ in range(k.t(400, 6000))] + \
        list(C.pick(g, C.mime_headers(g, 300), k.t(500, 5000))) + list(C.pick(g, C.traces(g, 100), k.t(100, 1000))) + \
        list(C.pick(g, C.dates(g, 100), k.t(400, 3000))) + list(C.pick(g, C.headers(g, 200, 4, 14), k.t(200, 2000)))
    m += [x for of in ("C05", "C09", "C12", "C13", "C17", "C18", "C19") for x in k.sizes(of, 40, 4000)]
    k.copies("messages", m, "all", "nomime")
    k.vectors("all", limit=k.t(1500, 20000))
