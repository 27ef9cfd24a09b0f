"""Inputs for the conformance runs, per property.  Every function yields complete messages (bytes).
The surroundings of what a property is about are plain, so that a check stays with its subject."""
import base64, itertools, re
from gen import *

ALL256 = [bytes([x]) for x in range(256)]
RECEIVED = b"Received: x;1 Jan 2000 00:00 +0000\r\n"
FOLDS = [b"\r\n ", b"\r\n\t", b" \r\n ", b"\t\r\n \t", b"\r\n  "]


def plain(*fields, body=None):
    return msg(*fields, body=body)


def mime(ct, body, enc=None, more=b""):
    """a message with one MIME body"""
    return msg(b"Content-Type: " + ct + CRLF, b"Content-Transfer-Encoding: " + enc + CRLF if enc else b"", more,
               body=body)


def parted(head, content, bd=b"b"):
    """a message whose only part is the entity"""
    return msg(b"Content-Type: multipart/mixed; boundary=" + bd + CRLF,
               body=b"--" + bd + CRLF + head + CRLF + content + CRLF + b"--" + bd + b"--")


def pick(g, items, n):
    items = list(items)
    if n is None or len(items) <= n:
        return items
    return g.r.sample(items, n)


def batches(lines, size=8):
    """several fields in one message; only for fields that stand for themselves"""
    lines = list(lines)
    for k in range(0, len(lines), size):
        yield msg(*lines[k:k + size], b"Z: z\r\n")


# ------------------------------------------------------------------------------- C01
TOKENS = [b"From: a@b\r\n", b"Date: 1 Jan 2000 00:00 +0000\r\n", b"To:", b"Subject:", b"Received:", b"Return-Path:",
          b"Resent-To:", b"Content-Type:", b"multipart/mixed", b"text/plain", b"; boundary=b", b"; charset=utf-8",
          b"; x*0*=utf-8''", b"; x*1=", b"Content-Transfer-Encoding: base64\r\n", b"Content-Transfer-Encoding: quoted-printable\r\n",
          b"Content-Disposition: attachment", b"; filename=", b"--b\r\n", b"--b--", b"--b--\r\n", b"\r\n", b"\r\n ", b" ", b"\t",
          b"(", b")", b"\\", b"<", b">", b"[", b"]", b"@", b",", b";", b":", b".", b'"', b"a", b"%41", b"%", b"=", b"=41", b"=?utf-8?q?",
          b"=?utf-8?b?", b"?=", b"YQ==", b"\xc3\xa9", b"\xff", b"\x00", b"\r", b"\n", b"Keywords:", b"Message-ID:", b"Comments:",
          b"MIME-Version: 1.0\r\n", b"Sender:", b"Bcc:", b"References:", b"Content-ID:", b"Jan", b"2000", b"+0000", b"gb2312", b"iso-6937"]


def soup(g, n, a=1, b=25):
    for _ in range(n):
        yield b"".join(g.c(*TOKENS) for _ in range(g.n(a, b)))


def noise(g, n):
    for _ in range(n):
        k = g.n(0, 2)
        if k == 0:
            yield g.chars(bytes(range(256)), 0, 60)
        elif k == 1:
            yield REQ + g.chars(bytes(range(256)), 0, 60)
        else:
            yield REQ + g.c(*NAMES) + b":" + g.chars(bytes(range(256)), 0, 30) + g.c(b"", CRLF, CRLF + CRLF + b"x")


RICH = [
    b"Return-Path: <\"q\"@[1.2]> (c)\r\nReceived: from a.b by <c@d> (e) \"f\"; Mon, 1 Jan 2001 10:20:30 -0100\r\n"
    b"Resent-From: A <b@c>\r\nResent-Date: 1 Jan 2001 10:20 +0000\r\n" + REQ +
    b"To: G: a@b, N <c@d>;, \"x\\\"y\" <e@f>\r\nSubject: a =?utf-8?q?=C3=A9_?= =?iso-8859-1?b?6Q==?= b\r\n c\r\n"
    b"Message-ID: <a.b@[c]>\r\nReferences: <a@b> (x(y)) <c@d>\r\nKeywords: a b, \"c\", =?utf-8?q?d?=\r\nComments: \r\nBcc:\r\n\r\nbody\r\nx",
    REQ + b"MIME-Version: 1 . 0 (x)\r\nContent-Type: multipart/mixed; boundary=\"b b\"; x*0*=utf-8'en'%C3%A9; x*1=y; x*2*=%41\r\n\r\n"
    b"pre\r\n--b b\r\nContent-Type: text/html; charset=ISO-8859-2\r\nContent-Transfer-Encoding: quoted-printable\r\n\r\na=E9=\r\nb=\r\n"
    b"--b b\r\nContent-Transfer-Encoding: base64\r\nContent-Disposition: attachment; filename*=utf-8''a%20b; creation-date=\"1 Jan 2001 10:20 +0000\"\r\n\r\n"
    b"YWJj\r\nZA==\r\n--b b\r\nContent-Type: multipart/x; boundary=c\r\n\r\n--c\r\n\r\nz\r\n--c--\r\n--b b--\r\nepi",
    REQ + b"Content-Type: text/plain; charset=gb2312\r\nContent-Transfer-Encoding: base64\r\nContent-ID: <a@b>\r\nContent-Description: d\r\n\r\n0/C7qg==",
    REQ + b"Content-Type: text/plain; charset=iso-6937; name*=iso-6937''%C2%65%C2\r\n\r\n\xc2e\xc8\xc1",
]


def cuts(step=1):
    for r in RICH:
        for k in range(0, len(r), step):
            yield r[:k]
            yield r[:k] + r[k + 1:]


def bytes_at(g, values, every):
    """each byte value at the places of the rich messages"""
    for r in RICH:
        for k in range(0, len(r), every):
            for v in pick(g, range(256), values):
                yield r[:k] + bytes([v]) + r[k + 1:]


def stress(n):
    """large and deeply nested inputs; n is their size"""
    def b(x, y=b""):
        return msg(x, body=y)
    for k in (1, 7, 100, n // 10, n):
        yield b(b"To: " + b"(" * k + b")" * k + b" a@b\r\n")
        yield b(b"To: " + b"(" * k + b" a@b\r\n")
        yield b(b"To: a@b " + b"(\\(" * (k // 3) + CRLF)
        yield b(b"Date: 1 Jan 2000 00:00 +0000 " + b"(x" * (k // 2) + b")" * (k // 2) + CRLF)
        yield b(b"Subject:" + b" a\r\n" * (k // 4) + b" b\r\n")
        yield b(b"Subject: " + b"=?utf-8?q?a?= " * (k // 14) + CRLF)
        yield b(b"Subject: " + b"=?" * (k // 2) + CRLF)
        yield b(b"Subject: " + b"=?a?" * (k // 4) + CRLF)
        yield b(b"Subject: " + b"=?utf-8?b?" + b"A" * k + b"?=\r\n")
        yield b(b"X: " + b"x" * k + CRLF)
        yield b(b"x" * k + b": y\r\n")
        yield b(b"X: y\r\n" * (k // 6))
        yield b(b"Keywords: a\r\n" * (k // 13))
        yield b(b"Keywords: " + b"a," * (k // 2) + b"b\r\n")
        yield b(b"Keywords: " + b"a " * (k // 2) + CRLF)
        yield b(b"References: " + b"<a@b>" * (k // 5) + CRLF)
        yield b(b"MIME-Version: " + b"1" * k + b"." + b"0" * k + CRLF)
        yield b(b"Content-Type: a/b" + b"; x=y" * (k // 5) + CRLF)
        yield b(b"Content-Type: a/b; x=\"" + b"\\a" * (k // 2) + b"\"\r\n")
        yield b(b"Content-Type: a/b; " + b"x" * k + b"=y\r\n")
        yield b(b"Content-Type: a/b; x*" + b"9" * k + b"=y\r\n")
        yield b(b"Content-Type: a/b; x*=utf-8''" + b"%41" * (k // 3) + CRLF)
        yield b(b"", b"x" * k)
        yield b(b"", b"x\r\n" * (k // 3))
        yield b(b"", CRLF * (k // 2))
        yield b(b"Content-Transfer-Encoding: base64\r\n", b"YWJj\r\n" * (k // 6))
        yield b(b"Content-Transfer-Encoding: base64\r\n", b"Y" * k)
        yield b(b"Content-Transfer-Encoding: base64\r\n", b"=" * k)
        yield b(b"Content-Transfer-Encoding: quoted-printable\r\n", b"=41" * (k // 3))
        yield b(b"Content-Transfer-Encoding: quoted-printable\r\n", b"=\r\n" * (k // 3) + b"=")
        yield b(b"Content-Type: multipart/mixed; boundary=b\r\n", b"--b\r\n\r\n" * min(k // 7, 390) + b"--b--")
        yield b(b"Content-Type: multipart/mixed; boundary=b\r\n", b"--b--x\r\n" * (k // 8))
        yield b(b"Content-Type: multipart/mixed; boundary=" + b"-" * min(k, 3000) + CRLF, b"-" * k)
        yield RECEIVED * (k // 36) + REQ
        yield b"Received: " + b"a " * (k // 2) + b";1 Jan 2000 00:00 +0000\r\n" + REQ
        yield b"Received: " + b"<" * k + b";1 Jan 2000 00:00 +0000\r\n" + REQ
        yield b"Return-Path: <" + b"(" * k + REQ
        yield b"Date: 1 Jan " + b"9" * k + b" 00:00 +0000\r\nFrom: a@b\r\n"
    # these take quadratic time
    for k in (1, 7, 100, n // 100, n // 40):
        yield b(b"To: " + b"a " * k + CRLF)
        yield b(b"To: " + b"a@b," * k + CRLF)
        yield b(b"To: " + b"a@b," * k + b"c@d\r\n")
        yield b(b"To: " + b"G:" * k + b";" * k + CRLF)
        yield b(b"To: " + b"a:b@c;," * k + b"d@e\r\n")
        yield b(b"To: " + b'"' * k + CRLF)
        yield b(b"To: \"" + b"\\" * k + b"\" <a@b>\r\n")
        yield b(b"To: " + b"\"a\"" * k + b"<a@b>\r\n")
        yield b(b"From: " + b"<" * k + b"a@b" + b">" * k + CRLF)
        yield b(b"To: a@" + b"b." * k + b"c\r\n")
        yield b(b"To: a@[" + b"1 " * k + b"]\r\n")
        yield b(b"To: (" + b" \r\n" * k + b") a@b\r\n")
        yield b(b"Content-Type: a/b" + b"".join(b"; x*%d=y" % i for i in range(k)) + CRLF)
        yield b(b"Content-Type: a/b" + b"".join(b"; x*%d*=%%41" % i for i in range(k)) + b"; x*0*=utf-8''a\r\n")
        yield b(b"Content-Disposition: a" + b"; filename=x" * k + CRLF)


def limits():
    """numbers of things around powers of two"""
    for k in (254, 255, 256, 257, 258, 300, 512):
        yield msg(b"Content-Type: a/b" + b"".join(b"; x*%d=%c" % (i, 97 + i % 26) for i in range(k)) + CRLF)
        yield msg(b"Content-Type: a/b" + b"".join(b"; x*%d*=%s%%4%d" % (i, b"utf-8''" if i == 0 else b"", i % 10) for i in range(k)) + CRLF)
        yield msg(b"Content-Type: a/b; x*0=a; x*%d=b; x*1=c\r\n" % k)
        yield msg(b"Content-Type: a/b; x*%d=b\r\n" % k)
        yield msg(b"Content-Type: a/b; x*0%d=b\r\n" % k)
        yield msg(b"MIME-Version: %d.0\r\n" % k)
        yield msg(b"MIME-Version: 1.%d\r\n" % k)
        yield msg(b"Keywords: " + b",".join(b"k%d" % i for i in range(k)) + CRLF)
        yield msg(b"References:" + b"".join(b"\r\n <a%d@b>" % i for i in range(k)) + CRLF)
        yield msg(b"To: " + b", ".join(b"a%d@b" % i for i in range(k)) + CRLF)
        yield msg(b"".join(b"X-%d: v%d\r\n" % (i, i) for i in range(k)))
        yield msg(b"Subject:" + b"".join(b" w%d\r\n" % i for i in range(k)) + b" end\r\n")
        yield msg(b"To: " + b"(" * k + b")" * k + b"a@b\r\n")
    for k in (300, 400):
        yield mime(b"multipart/mixed; boundary=b", b"".join(b"--b\r\n\r\n%d\r\n" % i for i in range(k - 5)) + b"--b--")


# ------------------------------------------------------------------------------- C02
def bodies(g, n):
    yield from (REQ, REQ + CRLF, REQ[:-2], REQ[:-1], REQ + b"\r", REQ + b"\n", REQ + b"\n\n", REQ + b" ", REQ + b" x\r\n\r\ny",
                REQ + b"X", REQ + b"X:", REQ + b"X:\r\n", b"", CRLF, b"\r\n\r\n", b"X: y", b"X: y\r\n", b"X: y\r\n\r\n", REQ + b"X: y\r\n \r\n\r\nz")
    for x in ALL256:
        for b in (x, b"a" + x, x + b"a", b"a\r\n" + x + b"\r\n", CRLF + x, b"a" + x + b"b"):
            yield REQ + CRLF + b
    for k in (0, 1, 2, 996, 997, 998, 999, 1000, 1001, 1995, 1996, 1997):
        l = b"x" * k
        for b in (l, l + CRLF, b"a\r\n" + l + CRLF, l + b"\r\nb", l + CRLF + l, CRLF + l, l + b"\r", l + b"\n", b" " * k, l + b"\r\n\r\n"):
            yield REQ + CRLF + b
    for b in (b"X: y\r\n\r\nz", b"From: c@d\r\n", b"--b\r\n", b"\r\n\r\n\r\n", b" x", b"\t", b".", b".\r\n.\r\n", b"\r\r\n", b"\r\n\n", b"\n\r\n",
              b"\r\n\r", b"a\x00b", b"\x80", b"\xef\xbb\xbf", b"\x7f", b"\x0b\x0c"):
        yield REQ + CRLF + b
        yield REQ + b"Subject: s\r\n\r\n" + b
        yield REQ + b"Subject: s" + b
        yield RECEIVED + REQ + CRLF + b
    for _ in range(n):
        b = b"".join(g.c(b"a", b"bc ", CRLF, CRLF, b"\r", b"\n", b"\x00", b"\xe9", b"x" * 500, b"y" * 498, b":", b"\t")
                     if g.p(.3) else g.c(b"a", b"b c", CRLF, b"x" * 499) for _ in range(g.n(0, 6)))
        yield REQ + g.c(b"", b"Subject: s\r\n", b"X: y\r\n z\r\n") + g.c(CRLF, CRLF, b"", b"\n", b"\r") + b


# ------------------------------------------------------------------------------- C03, C04, C23
def headers(g, n, a=0, b=12, names=NAMES, valid=.75):
    extra = [b"X-A", b"X-B", b"Comments", b"Keywords", b"X-A", b"Received", b"Resent-To", b"Fro", b"Datex"]
    for _ in range(n):
        fs = [FROM, DATE]
        pool = [x for x in names if x not in (b"From", b"Date")]
        g.r.shuffle(pool)
        for k in range(g.n(a, b)):
            nm = pool[k] if k < len(pool) and g.p(.6) else g.c(*extra)
            fs.append(g.field(nm, valid, g.p(.3)))
        if g.p(.7):
            g.r.shuffle(fs)
        yield b"".join(fs) + g.c(b"", b"\r\n", b"\r\nbody\r\n")


def many(k):
    kinds = [b"X-%d: v%d\r\n", b"Comments: c%d-%d\r\n", b"Keywords: k%d, m%d\r\n", b"X: a%d\r\n b%d\r\n"]
    for kind in kinds:
        yield msg(*[kind % (i, i) for i in range(k)])
    yield msg(*[kinds[i % 4] % (i, i) for i in range(k)])
    yield b"".join(kinds[i % 4] % (i, i) for i in range(k)) + REQ


BAD = [b"(", b")", b"<", b">", b"[", b"]", b"@", b",", b";", b":", b"\"", b"\\", b".", b"=", b"?", b"*", b"x", b" x", b"1",
       b"\x00", b"\x7f", b"\x80", b"\xc3\xa9", b"\r", b"\n", b"\r\n x", b"\r\n "]


def malformed(g, n):
    """fields with values that are close to their syntax"""
    for nm in NAMES:
        v = g.value(nm, False)
        for x in BAD:
            yield msg_without(nm, line(nm, v + x))
            yield msg_without(nm, line(nm, x + v))
    for _ in range(n):
        nm = g.c(*NAMES)
        yield msg_without(nm, line(g.case(nm), g.mutate(g.value(nm, g.p(.3)), g.n(1, 3))))


def msg_without(name, text):
    """the field in a message that has no other field of that name"""
    req = (b"" if name.lower() == b"from" else FROM) + (b"" if name.lower() == b"date" else DATE)
    return req + text


def names(g, n):
    pool = NAMES + TRACE_NAMES + [b"X-Other"]
    for nm in pool:
        v = g.value(nm, False)
        for x in range(256):
            k = g.n(0, len(nm))
            yield msg_without(nm, line(nm[:k] + bytes([x]) + nm[k + (x % 2):], v)) if x % 4 == 0 else \
                msg_without(nm, line(nm + bytes([x]), v)) if x % 4 == 1 else \
                msg_without(nm, line(bytes([x]) + nm, v)) if x % 4 == 2 else \
                msg_without(nm, line(nm[:k] + bytes([x]) + nm[k + 1:], v))
    for _ in range(n):
        nm = g.c(*pool)
        k = g.n(0, 3)
        w = g.case(nm) if k == 0 else nm[:g.n(1, len(nm))] if k == 1 else g.c(*pool) + g.c(b"", b"-") + nm if k == 2 else g.mutate(nm)
        yield msg_without(nm, line(w, g.value(nm, False)))
    yield msg(line(b"x" * 76, b" y"), line(b"y" * 1000, b" z"), line(b"!", b""), line(b"~", b"x"))


# ------------------------------------------------------------------------------- C05, C06
VALID = {b"From": b" c@d", b"Date": b" 2 Feb 2002 02:02 +0000", b"Sender": b" e@f", b"Reply-To": b" a@b", b"To": b" a@b", b"Cc": b" G:;",
         b"Bcc": b"", b"Message-ID": b" <a@b>", b"In-Reply-To": b" <a@b>", b"References": b" <a@b>", b"Subject": b" s", b"Comments": b" c",
         b"Keywords": b" k", b"MIME-Version": b" 1.0", b"Content-Type": b" a/b", b"Content-Transfer-Encoding": b" 7bit",
         b"Content-ID": b" <a@b>", b"Content-Description": b" d", b"Content-Disposition": b" inline"}


TRACES = [b"Return-Path: <>\r\n", b"Return-Path: <a@b>\r\nReceived: x; 1 Jan 2000 00:00 +0000\r\n", b"Received: by x; 1 Jan 2000 00:00 +0000\r\n",
          b"Received: by x; 1 Jan 2000 00:00 +0000\r\nResent-From: a@b\r\n", b"Resent-Date: 1 Jan 2000 00:00 +0000\r\nResent-To: a@b\r\n"]


def context(g, without=()):
    """fields among which another one stands: some of each kind, trace blocks, repeated ones"""
    fs = [line(x, VALID[x]) for x in NAMES if x not in (b"From", b"Date") and x not in without and g.p(g.c(.1, .5))]
    fs += [line(b"Comments", b" c%d" % i) for i in range(g.c(0, 0, 1, 2, 5))] + [line(b"Keywords", b" k%d" % i) for i in range(g.c(0, 0, 1, 2, 5))]
    fs += [line(b"X-%d" % (i % 3), b" v%d" % i) for i in range(g.c(0, 0, 1, 2, 5, 9))]
    g.r.shuffle(fs)
    for _ in range(g.c(0, 0, 1, 2, 3, 4)):
        fs.insert(0 if g.p(.6) else g.n(0, len(fs)), g.c(*TRACES))
    return fs


def duplicates(g, n):
    for nm in NAMES:
        f = line(nm, VALID[nm])
        # after some of each kind of field
        for k in (1, 2, 3, 4):
            rest = [x for x in (FROM, DATE) if not x.startswith(nm)]
            for some in (TRACES[1], TRACES[3], b"X-%d: y\r\n" % k, line(b"Comments", b" c"), line(b"Keywords", b" k")):
                if some.startswith(nm):
                    continue
                yield b"".join([some] * k + rest + [f, f])
                yield b"".join([some] * k + rest + [f])
                yield b"".join(rest + [f] + [some] * k + [f])
                yield b"".join(rest + [some, f] * k)
        for k in range(max(8, n // 25)):
            fs = context(g, (nm,))
            for x in (FROM, DATE) + (f, f)[:g.c(1, 2, 2, 2)]:
                fs.insert(g.n(0, len(fs)), x)
            yield b"".join(fs) + g.c(b"", CRLF, b"\r\nbody")
    fill = [line(k, v) for k, v in VALID.items() if k not in (b"From", b"Date")]
    for nm in NAMES:
        for other in NAMES:
            yield msg(line(nm, VALID[nm]), line(other, VALID[other]), line(nm, VALID[nm]))
        f = line(nm, VALID[nm])
        rest = [x for x in fill if x != f]
        yield b"".join([f] + rest + [FROM, DATE, f])
        yield b"".join([FROM] + rest[:6] + [f] + rest[6:] + [DATE])
        yield b"".join([f, FROM, DATE])
        yield b"".join([f, f, f])
        yield b"".join([FROM, f, DATE] + [b"X: y\r\n"] * 40 + [f])
        yield b"".join([x for x in [FROM, DATE] + fill if not x.startswith(nm + b":")])
        yield b"".join([FROM, DATE, line(nm, VALID[nm]), line(nm.upper(), VALID[nm])])
        yield b"".join([FROM, DATE, line(nm, b" ((" if nm not in (b"Subject", b"Comments", b"Content-Description") else b" x"), f])
    yield b"".join([FROM, DATE] + fill)
    yield b"".join(fill + [FROM, DATE])
    yield b"".join([DATE] + fill + [FROM])
    yield from (b"", FROM, DATE, FROM + FROM, DATE + DATE, FROM + DATE + FROM, DATE + FROM + DATE, DATE + FROM, RECEIVED + REQ,
                RECEIVED + b"Resent-From: x@y\r\n" + DATE, RECEIVED + b"Resent-Date: 1 Jan 2000 00:00 +0000\r\n" + FROM)
    for _ in range(n):
        fs = [line(x, VALID[x]) for x in g.r.sample(NAMES, g.n(1, len(NAMES)))]
        for _ in range(g.n(0, 2)):
            x = g.c(*NAMES)
            fs.append(line(x, VALID[x] if g.p(.7) else b" (("))
        g.r.shuffle(fs)
        yield b"".join(fs)


def senders(g, n):
    A = [b"a@b", b"<a@b>", b"N <a@b>", b"c@d", b"\"x y\" <c@d>", b"=?utf-8?q?=C3=A9?= <e@f>", b"\"q\"@[1]", b"A@B", b"(c) a@b (d)"]
    froms = [b"From: " + x + CRLF for x in A] + [b"From: " + x + b", " + y + CRLF for x in A for y in A] + \
        [b"From: a@b, c@d, e@f\r\n", b"From: G: a@b;\r\n", b"From:\r\n", b"From: a@b,\r\n", b"", b"From: " + b",".join([b"a@b"] * 9) + CRLF]
    snd = [b""] + [b"Sender: " + x + CRLF for x in A] + [b"Sender: a@b, c@d\r\n", b"Sender:\r\n", b"Sender: G: a@b;\r\n", b"Sender: x\r\n"]
    for f in froms:
        for s in (snd if len(f) < 30 else pick(g, snd, 5) + [b"", b"Sender: s@t\r\n"]):
            for m in ((DATE + s + f, f + DATE + s, s + DATE + f) if s else (f + DATE, DATE + f)):
                yield m
    for s in snd:
        for s2 in snd:
            yield FROM + s + DATE + s2
    for _ in range(n):
        fs = [line(b"From", b" " + g.mailboxes(True, 1, g.c(1, 1, 2, 3))), DATE]
        if g.p(.5):
            fs.append(line(b"Sender", b" " + (g.mailbox() if g.p(.8) else g.mutate(g.mailbox()))))
        if g.p(.2):
            fs.append(b"Reply-To: r@s\r\n")
        g.r.shuffle(fs)
        yield b"".join(fs)


# ------------------------------------------------------------------------------- C07
FREE = [b"Subject", b"Comments", b"Content-Description", b"X-Any"]


def unfolding(g, n):
    T = [b"", b"a", b" a", b"  a", b"\ta", b"a ", b"a  ", b"a\t ", b"a b", b"a  b", b"a\tb", b" ", b"\t", b" \t "]
    for x in ALL256:
        for nm in FREE[:2]:
            for v in (x, b" " + x, b"a" + x + b"b", b"a" + x, b"a \r\n " + x + b"b", b"a\r\n" + x + b"b", b"a" + x + b"\r\n b"):
                yield msg(line(nm, v))
    for a in T:
        for f in FOLDS + [b"\r\n\r\n ", b"\r\n \r\n ", b"\r \n", b"\r\n", b"\n ", b"\r "]:
            for b in T:
                yield msg(line(FREE[(len(a) + len(b)) % 4], a + f + b))
    for k in (1, 2, 3, 10, 77, 78, 79, 80, 255, 256, 998, 999, 1000, 3000):
        yield msg(line(b"Subject", b"x" * k), line(b"X", b" " + b"y" * k + b" "), line(b"Comments", b" " * k + b"z"),
                  line(b"Y", b"z" + b" " * k), line(b"Z", b"a" + b" " * k + b"b"))
    for _ in range(n):
        out = g.c(b"", b" ", b"  ", b"\t")
        for _ in range(g.n(0, 12)):
            out += g.chars(ATEXT + b"()<>[]:;@\\,.\"=?", 1, 9)
            out += g.c(b"", b" ", b"\t", b"  ", b" \t ", *FOLDS)
        out = out.rstrip(b" \t\r\n") + g.c(b"", b"", b" ", b"  \t")
        yield msg(line(g.c(*FREE), out if g.p(.85) else g.mutate(out)))
    for _ in range(n // 4):
        out = b" ".join(g.chars(ATEXT, 1, 5) + g.c(b"", b"\r\n") for _ in range(g.n(1, 6))).rstrip()
        yield parted(b"Content-Description: " + out + CRLF + b"X-Y:" + out + CRLF, b"x")


# ------------------------------------------------------------------------------- C08
STRUCTURED = [n for n in NAMES if n not in (b"Subject", b"Comments", b"Content-Description")]


def commented(g, n):
    for _ in range(n):
        nm = g.c(*STRUCTURED)
        v = g.value(nm, True)
        if g.p(.2):
            v = g.mutate(v)
        yield msg_without(nm, line(nm, v))
    for _ in range(n // 4):
        k = g.n(0, 3)
        head = (g.field(b"Return-Path", .9) if k == 0 else b"") + g.field(b"Received", .9)
        if k == 1:
            head += g.field(g.c(*TRACE_NAMES[2:]), .9)
        yield head + REQ


def comments(g, n):
    """every byte inside comments; nesting; at each end of a structured field"""
    for x in ALL256:
        for c in (b"(" + x + b")", b"(\\" + x + b")", b"(a" + x + b" b)", b"((" + x + b"))"):
            yield msg(b"To: " + c + b"a@b\r\n", b"Date: 2 Feb 2002 02:02 +0000 " + c + CRLF)
    for k in (1, 2, 3, 10, 63, 64, 65, 127, 128, 255, 256, 257, 300):
        for c in (b"(" * k + b")" * k, b"(x" * k + b"y)" * k, b"()" * k, b"(" * k + b"\\)" + b")" * k, b"(" * (k + 1) + b")" * k, b"(" * k + b")" * (k + 1),
                  b"(" * k + b"\r\n " + b")" * k):
            yield msg(b"To: " + c + b"a@b\r\n", b"Message-ID: <a@b>" + c + CRLF)
    pieces = [b"(", b")", b"\\(", b"\\)", b"\\\\", b"\\", b"a", b" ", b"\r\n ", b"\""]
    for _ in range(n):
        c = b"(" + b"".join(g.c(*pieces) for _ in range(g.n(0, 8))) + b")"
        nm, v = g.c((b"To", b" %s a@b"), (b"To", b" a@b %s"), (b"Message-ID", b" %s<a@b>"), (b"Keywords", b" k%s"), (b"MIME-Version", b" 1%s.0"),
                    (b"Content-Type", b" a/b%s; x=y"), (b"Content-Type", b" a/b;%sx=y"), (b"Cc", b" G:%s;"), (b"To", b" a%s@b"), (b"To", b" <a@b%s>"))
        yield msg(line(nm, v % c))


# ------------------------------------------------------------------------------- C09
def addresses(g, n):
    for k in list(range(1, 12)) + [31, 32, 33, 63, 64, 65, 100]:
        yield msg(line(b"To", b" " + b", ".join(b"N%d <a%d@b>" % (i, i) for i in range(k))),
                  line(b"Cc", b" G: " + b", ".join(b"a%d@b" % i for i in range(k)) + b";"),
                  line(b"Bcc", b" " + b", ".join(b"G%d:;" % i for i in range(k))),
                  line(b"Reply-To", b" " + b" ".join(b"w%d" % i for i in range(k)) + b" <x@y>"))
    for _ in range(n):
        nm = g.c(b"To", b"Cc", b"Bcc", b"Reply-To", b"From", b"Sender")
        v = g.addresses(g.p(.5), 1, g.c(1, 2, 3, 5))
        if g.p(.3):
            v = g.mutate(v, g.n(1, 2))
        yield msg_without(nm, line(nm, b" " + v))
    pieces = [b"a", b"b.c", b'"q"', b"@", b"@", b"<", b">", b",", b":", b";", b" ", b"[1]", b"=?utf-8?q?x?=", b"a@b", b"N <c@d>", b"()"]
    for _ in range(n):
        nm = g.c(b"To", b"Cc", b"Bcc", b"Reply-To", b"From", b"Sender")
        yield msg_without(nm, line(nm, b"".join(g.c(*pieces) for _ in range(g.n(1, 8)))))


# ------------------------------------------------------------------------------- C10
def words(g, n):
    for x in ALL256:
        vals = [b'"' + x + b'" <a@b>', b'"\\' + x + b'" <a@b>', b'"a' + x + b'b"@c', b"a" + x + b"b@c", b"a@b" + x + b"c", b"a@[b" + x + b"c]",
                b"a@[" + x + b"]", x + b" <a@b>", b"a@[\\" + x + b"]", b'"a\\' + x + b'b"@c', b"a." + x + b"@c"]
        for v in vals:
            yield msg(line(b"To", b" " + v))
        yield msg(line(b"Keywords", b' "a' + x + b'b", "' + x + b'"'), line(b"Content-Type", b' a/b; c="' + x + b'"; d="\\' + x + b'"'))
        yield msg(line(b"Message-ID", b" <a" + x + b"b@c>"), line(b"Content-ID", b" <a@[" + x + b"]>"))
    for k in (0, 1, 2, 63, 64, 65, 255, 256, 300, 998):
        yield msg(line(b"To", b' "' + b"x" * k + b'"@' + b"y" * max(k, 1)), line(b"Cc", b' "' + b"\\\"" * k + b'" <' + b".".join([b"a"] * max(k, 1)) + b"@[" + b"1" * k + b"]>"))
    pieces = [b"a", b" ", b"  ", b"\t", b"\\\"", b"\\\\", b"\\a", b"\\ ", b"\r\n ", b"\r\n\t", b"(", b")", b"\\", b'"', b"@", b",", b"\\\t", b"=?utf-8?q?x?="]
    for _ in range(n):
        q = b'"' + b"".join(g.c(*pieces) for _ in range(g.n(0, 8))) + b'"'
        yield msg(line(*g.c((b"To", b" " + q + b"@b"), (b"To", b" " + q + b" <a@b>"), (b"Keywords", b" " + q), (b"Content-Type", b" a/b; x=" + q),
                            (b"To", b" x " + q + b" y <a@b>"), (b"Content-Disposition", b" inline; filename=" + q), (b"Sender", b" " + q + b"@b"))))
    dots = [b"a", b"b", b".", b".", b"..", b"c-d", b" ", b"()"]
    for _ in range(n):
        d = b"".join(g.c(*dots) for _ in range(g.n(1, 6)))
        yield msg(line(*g.c((b"To", b" " + d + b"@b"), (b"To", b" a@" + d), (b"Message-ID", b" <" + d + b"@b>"), (b"Message-ID", b" <a@" + d + b">"),
                            (b"To", b" " + d + b" <a@b>"), (b"Cc", b" <" + d + b"@" + d + b">"))))
    lits = [b"1", b".", b":", b" ", b"\t", b"\r\n ", b"a", b"\"", b"(", b"@", b"[", b"]", b"\\", b"\\a"]
    for _ in range(n // 2):
        d = b"[" + b"".join(g.c(*lits) for _ in range(g.n(0, 6))) + b"]"
        yield msg(line(*g.c((b"To", b" a@" + d), (b"To", b" N <a@" + d + b">"), (b"Message-ID", b" <a@" + d + b">"))))


# ------------------------------------------------------------------------------- C11
IDS = [b"Message-ID", b"In-Reply-To", b"References", b"Content-ID"]


def ids(g, n):
    for k in (1, 2, 3, 7, 8, 9, 16, 33, 100):
        v = b"".join(g.c(b"", b" ", b"\r\n ") + b"<i%d.x@h%d.y>" % (i, i) for i in range(k))
        for nm in IDS:
            yield msg(line(nm, b" " + v))
    for x in ALL256:
        for i in (b"<a" + x + b"@b>", b"<a@b" + x + b">", b"<" + x + b"@b>", b"<a@" + x + b">", b"<a@[" + x + b"]>", b"<a@b>" + x, x + b"<a@b>", b"<a" + x + b"b>"):
            yield msg(line(IDS[x[0] % 4], b" " + i), line(b"References", b" <c@d>" + i))
    pieces = [b"<", b">", b"@", b"a", b"b.c", b".", b" ", b"[1]", b"[", b"]", b"()", b'"q"', b"<a@b>", b",", b"\r\n "]
    for _ in range(n):
        yield msg(line(g.c(*IDS), b"".join(g.c(*pieces) for _ in range(g.n(1, 8)))))
    for _ in range(n):
        v = g.msgids(g.p(.5)) if g.p(.6) else g.msgid(g.p(.5))
        yield msg(line(g.c(*IDS), b" " + (v if g.p(.7) else g.mutate(v))))
    for _ in range(n // 6):
        yield RECEIVED + line(b"Resent-Message-ID", b" " + (g.msgid() if g.p(.8) else g.mutate(g.msgid()))) + REQ
        yield parted(line(b"Content-ID", b" " + (g.msgid() if g.p(.8) else g.mutate(g.msgid()))), b"x")


# ------------------------------------------------------------------------------- C12
def date_places(v):
    yield FROM + line(b"Date", b" " + v)
    yield b"Received: x; " + v + CRLF + REQ
    yield RECEIVED + b"Resent-Date: " + v + CRLF + REQ
    yield msg(b"Content-Disposition: inline; creation-date=\"" + v + b"\"; modification-date=\"" + v + b"\"; read-date=\"" + v + b"\"\r\n")


def dates(g, n):
    base = (b"Mon, ", b"1", b"Jan", b"2000", b"10", b"20", b":30", b"+0100")

    def d(*a):
        dow, day, mon, y, h, m, s, z = a
        return dow + day + b" " + mon + b" " + y + b" " + h + b":" + m + s + b" " + z
    vals = []
    for k in range(100):
        two = b"%02d" % k
        for i, w in ((1, two), (1, b"%d" % k), (4, two), (5, two), (6, b":" + two), (7, b"+" + two + b"00"), (7, b"-00" + two), (7, b"-" + two + b"59"),
                     (3, b"19" + two), (3, b"20" + two), (3, b"18" + two), (3, two), (3, b"%d" % (1000 + 90 * k)), (3, b"1" + two), (7, b"+" + two)):
            a = list(base)
            a[i] = w
            vals.append(d(*a))
    for a in DAYS + [b"Su", b"Sund", b"Sunday", b"x", b""]:
        for f in (a, a.lower(), a.upper(), a.swapcase()):
            vals += [d(f + b", ", *base[1:]), d(f + b",", *base[1:]), d(f + b" ", *base[1:])]
    for a in MONTHS + [b"Ja", b"June", b"January", b"x", b"1", b"01"]:
        for f in (a, a.lower(), a.upper(), a.swapcase()):
            vals.append(d(base[0], b"1", f, *base[3:]))
    for y in (0, 1, 99, 999, 1899, 1900, 1901, 1969, 1970, 1989, 1990, 1991, 1999, 2000, 9999, 10000, 32767, 32768, 65535, 65536, 2 ** 31 - 1, 2 ** 31,
              2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 2000, 10 ** 20, 10 ** 30):
        for f in (b"%d", b"0%d", b"00%d", b"%04d"):
            vals.append(d(*base[:3], f % y, *base[4:]))
    for v in vals:
        yield FROM + line(b"Date", b" " + v)
    for v in pick(g, vals, n):
        yield from list(date_places(v))[1:]
    for _ in range(n):
        v = g.date(True)
        if g.p(.4):
            v = g.mutate(v)
        yield from pick(g, date_places(v), 2)


# ------------------------------------------------------------------------------- C13
def traces(g, n):
    for _ in range(n):
        head = b""
        for _ in range(g.n(1, 3)):
            if g.p(.5):
                head += g.field(b"Return-Path", .85, g.p(.5))
            for _ in range(g.c(1, 1, 1, 2, 3)):
                head += g.field(b"Received", .85, g.p(.5))
            for _ in range(g.n(0, 4)):
                head += g.field(g.c(*TRACE_NAMES[2:]), .9, g.p(.3))
            if g.p(.1):
                head += g.c(b"X: y\r\n", b"Subject: s\r\n", b"Resent-Reply-To: a@b\r\n")
        yield head + REQ
    pieces = [b"from ", b"by", b" a.b ", b"c", b"<d@e>", b"f@g", b"[1.2]", b'"q"', b"(c)", b" ", b"a.", b".", b"<", b">", b"@", b"\"q\"@h", b"i@[j]", b",",
              b"a.b.c", b"x@y.z"]
    for _ in range(n):
        yield b"Received:" + b"".join(g.c(*pieces) for _ in range(g.n(0, 6))) + b";1 Jan 2000 00:00 +0000\r\n" + REQ
    for _ in range(n // 2):
        a = g.c(b"<>", b"<a@b>", b"< >", b"<()>", b"a@b", b"", b"<a>", b"<a@b", b"(c)<>(d)", b"<\"q\"@[1]>", b"<> x")
        yield b"Return-Path:" + g.c(b"", b" ") + a + CRLF + g.c(RECEIVED, b"", b"X: y\r\n" + RECEIVED, RECEIVED + RECEIVED) + REQ
    for k in (10, 50, 120):
        yield RECEIVED * k + REQ
        yield (RECEIVED + b"Resent-To: a@b\r\n") * k + REQ
        yield RECEIVED + b"Resent-To: a@b\r\n" * k + REQ
        yield b"Received:" + b" w" * k + b" <a@b>;1 Jan 2000 00:00 +0000\r\n" + REQ
    # trace fields after the first other field
    for f in (b"Return-Path: <a@b>\r\n", RECEIVED, b"Resent-Date: 1 Jan 2000 00:00 +0000\r\n", b"Resent-To: a@b\r\n", b"Resent-Message-ID: <a@b>\r\n"):
        for o in (FROM, b"X: y\r\n", b"Subject: s\r\n", b""):
            yield o + f + FROM * (o != FROM) + DATE
            yield RECEIVED + o + f + f + FROM * (o != FROM) + DATE
            yield f + o + RECEIVED + f + FROM * (o != FROM) + DATE


# ------------------------------------------------------------------------------- C14, C15
def encoded(enc, data, k):
    """the data as the body, or as a part"""
    return parted(b"Content-Transfer-Encoding: " + enc + CRLF, data) if k else mime(b"a/b", data, enc)


def base64s(g, n):
    for k in list(range(0, 70)) + [76, 77, 255, 256, 257, 500, 998]:
        raw = g.chars(bytes(range(256)), k, k)
        e = base64.b64encode(raw)
        yield encoded(b"base64", e, k % 2)
        w = g.c(1, 2, 3, 4, 5, 60, 76)
        yield encoded(b"base64", CRLF.join(e[i:i + w] for i in range(0, len(e), w)), k % 3 == 0)
        yield encoded(b"base64", e[:-1], 0)
        yield encoded(b"base64", e[:-2], 1)
        yield encoded(b"base64", e[:-3], 0)
    for x in range(256):
        yield encoded(b"base64", base64.b64encode(bytes([x])), 0)
        yield encoded(b"base64", base64.b64encode(bytes([x, 255 - x])), 1)
        yield encoded(b"base64", base64.b64encode(bytes([x ^ 85, x, x ^ 170])), 0)
        for e in (b"%sYWJj", b"Y%sWJj", b"YW%sJj", b"YWJ%sj", b"YWJj%s", b"YQ%s==", b"YQ=%s=", b"YQ==%s", b"YWI%s=", b"YWI=%s", b"%s"):
            yield encoded(b"base64", e % bytes([x]), x % 2)
    al = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    for _ in range(n):
        e = b"".join(bytes([g.r.choice(al)]) if g.p(.75) else g.c(b"=", b"=", CRLF, b" ", b"-", b"_", b"\x00", b"\xff", b"==", b"\t")
                     for _ in range(g.n(0, 14)))
        yield encoded(b"base64", e, g.p(.4))
    for _ in range(n):
        raw = g.chars(bytes(range(256)), 0, 40)
        e = base64.b64encode(raw)
        for _ in range(g.n(0, 6)):
            k = g.n(0, len(e))
            e = e[:k] + g.c(CRLF, CRLF, b" ", b"\t", b"!", b".", b"\xc3\xa9", b"-", b"\x00", b"\n") + e[k:]
        yield encoded(b"base64", e, g.p(.4))


def qps(g, n):
    hexd = b"0123456789ABCDEFabcdef"
    for x in range(256):
        yield encoded(b"quoted-printable", b"a=%02Xb=%02xc" % (x, x), x % 2)
        for e in (b"%s", b"a%sb", b"=%s", b"=%sA", b"=A%s", b"==%s", b"=\r%s", b"%s\n", b"\r%s", b"=3D%s", b"=%s\r\nb"):
            yield encoded(b"quoted-printable", e % bytes([x]), x % 2)
    for a in b"09AFGaf gz=\r\n":
        for b in b"09AFGaf gz=\r\n":
            yield encoded(b"quoted-printable", b"x=%c%cy" % (a, b), 0)
            yield encoded(b"quoted-printable", b"=%c%c" % (a, b), 1)
    pieces = [b"a", b"b ", b"=", b"=41", b"=e9", b"=E9", b"=\r\n", CRLF, b"\r", b"\n", b"\t", b" ", b"=4", b"=G1", b"\xe9", b"\x00", b"=0D=0A", b"=3D", b"= ", b"=20",
              b"\x7f", b"=\n", b"=\r", b"_", b"=C3=A9"]
    for _ in range(n):
        yield encoded(b"quoted-printable", b"".join(g.c(*pieces) for _ in range(g.n(0, 9))), g.p(.4))
    for k in (75, 76, 77, 255, 256, 998, 1000):
        yield encoded(b"quoted-printable", b"x" * k + b"=\r\n" + b"y" * k + b"=41", k % 2)


# ------------------------------------------------------------------------------- C16
def ew(cs, enc, text, lang=b""):
    return b"=?" + cs + lang + b"?" + enc + b"?" + text + b"?="


def encoded_words(g, n):
    W = [ew(b"utf-8", b"q", b"=C3=A9"), ew(b"UTF-8", b"B", b"w6k="), ew(b"iso-8859-1", b"Q", b"=E9_x"), ew(b"iso-8859-2", b"b", b"4Q=="), ew(b"us-ascii", b"q", b"a_b"),
         ew(b"utf-8", b"q", b"x", b"*en"), b"a", b"=?", b"?=", b"=?utf-8?q?", b"=?utf-8?q?=C3?=", b"=?x?q?a?=", b"=?utf-8?x?a?=", b"=?utf-8?b?w6?=",
         b"=?utf-8?q??=", b"=??q?a?=", b"=?utf-8*?q?a?=", ew(b"utf-8", b"q", b"b") + b"c", b"c" + ew(b"utf-8", b"q", b"b"), b"(", b"\"x\""]
    S = [b"", b" ", b"  ", b"\t", b"\r\n ", b" \r\n\t"]
    FR = [b"Subject", b"Comments", b"Content-Description", b"X-Any"]
    k = 0
    for a in W:
        for s in S:
            for b in W:
                k += 1
                yield msg(line(FR[k % 4], b" " + a + s + b))
    for a in W:
        for s in S[:4]:
            for b in W:
                yield msg(line(b"To", b" " + a + s + b + b" <a@b>"), line(b"Keywords", b" " + a + s + b), line(b"Cc", b" " + a + s + b + b":;"))
    for x in range(256):
        c = bytes([x])
        yield msg(line(b"Subject", b" =?utf-8?q?a" + c + b"b?= =?ut" + c + b"f-8?q?a?="), line(b"Comments", b" =?utf-8?" + c + b"?YQ==?= =?utf-8*" + c + b"?b?YQ==?="))
        yield msg(line(b"Subject", b" =?iso-8859-1?q?=%02X?=" % x), line(b"Comments", b" =?utf-8?q?=%02X?=" % x), line(b"Content-Description", b" =?utf-8?q?=4" + c + b"?="))
        yield msg(line(b"Subject", b" " + ew(b"iso-8859-1", b"b", base64.b64encode(c))), line(b"Comments", b" =?utf-8?b?Y" + c + b"Q==?="))
        yield msg(line(b"Subject", b" =?utf-8?q?a?" + c), line(b"Comments", b" =?utf-8?q?a?=" + c + b"b"), line(b"Content-Description", b" =" + c + b"utf-8?q?a?="))
    for cs in CHARSETS + [b"iso-8859-12", b"iso-8859-0", b"iso-8859", b"utf8", b"utf-7", b"ascii", b"iso-8859-17", b"windows-1252", b"gbk", b"iso-6938"]:
        for f in (cs, cs.upper(), cs.swapcase(), cs.title()):
            yield msg(line(b"Subject", b" " + ew(f, b"q", b"a=41=E9=C3")), line(b"Comments", b" " + ew(f, b"B", b"QQ==") + b" " + ew(f, b"b", b"QcPp")))
    for l in (b"*en", b"*en-US", b"*", b"*e*n", b"**", b"*x=y", b"*a.b", b"en", b"*1"):
        yield msg(line(b"Subject", b" =?utf-8" + l + b"?q?a?= b"))
    for m in (70, 75, 76, 255, 256, 500):
        yield msg(line(b"Subject", b" " + ew(b"utf-8", b"q", b"x" * m) + b" " + ew(b"utf-8", b"b", b"YWJj" * (m // 4))))
    for _ in range(n):
        v = b" " + b"".join(g.encoded_word(g.p(.75)) if g.p(.6) else g.chars(ATEXT + b"=?", 1, 5) for _ in range(1))
        for _ in range(g.n(0, 5)):
            v += g.c(*S) + (g.encoded_word(g.p(.75)) if g.p(.6) else g.chars(ATEXT + b"=?", 1, 5))
        yield msg(line(g.c(*FR), v)) if g.p(.7) else parted(line(g.c(b"Content-Description", b"X-P"), v), b"x")
    for _ in range(n // 2):
        v = g.phrase(True, g.p(.5))
        yield msg(line(*g.c((b"To", b" " + v + b" <a@b>"), (b"Keywords", b" " + v), (b"To", v + b":a@b;"), (b"Reply-To", b" x@y, " + v + b"<a@b>"))))
    for _ in range(n // 2):
        v = bytearray(g.encoded_word(True))
        yield msg(line(g.c(*FR), b" x " + g.mutate(bytes(v)) + b" " + g.encoded_word(True)))


# ------------------------------------------------------------------------------- C17
def param_fields(ps):
    """a list of parameters in a Content-Type and in a Content-Disposition"""
    t = b"".join(b"; " + p for p in ps)
    return [msg(b"Content-Type: a/b" + t + CRLF), msg(b"Content-Disposition: x" + t + CRLF)]


def owned(g, m):
    """the message with an escape or a fold in each of its quoted strings"""
    def f(x):
        t = x.group(1)
        if not t:
            return b'"\r\n "' if g.p(.3) else x.group(0)
        k = g.n(0, len(t) - 1)
        return b'"' + (t[:k] + b"\\" + t[k:] if g.p(.7) else t[:k] + b"\r\n " + t[k:]) + b'"'
    return re.sub(rb'"([^"\\\r\n]*)"', f, m)


EXTENDED = [b"", b"a", b"'", b"''", b"'''", b"utf-8", b"utf-8'", b"utf-8''", b"utf-8'''", b"'en'", b"'en", b"utf-8'en", b"utf-8'en'", b"utf-8'en'a'b", b"utf-8''%", b"utf-8''%4", b"utf-8''%41", b"utf-8''%C3%A9", b"utf-8''%C3", b"none''a", b"none'a",
            b"iso-8859-1''%E9", b"UTF-8''a%20b", b"utf-8''a b", b"''%41", b"us-ascii'%41'", b"%41''a", b"utf-8''%25%34%31", b"utf-8'' ", b" utf-8''a", b"utf-8 ''a", b"\xc3\xa9''a", b"utf-8'\xc3\xa9'a", b"utf-8''\xc3\xa9", b"%", b"%4", b"%zz"]


def disguised(g):
    """the contents of extended parameters as tokens and as quoted strings with and without escapes and folds"""
    for n, v in enumerate(EXTENDED):
        q = b'"' + v + b'"'
        forms = [v, q] + [b'"' + v[:k] + b"\\" + v[k:] + b'"' for k in range(len(v))] + \
            [b'"' + v[:k] + b"\r\n " + v[k:] + b'"' for k in (0, len(v) // 2, len(v))] + [b'"' + v + b'\\x"', b'"\\x' + v + b'"', b'"' + v + b'\\\\"', b'"' + v + b"\\'" + b'"']
        for k, f in enumerate(forms):
            for j, nm in enumerate((b"x*=%s", b"x*0*=%s", b"x*0*=%s; x*1*=%%41", b"x*1*=%s; x*0*=''a", b"x=%s", b"filename*=%s", b"x*0=%s; x*1*=%%41", b"charset*=%s")):
                if j < 2 or (j + k + n) % 3 == 0:
                    yield param_fields([nm % f])[1 if j == 5 else (k + j) % 2]


def parameters(g, n):
    yield from disguised(g)
    S = [b"x*0=a", b"x*1=b", b"x*2=c", b"x*0*=utf-8''%61", b"x*1*=%62", b"x*2*=%C3%A9", b"x=p", b"x*=utf-8'en'%C3%A9", b"y=q", b"x*1*=%4", b"x*0=\"a b\"",
         b"x*3=d", b"X*1=B"]
    k = 0
    for r in (1, 2, 3):
        for c in itertools.permutations(S, r):
            k += 1
            if r < 3 or k % 5 == 0:
                yield param_fields(c)[k % 2]
    for m in (9, 10, 11, 12, 20, 21, 99, 100, 101, 200, 254, 255, 256, 257):
        ps = [b"x*%d=%d." % (i, i) for i in range(m)]
        yield param_fields(ps)[0]
        yield param_fields(ps[::-1])[1]
        g.r.shuffle(ps)
        yield param_fields(ps)[0]
        ps = [b"x*%d*=%s%%%02X" % (i, b"utf-8''" if i == 0 else b"", 33 + i % 90) for i in range(m)]
        g.r.shuffle(ps)
        yield param_fields(ps)[1]
        yield param_fields([b"x*0=a", b"x*%d=b" % m, b"x*1=c"])[0]
    for x in range(256):
        c = bytes([x])
        yield param_fields([b"x*=iso-8859-1''%%%02X" % x, b"y*=utf-8''a%%%02xb" % x])[x % 2]
        yield param_fields([b"x*=iso-8859-1''%%4%s" % c, b"y=z"])[x % 2]
        yield param_fields([b"x*=utf-8''a" + c + b"b", b"y=z"])[x % 2]
        yield param_fields([b"x" + c + b"=a", b"y=z"])[x % 2]
        yield param_fields([b"x*" + c + b"=a", b"x*1=b"])[x % 2]
        yield param_fields([b"x=a" + c + b"b", b"y=z"])[x % 2]
        yield param_fields([b"x*0*=utf-8''%41", b"x*1*=%" + c + b"1", b"x*2=%" + c])[x % 2]
    for v in (b"utf-8''", b"utf-8'", b"utf-8", b"''a", b"'en'a", b"utf-8'en'a'b'c", b"utf-8''%25", b"utf-8''%2541", b"utf-8''%25%34%31", b"x-y''%41", b"utf-8''%ff",
              b"utf-8''%C3", b"utf-8''%A9", b"iso-8859-1''%C3%A9", b"UTF-8''%c3%a9", b"us-ascii''%41", b"us-ascii''%e9", b"gb2312''%D0%C7", b"iso-6937''%C2e", b"\"utf-8''%41\"", b"utf-8''%", b"utf-8''%4", b"utf-8''a%4g"):
        for f in (b"x*=%s", b"x*0*=%s; x*1=b", b"x*0*=%s; x*1*=%%42", b"x*0=%s", b"x=%s", b"x*0*=%s; x*1*=%%A9", b"filename*=%s", b"x*1*=%%42; x*0*=%s"):
            for ps in (f % v,):
                yield from param_fields([ps])
    for cs in CHARSETS + [b"iso-8859-12", b"windows-1252", b"utf8"]:
        for f in (cs, cs.upper(), cs.title()):
            yield param_fields([b"x*=" + f + b"''a%E9%C3%A9%42", b"y*0*=" + f + b"'en'%41", b"y*1*=%42%E4", b"y*2=%42"])[0]
    for nm in (b"x", b"X", b"xY", b"charset", b"CHARSET", b"boundary", b"!#$&+-.^_`{|}~", b"x'y", b"x%41", b"*x", b"x**", b"x*a", b"x*-1", b"x*01", b"x*00", b"x*0 ", b"x *0", b"x*0*0"):
        yield from param_fields([nm + b"=v", b"z*0=a", b"z*1=b"])
        yield from param_fields([nm + b"=v", nm + b"=w"])
    for _ in range(n):
        ps = g.params((b"x", b"y", b"name", b"charset"), 0, 4)
        t = g.render_params(ps, g.p(.3))
        if g.p(.25):
            t = g.mutate(t)
        if g.p(.25):
            t = owned(g, t)
        yield msg(g.c(b"Content-Type: a/b", b"Content-Disposition: inline") + t + CRLF) if g.p(.8) else \
            parted(b"Content-Type: a/b" + t + CRLF, b"x")


# ------------------------------------------------------------------------------- C18
def mime_headers(g, n):
    T = [b"text", b"multipart", b"application", b"image", b"video", b"audio", b"message", b"TEXT", b"Image", b"tex", b"texts", b"text-x", b"x-text", b"font", b"model",
         b"imag", b"audios", b"messages", b"multiparts", b"multi", b"video2", b"a", b"example", b"application-x"]
    for t in T:
        for s in (b"plain", b"PLAIN", b"x-y", b"*", b"a.b+c", b"", b"mixed"):
            for m in (line(b"Content-Type", b" " + t + b"/" + s),):
                yield msg(m, body=b"x")
                yield parted(m, b"x")
    E = [b"7bit", b"8bit", b"binary", b"quoted-printable", b"base64"]
    for e in E:
        for f in (e, e.upper(), e.title(), e.swapcase(), e + b"x", e[:-1], b"x" + e, e + b"-", e.replace(b"-", b"_"), e + b" (c)", e + b" x", b"\"" + e + b"\"", e + b";x"):
            for body in (b"YQ==", b"=41\xe9", b"a\r\nb", b"YQ"):
                yield mime(b"text/plain; charset=iso-8859-1", body, f)
                yield parted(b"Content-Transfer-Encoding: " + f + CRLF, body)
    D = [b"inline", b"attachment"]
    for d in D + [b"form-data", b"x"]:
        for f in (d, d.upper(), d.title(), d + b"x", d[:-1], b"x" + d, d + b"-x", b"\"" + d + b"\""):
            for p in (b"", b"; filename=a", b"; FileName=\"a b\"", b"; filename=a; filename=b", b"; x=y; filename=a", b"; filename*=utf-8''%C3%A9", b"; filename*0=a; filename*1=b",
                      b"; filename=a; filename*=utf-8''b", b"; size=5", b"; filenames=a", b"; filename =a", b"; creation-date=\"1 Jan 2000 00:00 +0000\"",
                      b"; creation-date=\"x\"", b"; creation-date=1", b"; Read-Date=\"1 Jan 2000 00:00 +0000\"; modification-date=\"Mon, 2 Feb 2001 01:02:03 -0100\"; x=y"):
                yield msg(b"Content-Disposition: " + f + p + CRLF)
            yield parted(b"Content-Disposition: " + f + b"; filename=a\r\n", b"x")
    for a in (0, 1, 9, 10, 99, 100, 199, 200, 249, 250, 255, 256, 257, 300, 999, 1000, 65536, 4294967296):
        for v in (b"%d.0", b"1.%d", b"%d.%d" % (a % 256, a % 256) if a else b"0.0", b"0%d.1", b"1.00%d", b"%d"):
            yield msg(b"MIME-Version: " + (v % a if b"%" in v else v) + CRLF)
    # defaults
    for h in (b"", b"MIME-Version: 1.0\r\n", b"Content-Type: x\r\n", b"Content-Type: text/html\r\n", b"Content-Type: text/plain; charset=utf-8\r\n", b"Content-Type: a/b\r\n",
              b"Content-Type: multipart/mixed\r\n", b"Content-Type: message/rfc822\r\n", b"Content-Type: text/plain; charset=x\r\n", b"Content-ID: <a@b>\r\n",
              b"Content-Description: d\r\n", b"Content-Disposition: inline; filename=a\r\n", b"Content-Transfer-Encoding: (\r\n", b"Content-Transfer-Encoding: x-y\r\n",
              b"Content-Type: text/plain; charset=us-ascii; charset=utf-8\r\n", b"X-Content: y\r\n", b"Subject: part\r\n", b"Content-Type: text/plain\r\nContent-Type: a/b\r\n",
              b"Content-ID: <a@b>\r\nContent-ID: <c@d>\r\n"):
        for body in (b"", b"abc", b"a\xe9", b"\xc3\xa9", b"\r\n\r\n", b"=41"):
            yield msg(h, body=body)
            yield parted(h, body)
        yield msg(h)
    hs = [b"Content-Type", b"Content-Transfer-Encoding", b"Content-ID", b"Content-Description", b"Content-Disposition", b"MIME-Version"]
    for _ in range(n):
        h = b"".join(g.field(x, .9, g.p(.3)) for x in g.r.sample(hs, g.n(1, 5)))
        body = g.c(b"YWJj", b"a=41", b"text\r\n", b"\xe9", b"")
        yield msg(h, body=body) if g.p(.5) else parted(h, body)


# ------------------------------------------------------------------------------- C19
def quoted_boundary(bd):
    return b'"' + bd.replace(b"\\", b"\\\\").replace(b'"', b'\\"') + b'"'


def multi(bd, body, how=None):
    return msg(b"Content-Type: multipart/mixed; boundary=" + (how or quoted_boundary(bd)) + CRLF, body=body)


def multiparts(g, n):
    bds = [b"b", b"--", b"-", b"a b", b"=_x", b"b--", b"--b", b"()<>@,;:/[]?=", b"'", b"+", b"x" * 70, b"x" * 71, b"a:b", b"0", b"b.", b"\\", b"\""]
    for bd in bds:
        d, c = b"--" + bd, b"--" + bd + b"--"
        for b in (d + CRLF + CRLF + b"x\r\n" + c, d + CRLF + CRLF + b"x" + CRLF + c + CRLF, b"pre\r\n" + d + CRLF + CRLF + CRLF + c, c, CRLF + c, d + c, d + CRLF + c, d, d + CRLF + CRLF + b"x",
                  d + CRLF + b"X: y" + CRLF + c, d + CRLF + b"X: y" + CRLF + CRLF + c, d + CRLF + CRLF + c, d + CRLF + CRLF + b"x" + c,
                  d + CRLF + CRLF + b"x\n" + c, d + CRLF + CRLF + b"a" + CRLF + d + CRLF + CRLF + b"b" + CRLF + c + CRLF + b"epi" + CRLF + d + CRLF + CRLF + b"z",
                  d + b" " + CRLF + CRLF + b"x\r\n" + c, d + CRLF + CRLF + b"x\r\n" + c + b" ", d + CRLF + CRLF + b"x\r\n" + c + b"\r", d + CRLF + CRLF + b"x\r\n" + c + b"\n", d + CRLF + b"bad" + CRLF + CRLF + b"x\r\n" + c):
            yield multi(bd, b)
        for l in (d + b"x", d[:-1], b" " + d, b"x" + d, d + b" ", c + b"x", c[:-1], d + b"-", d.upper(), b"-" + d, d + d, b"--", d[2:], b"\n" + d, b"\r" + d, d + b"\r", d + b"\n", c + b"--", d + b"\t", c + b" ", d[:2] + b"q" + d[2:]):
            for f in (b"%s\r\n" % l, b"p\r\n%s\r\n" % l):
                yield multi(bd, f + d + CRLF + CRLF + b"x\r\n" + c)
                yield multi(bd, d + CRLF + CRLF + f + b"y\r\n" + c)
                yield multi(bd, d + CRLF + CRLF + b"x\r\n" + c + CRLF + f)
            yield multi(bd, d + CRLF + CRLF + b"x\r\n" + l)
            yield multi(bd, d + CRLF + b"X: y\r\n" + l + CRLF + CRLF + b"x\r\n" + c)
            yield multi(bd, d + CRLF + CRLF + b"x\r\n" + l + CRLF + c)
    for k in list(range(0, 20)) + [100, 255, 256]:
        yield multi(b"b", b"".join(b"--b\r\n\r\npart %d\r\n" % i for i in range(k)) + b"--b--")
        yield multi(b"b", b"".join(b"--b\r\n\r\n" for i in range(k)) + b"--b--")
        yield multi(b"b", b"".join(b"--b\r\nX-N: %d\r\n\r\n\r\n" % i for i in range(k)) + b"--b--")
    for how in (b"b", b'"b"', b'"\\b"', b"b (c)", b'"b" ', b'"b"; x=y', b"B", b'""', b"b b", b"'b'"):
        yield multi(b"b", b"--b\r\n\r\nx\r\n--b--", how)
    for ct in (b"multipart/mixed", b"multipart/mixed; boundary", b"multipart/mixed; boundary=", b"multipart/mixed; x=b", b"multipart/alternative; BOUNDARY=b", b"Multipart/Mixed; boundary*=utf-8''b",
               b"multipart/mixed; boundary*0=b; boundary*1=c", b"multipart/x; boundary=b; boundary=c", b"multipart/mixed; boundary*=utf-8''%C3%A9", b"multipart/digest; boundary=b", b"text/plain; boundary=b"):
        for body in (b"--b\r\n\r\nx\r\n--b--", b"--bc\r\n\r\nx\r\n--bc--", b"--c\r\n\r\nx\r\n--c--", b"--\r\n\r\nx\r\n----", b"--\xc3\xa9\r\n\r\nx\r\n--\xc3\xa9--"):
            yield msg(b"Content-Type: " + ct + CRLF, body=body)
    pieces = [b"--b\r\n", b"--b\r\n", b"--b--", b"--b--\r\n", CRLF, CRLF, b"x", b"--bx\r\n", b"--b", b"X: y\r\n", b"--", b"-", b"\r", b"\n", b"--c\r\n", b"text\r\n", b" --b\r\n"]
    for _ in range(n):
        yield multi(b"b", b"".join(g.c(*pieces) for _ in range(g.n(0, 10))))
    for _ in range(n):
        yield g.multipart_message(g.n(0, 3))
    for e in (b"base64", b"quoted-printable", b"8bit", b"x"):
        inner = b"--b\r\n\r\nx=41\r\n--b--"
        yield msg(b"Content-Type: multipart/mixed; boundary=b\r\n", b"Content-Transfer-Encoding: " + e + CRLF, body=base64.b64encode(inner) if e == b"base64" else inner)
        yield parted(b"Content-Type: multipart/mixed; boundary=c\r\nContent-Transfer-Encoding: " + e + CRLF, base64.b64encode(inner.replace(b"--b", b"--c")) if e == b"base64" else inner.replace(b"--b", b"--c"))


def deep_multipart(k):
    body = b"end"
    for i in range(k):
        body = b"Content-Type: multipart/mixed; boundary=b%d.\r\n\r\n--b%d.\r\n" % (i, i) + (body if i else b"\r\n" + body) + b"\r\n--b%d.--\r\n" % i
    return REQ + body


# ------------------------------------------------------------------------------- C20
def b64w(cs, raw):
    return b"=?" + cs + b"?b?" + base64.b64encode(raw) + b"?="


def pct(raw):
    return b"".join(b"%%%02X" % x for x in raw)


def in_charset(cs, raw, k):
    """the same bytes as a text entity, an encoded word, an extended parameter"""
    if k == 0:
        return msg(b"Content-Type: text/plain; charset=" + cs + CRLF, body=raw)
    if k == 1:
        return msg(b"Subject: " + b64w(cs, raw) + CRLF, b"Comments: =?" + cs + b"?q?" + b"".join(b"=%02x" % x for x in raw) + b"?=\r\n")
    if k == 2:
        return msg(b"Content-Type: a/b; x*=" + cs + b"''" + pct(raw) + b"; y*0*=" + cs + b"''; y*1*=" + pct(raw) + CRLF)
    return parted(b"Content-Type: text/html; charset=\"" + cs + b"\"\r\nContent-Transfer-Encoding: base64\r\n", base64.b64encode(raw))


UTF8 = [b"\x00", b"\x7f", b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc2\x80", b"\xc2\x7f", b"\xc2\xc0", b"\xc2", b"\xdf\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xe0\xa0\x80", b"\xe0\xa0", b"\xe0",
        b"\xe1\x80\x80", b"\xec\xbf\xbf", b"\xed\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xee\x80\x80", b"\xef\xbf\xbd", b"\xef\xbf\xbf", b"\xef\xbb\xbfa", b"\xf0\x8f\xbf\xbf", b"\xf0\x90\x80\x80",
        b"\xf0\x90\x80", b"\xf3\xbf\xbf\xbf", b"\xf4\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xfe", b"\xff", b"a\xc3\xa9b", b"\xc3\xa9\xc3", b"\xa9\xc3\xa9", b"\xe2\x82\xac", b"\xe2\x82\x41"]


def charsets(g, n, step=1):
    for cs in CHARSETS:
        if cs == b"gb2312":
            raws = [b"".join(bytes([hi, lo]) for lo in range(0xa1, 0xff)) for hi in range(0xa1, 0xff)]
            raws += [bytes([hi, lo]) for hi in (0x80, 0xa0, 0xa1, 0xd0, 0xf7, 0xf8, 0xfe, 0xff) for lo in (0, 0x20, 0x21, 0x40, 0x41, 0x7e, 0x7f, 0x80, 0xa0, 0xa1, 0xfe, 0xff)]
            raws += [b"a\xd0", b"\xd0\xc7a\xc7\xd1", b"\xd0\xc7\xd0", b"abc"]
        elif cs == b"iso-6937":
            raws = [bytes([hi]) + bytes([lo]) for hi in range(0xc1, 0xd0) for lo in range(0x40, 0x7c)]
            raws = [b"".join(raws[k:k + 60]) for k in range(0, len(raws), 60)] + [bytes([x]) for x in range(0x80, 0x100)] + \
                   [bytes([0xc1 + x % 15, x]) for x in range(256)]
        elif cs in (b"utf-8", b"us-ascii"):
            raws = UTF8 + [b"x" + u + b"y" for u in UTF8] + [u + v for u in UTF8[::3] for v in UTF8[::4]]
        else:
            raws = [bytes(range(k, k + 32)) for k in range(0, 256, 32)] + [bytes(range(256))] + [bytes([x]) for x in range(0x80, 0x100, 8)]
        for k, raw in enumerate(raws):
            for w in range(4) if step == 1 or len(raws) < 60 else (k % 4, (k + 1) % 4):
                yield in_charset(cs, raw, w)
        for f in (cs.upper(), cs.title(), cs.swapcase(), cs + b" ", cs + b"x", cs[:-1], b"x" + cs, cs.replace(b"-", b"_"), cs.replace(b"-", b"")):
            for w in range(4):
                yield in_charset(f, b"aA\xc3\xa9\xd0\xc7", w)
    for cs in (b"iso-8859-12", b"iso-8859-0", b"iso-8859-17", b"iso-8859-100", b"windows-1252", b"utf-16", b"koi8-r", b"gbk", b"gb18030", b"ascii", b"latin1", b"x"):
        for w in range(4):
            yield in_charset(cs, b"aA\xc3\xa9\xd0\xc7", w)
    for _ in range(n):
        cs = g.c(*CHARSETS)
        raw = bytes(g.n(0x80, 0xff) if g.p(.6) else g.n(0x20, 0x7e) for _ in range(g.n(0, 12)))
        if cs in (b"utf-8", b"us-ascii") and g.p(.6):
            raw = "".join(chr(g.c(g.n(0x80, 0x7ff), g.n(0x800, 0xd7ff), g.n(0xe000, 0xffff), g.n(0x10000, 0x10ffff), 65)) for _ in range(g.n(0, 5))).encode()
            if g.p(.3):
                raw = g.mutate(raw)
        yield in_charset(g.case(cs), raw, g.n(0, 3))


# ------------------------------------------------------------------------------- C22
def borrowed(g, n):
    for _ in range(n):
        yield g.message(valid=.95)
    for _ in range(n // 3):
        yield g.multipart_message(g.n(0, 2))
    V = [b"abc", b"a b  c", b"a\tb", b" a", b"a ", b""]
    for a in V:
        for b in V:
            yield msg(line(b"Subject", a), line(b"X-" + g.token(), b), line(b"Comments", a + b), line(b"To", b' "' + a + b'" <x.y@[' + b.replace(b" ", b"").replace(b"\t", b"") + b"]>"),
                      body=a + CRLF + b)


# ------------------------------------------------------------------------------- C23
def repeated(g, n):
    for k in (0, 1, 2, 3, 5, 16, 17, 100):
        yield msg(*[b"Comments: %d\r\n" % i for i in range(k)])
        yield msg(*[b"Keywords: %d\r\n" % i for i in range(k)])
        yield msg(b"Keywords: " + b", ".join(b"w%d x" % i for i in range(max(k, 1))) + CRLF)
        yield msg(b"Keywords: " + b" ".join(b"w%d" % i for i in range(max(k, 1))) + CRLF)
        yield msg(*[b"Comments: %d\r\n" % i for i in range(k)], *[b"Keywords: %d, y\r\n" % i for i in range(k)])
    pool = [b"Comments: a\r\n", b"Comments:\r\n", b"Comments: b\r\n c\r\n", b"Keywords: k\r\n", b"Keywords: k, k\r\n", b"Keywords: \"l m\", n o\r\n", b"Keywords: (c) p\r\n", b"Keywords:\r\n", b"Keywords: q,\r\n", b"COMMENTS: a\r\n",
            b"keywords: =?utf-8?q?=C3=A9?= z\r\n", b"Subject: s\r\n", b"To: a@b\r\n", b"X: y\r\n"]
    for r in (1, 2, 3):
        for c in itertools.product(pool, repeat=r):
            if r < 3 or g.p(.2):
                yield msg(*c)
    for _ in range(n):
        fs = [g.field(b"Comments", .9), g.field(b"Keywords", .85)] * g.n(0, 3) + [FROM, DATE] + [g.c(*pool) for _ in range(g.n(0, 5))]
        g.r.shuffle(fs)
        yield b"".join(fs)


# ------------------------------------------------------------------------------- C24
AROUND = [b"", b"\x00", b"\xef\xbb\xbf", b"\r\n", b"\n", b" ", b"\t", b"From a@b Mon Jan  1 00:00:00 2000\r\n", b">From: c@d\r\n", b".", b"\r\n.\r\n", b"\r", b"\x1a", b"\xff\xfe",
          b"\x00\x00\x00\x00", b"\r\n\r\n", b"\r\n\x00", b"\x0c", b"--", b"\xe2\x80\xa8", b"\x85", b"\xa0", b"MIME-Version: 1.0\r\n", b"X-Mozilla-Status: 0001\r\n"]


def framed(g):
    """messages with something in front of them or behind them"""
    for m in (REQ, REQ + b"Subject: s", REQ + b"\r\nbody", REQ + b"Subject: s\r\n\r\n", REQ + b"Comments: c d\r\n", mime(b"text/plain; charset=utf-8", b"caf\xc3\xa9\r\n"),
              parted(b"Content-Type: text/plain\r\n", b"x"), RECEIVED + REQ, g.message(), g.multipart_message()):
        for x in AROUND:
            yield x + m
            yield m + x
            yield x + m + x


def variants(g, items):
    """each input, and right behind it inputs of the same length"""
    for m in items:
        yield m
        for _ in range(2):
            if not m:
                continue
            k = g.n(0, len(m) - 1)
            if g.p(.6):
                letters = [i for i in range(len(m)) if chr(m[i]).isalnum()]
                if letters:
                    k = g.c(*letters)
            yield m[:k] + bytes([g.c(m[k] ^ 1, m[k] ^ 32, 97 + m[k] % 26, 48 + m[k] % 10, g.n(0, 255))]) + m[k + 1:]


# ------------------------------------------------------------------------------- C25
D1 = b"1 Jan 2000 00:00:00 +0000"
DATES = [D1, b"1 Jan 2000 00:00 +0000", b"Sat, " + D1, b"Sun, " + D1, b"2 Jan 2000 00:00:00 +0000", b"1 Feb 2000 00:00:00 +0000", b"1 Jan 2001 00:00:00 +0000",
         b"1 Jan 2000 01:00:00 +0000", b"1 Jan 2000 00:01:00 +0000", b"1 Jan 2000 00:00:01 +0000", b"1 Jan 2000 00:00:00 -0000", b"1 Jan 2000 00:00:00 +0100",
         b"1 Jan 2000 01:00:00 +0100", b"1 Jan 2000 00:00:00 +0001", b"31 Dec 1999 23:00:00 -0100", b"1 Jan 2000 00:00:60 +0000", b"1 Jan 12000 00:00:00 +0000"]
PLACES = [
    [b""] + [b"Content-Type:%s\r\n" % x for x in (
        b" text/plain; charset=us-ascii", b"TEXT/Plain;charset=us-ascii", b" text/plain", b" text/html; charset=us-ascii", b" image/plain", b" audio/plain", b" video/plain", b" application/plain",
        b" message/plain", b" x/plain", b" X/plain", b" y/plain", b" xx/plain", b" multipart/plain", b" multipart/plain; boundary=c", b" Multipart/x; boundary=c", b" text/plain; charset=utf-8", b" text/plain; charset=UTF-8",
        b" text/plain; charset=utf-8; a=b", b" text/plain; a=b; charset=utf-8", b" text/plain; charset=utf-8; a=c", b" text/plain; charset=utf-8; A=b", b" text/plain; charset=utf-8; b=b",
        b" text/plain; charset=utf-8; a=B", b" text/plain; charset=utf-8; a=\"b\"", b" text/plain; charset=utf-8; a*=''b", b" text/plain; charset=utf-8; a=b; b=c", b" text/plain; charset=utf-8; b=c; a=b",
        b" text/plain; charset=utf-8; a=\"\"", b" text/plain; charset=iso-8859-1", b" text/plain; charset=iso-8859-2", b" x/plain; a=b", b" x/plain; a=c")],
    [b""] + [b"Content-Transfer-Encoding:%s\r\n" % x for x in (b" 7bit", b" 8bit", b" binary", b" 7BIT", b" quoted-printable", b" base64", b"Base64")],
    [b""] + [b"Content-Description:%s\r\n" % x for x in (b"x y", b"x\r\n y", b"=?utf-8?q?x_y?=", b"=?utf-8?b?eCB5?=", b"x  y", b"X y", b"x", b"", b" x y", b"x y ", b"x z", b"=?utf-8?q?=C3=A9?=", b"=?utf-8?q?e=CC=81?=")],
    [b""] + [b"Content-ID:%s\r\n" % x for x in (b"<a@b>", b" <a@b> (c)", b"<a@c>", b"<c@b>", b"<A@b>", b"<a@B>", b"<a@[b]>", b"<a.b@b>", b"<b@a>")],
    [b""] + [b"Content-Disposition:%s\r\n" % x for x in
             [b" inline", b"INLINE", b" attachment", b" Attachment ", b" x", b" X", b" y", b" inline-x", b" inline; filename=f", b" inline; filename=\"f\"", b" inline; filename=g", b" inline; filename=F",
              b" inline; filename*=''f", b" inline; name=f", b" inline; a=b", b" inline; a=c", b" inline; A=b", b" inline; a=b; c=d", b" inline; c=d; a=b", b" inline; filename=f; a=b", b" inline; a=b; filename=f", b" attachment; a=b",
              b" inline; size=1", b" inline; size=2", b" x; filename=f", b" y; filename=f", b" inline; filename=\"\""] +
             [b" inline; %s=\"%s\"" % (k, d) for k in (b"creation-date", b"modification-date", b"read-date") for d in DATES] +
             [b" inline; creation-date=\"%s\"; modification-date=\"%s\"; read-date=\"%s\"" % t for t in ((D1, D1, D1), (DATES[4], D1, D1), (D1, DATES[4], D1), (D1, D1, DATES[4]))]],
    [b"", b"X:1\r\n", b"x:1\r\n", b"X: 1\r\n", b"X:1 \r\n", b"X:2\r\n", b"Y:1\r\n", b"X:1\r\nX:1\r\n", b"X:1\r\nX:2\r\n", b"X:2\r\nX:1\r\n", b"X:1\r\nY:1\r\n", b"Y:1\r\nX:1\r\n", b"X:\r\n", b"X:1\r\n 2\r\n", b"X:1 2\r\n", b"X:=?utf-8?q?1?=\r\n"],
    [b"v", b"w", b"", b"V", b"v\r\n", b"vw", b"=76", b"dg==", b"\xc3\xa9", b"\xe9", b"e\xcc\x81", b"--c--", b"--c\r\n\r\nx\r\n--c--", b"--c\r\n\r\ny\r\n--c--", b"--c\r\n\r\nx\r\n--c--\r\n", b"pre\r\n--c\r\n\r\nx\r\n--c--",
     b"--c\r\n\r\nx\r\n--c\r\n\r\nx\r\n--c--", b"--c\r\nX:1\r\n\r\nx\r\n--c--", b"--c\r\nContent-Disposition: x\r\n\r\nx\r\n--c--"],
]


def near(g, n):
    """multiparts of parts that hardly differ"""
    def part(c):
        h = [PLACES[k][c[k]] for k in range(6)]
        return b"".join(h) + CRLF + PLACES[6][c[6]]

    def whole(parts, more=()):
        return msg(b"Content-Type: multipart/mixed; boundary=b_\r\n", *more, body=b"".join(b"--b_\r\n" + p + CRLF for p in parts) + b"--b_--")
    # every two choices of a place, in pieces
    for k, menu in enumerate(PLACES):
        base = [0] * 7
        if k == 6:
            base[0] = 15
        for a in range(0, len(menu), 3):
            for b in range(a, len(menu), 3):
                l = []
                for x in sorted(set(range(a, min(a + 3, len(menu)))) | set(range(b, min(b + 3, len(menu))))):
                    c = list(base)
                    c[k] = x
                    l.append(part(c))
                if len(menu) < 30 or a == b or g.n(0, 2) == 0:
                    yield whole(l)
    for _ in range(n):
        c = [g.n(0, len(m) - 1) if g.n(0, 2) == 0 else 0 for m in PLACES]
        l = [part(c)]
        for _ in range(g.n(1, 3)):
            d = list(c)
            for _ in range(g.n(0, 2)):
                k = g.n(0, 6)
                d[k] = g.n(0, len(PLACES[k]) - 1)
            l.append(part(d))
        yield whole(l)
    # the same, of messages
    for k in range(n // 5):
        h = [g.c(*PLACES[j]) for j in (0, 1, 3, 4)]
        yield msg(*[x for x in h if x], body=g.c(*PLACES[6]))
    for _ in range(n // 5):
        yield b"".join(b"Received: by x; %s\r\n" % g.c(*DATES) for _ in range(g.n(1, 4))) + b"From: a@b, c <d@[e]>, \"a b\" c@d\r\n" * 1 + b"Date: %s\r\n\r\n" % g.c(*DATES)
    # errors
    for name in NAMES:
        v = VALID[name]
        yield REQ + line(name, v) + line(name, v) + CRLF
    for m in (b"", b"From: a@b\r\n\r\n", b"Date: " + D1 + b"\r\n\r\n", b"From: a@b\r\n From\r\n", b"\r\n", b"From: a@b, c@d\r\nDate: " + D1 + b"\r\n\r\n"):
        yield m


# ------------------------------------------------------- obsolete and nearly right forms
ADDR = [b"<@a:b@c>", b"<@a,@b:c@d>", b"<,@a,@b:c@d>", b"N <@a.b:c@d>", b"<@a: b@c>", b"<@[1]:b@c>", b"<@a;b@c>", b"<@:b@c>", b"@a:b@c", b"a . b @ c . d", b"a. b@c", b"a .b@c", b"a@b. c", b"a @ b", b"a @b", b"a@ b", b"a(c)@(d)b",
        b"A. B. <c@d>", b"A.B <c@d>", b"A. <c@d>", b". <c@d>", b"A .B <c@d>", b"a.b <c@d>", b"a@b,,c@d", b"a@b, ,c@d", b",a@b", b"a@b,", b"a@b, ", b"a@b,(c)", b"(c),a@b", b",", b",,", b"G: ,a@b;", b"G:,;", b"G:a@b,;", b"G: a@b,,c@d;",
        b"a@b; c@d", b"a@b;", b"a@b c@d", b"<a@b><c@d>", b"<a@b> <c@d>", b"a@b (Name)", b"N<a@b>", b"\"N\"<a@b>", b"a", b"<a>", b"<>", b"N <>", b"postmaster", b"N <a@b", b"N a@b>", b"<a@b>>", b"<<a@b>>", b"'N' <a@b>", b"'N, M' <a@b>",
        b"a@b.", b"a@.b", b".a@b", b"a..b@c", b"a.@b", b"a@b..c", b"a@b.c.", b"\"a\".b@c", b"a.\"b\"@c", b"\"a\"\"b\"@c", b"\"a\" @b", b"\"\"@b", b"\" \"@b", b"a@b@c", b"a@@b", b"mailto:a@b", b"<mailto:a@b>", b"N, M <a@b>", b"N; M <a@b>",
        b"\xc3\xa9 <a@b>", b"\xc3\xa9@b", b"a@\xc3\xa9", b"\xe9@b", b"a@[1.2.3.4]", b"a@[IPv6:::1]", b"a@[]", b"a@[ ]", b"a@[1", b"a@1]", b"a@[1]2", b"a@2[1]", b"a@[[1]]", b"a@ [1]", b"a@[1] ", b"a@", b"@b", b"@", b"N <a@>", b"N <@b>", b"undisclosed-recipients:;", b"G:;;", b"G:", b"G:a@b", b"G;", b":;",
        b"\"G\":;", b"G H:;", b"G: ;", b"G:(c);", b"G:;(c)", b"G: H: a@b;;", b"G: H:;, a@b;", b"G:;,a@b", b"G:; a@b", b"a@b,G:;", b"G:a@b;,", b"G:<a@b>;", b"G:N <a@b>, c@d;", b"G.:;", b"a@b\r\n ,c@d", b"a@b,\r\n c@d", b"a\r\n @b", b"a@\r\n b", b"a\\@b@c", b"N\\ M <a@b>",
        b"=?utf-8?q?x?= <a@b>", b"\"=?utf-8?q?x?=\" <a@b>", b"=?utf-8?q?x?=@b", b"a@=?utf-8?q?x?=", b"=?utf-8?q?x?=:;", b"N <a@b> (c)", b"N <a@b> x", b"N <a@b>, ", b"(N) <a@b>", b"() <a@b>", b" <a@b>", b"N (c) <(d)a@b(e)>(f)", b"a%b@c", b"a!b", b"a!b@c", b"a@b:25",
        b"a@b/c", b"a+b@c", b"a'b@c", b"a@b_c", b"a@-b-", b"1@2", b"#$%&'*+-/=?^_`{|}~@a", b"a@#$%&'*+-/=?^_`{|}~", b"N\t<a@b>", b"N  M <a@b>", b"N\r\n M <a@b>", b"N \r\n\t <a@b>", b"N\r\n  <a@b>", b"\"N\r\n M\" <a@b>", b"\"N \\\" M\" <a@b>", b"\"\" <a@b>", b"\" \" <a@b>", b"\"a\" \"b\" <c@d>", b"a \"b\" c <d@e>", b"a@b)", b"(a@b", b"a@b(", b"(()a@b", b"(a\\)) b@c", b"(\\(a) b@c", b"", b" ", b"\t", b"()", b"(c)", b"\r\n "]
MSGIDS = [b"<a@b>", b"<a@b>,<c@d>", b"<a@b>, <c@d>", b"<a@b> ,<c@d>", b",<a@b>", b"<a@b>,", b"<a@b>;<c@d>", b"<a@b>; <c@d>", b"a@b", b"<a>", b"<a@b", b"a@b>", b"<a@b@c>", b"<a@@b>", b"<\"a\"@b>", b"<\"a b\"@c>", b"<a@\"b\">", b"<a@b> text", b"text <a@b>",
          b"message of 1 Jan 2000 <a@b>", b"\"x\" <a@b>", b"<a@b> \"x\"", b"<a b@c>", b"<a@b c>", b"< a@b>", b"<a@b >", b"< a@b >", b"<(c)a@b>", b"<a@b(c)>", b"<a(c)@b>", b"<a @b>", b"<a@ b>", b"<a\r\n @b>", b"<a@b\r\n >", b"<a..b@c>", b"<.a@b>", b"<a.@b>", b"<a@b.>", b"<a@.b>", b"<a. b@c>", b"<@b>", b"<a@>",
          b"<@>", b"<>", b"<<a@b>>", b"<a@b>>", b"<<a@b>", b"<a@[b]>", b"<a@[]>", b"<a@[b c]>", b"<a@[b\\]]>", b"<a@[[b]>", b"<a@[b]]>", b"<a@[b]c>", b"<a@b[c]>", b"<[a]@b>", b"<a@b><c@d>", b"<a@b>\r\n <c@d>", b"<a@b>(c)<c@d>", b"(c)<a@b>", b"<a@b>(c)", b"<a@b> (c) <c@d> (d)", b"<a@b> x <c@d>", b"<a@b> <c>", b"<c> <a@b>",
          b"<a@b> <a@b>", b"<A@B>", b"<a$b%c@d>", b"<a:b@c>", b"<a@b:c>", b"<a;b@c>", b"<a,b@c>", b"<a@b,c@d>", b"<a\\b@c>", b"<a\xc3\xa9@b>", b"<=?utf-8?q?a?=@b>", b"=?utf-8?q?=3Ca=40b=3E?=", b"<a@b", b"", b" ", b"(c)", b"\r\n <a@b>", b"\t<a@b>\t", b"[a@b]", b"(a@b)", b"none", b"<a@b>.", b"<a@b>:"]
ZONES = [b"GMT", b"UT", b"UTC", b"Z", b"z", b"A", b"a", b"M", b"N", b"Y", b"J", b"EST", b"EDT", b"CST", b"CDT", b"MST", b"MDT", b"PST", b"PDT", b"gmt", b"Est", b"CET", b"XYZ", b"+0000 (GMT)", b"(GMT)", b"+00:00", b"+000", b"+00000", b"0000", b"+ 0000", b"+00 00", b"+0000x", b"-0000", b"+9999", b"+2359", b"+2360", b"+2400",
         b"+0060", b"+0099", b"-1200", b"+1400", b"GMT+0100", b"+GMT", b"", b" ", b"+", b"++0000", b"\xe2\x88\x920100", b"+01:00", b"+1", b"+100"]
DATE_FORMS = [b"1 Jan 2000 10:20 " + z for z in ZONES] + [b"Sat, 1 Jan 2000 10:20:30 " + z for z in ZONES[:12]] + [x + b" +0000" for x in (
    b"1 Jan 00 10:20", b"1 Jan 99 10:20", b"1 Jan 49 10:20", b"1 Jan 50 10:20", b"1 Jan 100 10:20", b"1 Jan 000 10:20", b"1 Jan 999 10:20", b"1 Jan 1899 10:20", b"1 Jan 1900 10:20", b"1 Jan 02000 10:20", b"1-Jan-2000 10:20", b"1-Jan-00 10:20", b"Jan 1 2000 10:20", b"Jan 1, 2000 10:20", b"1 Jan, 2000 10:20",
    b"1. Jan 2000 10:20", b"1st Jan 2000 10:20", b"1 January 2000 10:20", b"1 01 2000 10:20", b"1/1/2000 10:20", b"2000-01-01 10:20", b"2000-01-01T10:20:30", b"1 Jan 2000 24:00", b"1 Jan 2000 23:59:60", b"1 Jan 2000 23:60", b"1 Jan 2000 23:59:61", b"1 Jan 2000 1:20", b"1 Jan 2000 10:2", b"1 Jan 2000 10:20:3", b"1 Jan 2000 010:20",
    b"1 Jan 2000 10:020", b"1 Jan 2000 10.20", b"1 Jan 2000 10:20.30", b"1 Jan 2000 10:20:30.5", b"1 Jan 2000 10:20:30,5", b"1 Jan 2000 10 : 20", b"1 Jan 2000 10: 20 : 30", b"1 Jan 2000 (c)10(d):(e)20(f):(g)30(h)", b"1 Jan 2000 10:20 AM", b"1 Jan 2000 10:20pm", b"1 Jan 2000 1020", b"1 Jan 2000 10", b"1 Jan 2000", b"1 Jan 10:20", b"Jan 2000 10:20",
    b"Sat 1 Jan 2000 10:20", b"Sat , 1 Jan 2000 10:20", b"Sat,1 Jan 2000 10:20", b"Sat, Sat, 1 Jan 2000 10:20", b"Saturday, 1 Jan 2000 10:20", b"S, 1 Jan 2000 10:20", b", 1 Jan 2000 10:20", b"Sun, 1 Jan 2000 10:20", b"1  Jan  2000  10:20", b"1\tJan\t2000\t10:20", b"1\r\n Jan\r\n 2000\r\n 10:20", b"1(c)Jan(d)2000(e)10:20", b"1 (c) Jan (d) 2000 (e) 10:20",
    b"1Jan2000 10:20", b"01 Jan 2000 10:20", b"001 Jan 2000 10:20", b"0 Jan 2000 10:20", b"00 Jan 2000 10:20", b"31 Apr 2000 10:20", b"30 Feb 2000 10:20", b"29 Feb 2001 10:20", b"31 Jan 2000 10:20", b"32 Jan 2000 10:20", b"-1 Jan 2000 10:20", b"+1 Jan 2000 10:20", b"1 Jan -2000 10:20", b"1 Jan +2000 10:20", b"1 Jan 2000 +10:20", b"(c) Sat, 1 Jan 2000 10:20", b"Sat(c), 1 Jan 2000 10:20",
    b"1 jan 2000 10:20", b"1 JAN 2000 10:20", b"1 Sept 2000 10:20", b"1 Okt 2000 10:20", b"\xd9\xa1 Jan 2000 10:20")] + [b"1 Jan 2000 10:20 +0000" + x for x in (b" x", b",", b";", b"(c)", b" (c) (d)", b"\r\n ", b" ", b".", b"+0000", b" 2000", b"\x00")] + [b"now", b"0", b"", b"946684800", b"Sat Jan 1 10:20:30 2000"]
RECEIVEDS = [b"from a.b (c.d [1.2.3.4]) by e.f with ESMTP id 1 for <g@h>", b"from [1.2.3.4] by b", b"from a by b for c@d", b"from a by b id <c@d>", b"from a by b id c@d with x", b"", b" ", b"(c)", b"by", b"by a.", b"by .a", b"by a..b", b"by a@b", b"from a;by b", b"from a,by b", b"from <a@b>", b"from <>", b"from <a>", b"from a<b@c>", b"from \"a b\" by c", b"from \"a\".b", b"from \"a\"@b",
             b"from a@[1]", b"from [1 2]", b"from a.b.c", b"from a.b@c.d", b"from a. b", b"from a .b", b"from a@b@c", b"from a=b", b"from a:b", b"from a/b", b"from (c", b"from c)", b"for <a@b> for <c@d>", b"for N <a@b>", b"for a@b, c@d", b"from =?utf-8?q?a?=", b"from \xc3\xa9", b"from a\r\n by b", b"from a\tby\tb", b"from a (b) (c) by d", b"<a@b><c@d>", b"a@b c@d", b"[a]@b", b"from a with (b) <c@d> \"e\" f.g h@i [j]"]
TYPES = [b"text/plain charset=utf-8", b"text/plain; charset = utf-8", b"text/plain;charset =utf-8", b"text/plain; charset= utf-8", b"text/plain; charset=utf-8;", b"text/plain; charset=utf-8; ", b"text/plain;;charset=utf-8", b"text/plain; ;charset=utf-8", b"text/plain, charset=utf-8", b"text/plain; charset:utf-8", b"text", b"text/", b"/plain", b"text/plain; charset=\"utf-8", b"text/plain; charset=utf-8\"",
         b"text/plain; charset='utf-8'", b"text/plain; charset=utf-8 x", b"text/plain; charset=utf-8 (c)", b"text/plain (c); (d) charset (e) = (f) utf-8 (g)", b"text/plain; =x", b"text/plain; a", b"text/plain; a=", b"text/plain; a=b c=d", b"text/plain; a==b", b"text/plain; a=b=c", b"text/plain; a=b/c", b"text/plain; a=b@c", b"text/plain; a=\"b\"c", b"text/plain; a=\"b\" \"c\"", b"text/plain; a=b\\c", b"text/plain; a=(c)b",
         b"text / plain", b"text /plain", b"text/ plain", b"\"text\"/plain", b"text/\"plain\"", b"text/pl/ain", b"text//plain", b"text/*", b"*/*", b"text/plain.x", b"text/plain+xml", b"text/x-y_z", b"te.xt/plain", b"te!#$&'*+-^_`{|}~xt/pl!#$%&'*+-^_`{|}~ain", b"te%xt/plain", b"text/pla\xc3\xa9n", b"text/html;level=1;q=0.5", b"application/octet-stream; name=\"a b.txt\"", b"application/octet-stream; name=a b.txt", b"application/octet-stream; name*=utf-8''a%20b",
         b"=?utf-8?q?text?=/plain", b"text/plain; a=\"=?utf-8?q?x?=\"", b"text/plain; a==?utf-8?q?x?=", b"", b" ", b"(c)", b";", b"text;plain", b"text=plain", b"plain", b"text/plain;\r\n a=b", b"text/plain\r\n ;a=b", b"text/\r\n plain", b"text\r\n /plain", b"text/plain; a\r\n =b", b"text/plain; a=\r\n b", b"text/plain; a=\"b\r\n c\"", b"text/plain; 1=2", b"text/plain; a.b=c", b"text/plain; a-b=c", b"text/plain; a*b=c", b"text/plain; a%b=c", b"text/plain; a'b=c", b"text/plain; a=b'c", b"text/plain; a=b%20c", b"text/plain; a=b*c", b"text/plain; a=[b]", b"text/plain; a=<b>", b"text/plain; a=b?c", b"text/plain; a=b:c", b"text/plain; a=b,c", b"text/plain; a=b;;", b"text/plain; a=\xc3\xa9", b"text/plain; \xc3\xa9=a", b"text/plain; a=\"\xc3\xa9\"", b"text/plain; a=b.c.d", b"text/plain; a=b.", b"text/plain; a=.b", b"text/plain; a={b}", b"text/plain; A=b; a=c"]
ENCODINGS = [b"base-64", b"b64", b"BASE64", b" base64 ", b"base64;", b"base64; x=y", b"base64, x", b"base64 x", b"\"base64\"", b"(c)base64(d)", b"b", b"q", b"quoted_printable", b"quotedprintable", b"Quoted-Printable", b"quoted-printable.", b"8-bit", b"7-bit", b"8 bit", b"8BIT", b"7Bit", b"Binary", b"utf-8", b"none", b"identity", b"uuencode", b"x-uuencode", b"x-token", b"X-Token", b"", b" ", b"(c)", b"=?utf-8?q?base64?=", b"base64=", b"base64/7bit", b"7bit8bit", b"base\r\n 64", b"\r\n base64", b"base64\r\n "]
VERSIONS = [b"1.0", b" 1.0 ", b"1.0(x)", b"(x)1.0", b"1(x).0", b"1.(x)0", b"01.00", b"1,0", b"1.0.0", b"+1.0", b"-1.0", b"1. 0", b"1 .0", b"1.\r\n 0", b"255.255", b"256.0", b"0.256", b"999.0", b"0.0", b"1", b"1.", b".0", b".", b"", b"1.0x", b"x1.0", b"1.0 x", b"v1.0", b"one", b"\"1.0\"", b"1.0;", b"1.0, 1.1", b"001.000", b"1.0000000000000000000", b"00000000000000000001.0", b"\xd9\xa1.0", b"1.-0", b"1.1", b"2.0", b"10.10"]
DISPOSITIONS = [b"attachment filename=x", b"attachment; filename=x y", b"attachment; filename='x y'", b"attachment; filename=\"x", b"attachment; filename=x\"", b"; filename=x", b"filename=x", b"attachment;", b"attachment; ", b"attachment;;filename=x", b"attachment; filename", b"attachment; filename=", b"attachment; filename=\"\"", b"attachment, filename=x", b"\"attachment\"; filename=x", b"attach ment", b"inline/attachment", b"inline attachment",
                b"form-data; name=x; filename=y", b"attachment; filename=x; filename*=utf-8''y", b"attachment; filename*=utf-8''y; filename=x", b"attachment; filename*0=x; filename*1=y", b"attachment; filename*0*=utf-8''x; filename*1=y", b"attachment; filename*1=y", b"attachment; filename*=x", b"attachment; filename*=utf-8'x", b"attachment; filename*=''x", b"attachment; filename*=none''x", b"attachment; filename=../x", b"attachment; filename=\"../x\"", b"attachment; filename=\"a/b\\\\c\"", b"attachment; filename=\"C:\\\\x\"", b"attachment; filename=\"x.txt\\x00\"", b"attachment; filename=\"=?utf-8?q?x?=\"", b"attachment; filename==?utf-8?q?x?=", b"attachment; FileName=x", b"attachment; filename =x", b"attachment; filename= x", b"attachment; file-name=x", b"attachment; filename=x; size=12", b"attachment; size=x", b"attachment; size=\"12\"",
                b"inline; read-date=x", b"inline; read-date=\"x\"", b"inline; read-date=\"1 Jan 2000 10:20 +0000\"", b"inline; Read-Date=\" 1 Jan 2000 10:20 +0000 \"", b"inline; read-date=\"1 Jan 2000 10:20 +0000 (c)\"", b"inline; read-date=\"1 Jan 2000 10:20 +0000x\"", b"inline; read-date=\"1 Jan 2000 10:20 GMT\"", b"inline; read-date=\"\"", b"inline; read-date=", b"inline; readdate=\"1 Jan 2000 10:20 +0000\"", b"inline; read-date*=''1%20Jan%202000%2010:20%20%2B0000", b"inline; read-date*0=\"1 Jan 2000 \"; read-date*1=\"10:20 +0000\"", b"inline; read-date=\"1 Jan 2000 10:20 +0000\"; read-date=\"2 Jan 2000 10:20 +0000\"", b"inline; creation-date=\"1 Jan 2000\\r\\n 10:20 +0000\"", b"inline; modification-date=\"Sat, 1 Jan 2000 10:20:30 +0000\"; a=b", b"inline; creation-date=\"1\\ Jan 2000 10:20 +0000\"", b"", b" ", b"(c)", b";", b"inline(c);(d)a(e)=(f)b(g)", b"inline;a=b;", b"inline; a", b"INLINE; A=B", b"x-y; a=b"]
WORDS = [b"=?utf-8?q?a b?=", b"=?utf-8?x?a?=", b"=?utf-8?q?a", b"=?utf-8?q?a?", b"=?utf-8?q?a=", b"=?utf-8??a?=", b"=?utf-8?q??=", b"=?utf-8?b??=", b"=??q?a?=", b"=?utf-8*en?q?a?=", b"=?utf-8*?q?a?=", b"=?*en?q?a?=", b"=?utf-8?Q?a?b?=", b"=?utf-8?B?YQ==?=", b"=?utf-8?b?YQ?=", b"=?utf-8?b?YQ=?=", b"=?utf-8?b?Y?=", b"=?utf-8?b?YWI=?=", b"=?utf-8?b?Y Q==?=", b"=?utf-8?b?YQ==YQ==?=", b"a=?utf-8?q?b?=", b"=?utf-8?q?b?=a", b"=?utf-8?q?a?==?utf-8?q?b?=", b"=?utf-8?q?a?= =?utf-8?q?b?=", b"=?utf-8?q?a?=  =?utf-8?q?b?=", b"=?utf-8?q?a?=\r\n =?utf-8?q?b?=", b"=?utf-8?q?a?=\t=?utf-8?q?b?=", b"=?utf-8?q?a?= x =?utf-8?q?b?=", b"x =?utf-8?q?a?= y",
         b"=?utf-8?q?=?=", b"=?utf-8?q?=4?=", b"=?utf-8?q?=41?=", b"=?utf-8?q?=4g?=", b"=?utf-8?q?=c3=a9?=", b"=?utf-8?q?=C3=A9?=", b"=?utf-8?q?=C3?= =?utf-8?q?=A9?=", b"=?utf-8?q?=C3?=", b"=?utf-8?q?_?=", b"=?utf-8?q?=5F?=", b"=?utf-8?q?=20?=", b"=?utf-8?q?=0D=0A?=", b"=?utf-8?q?=00?=", b"=?utf-8?q?\xc3\xa9?=", b"=?UTF-8?Q?a?=", b"=?utf8?q?a?=", b"=?utf-8 ?q?a?=", b"= ?utf-8?q?a?=", b"=?utf-8?q?a? =", b"=?latin1?q?=E9?=", b"=?iso-8859-1?q?=E9?=", b"=?ISO_8859-1?q?=E9?=", b"=?iso8859-1?q?=E9?=", b"=?iso-8859-01?q?=E9?=", b"=?windows-1252?q?=E9?=", b"=?cp1252?q?=80?=", b"=?ascii?q?a?=", b"=?us-ascii?q?=E9?=", b"=?us-ascii?q?=C3=A9?=", b"=?gb2312?b?xOO6ww==?=", b"=?gbk?b?xOO6ww==?=", b"=?big5?b?p0E=?=", b"=?koi8-r?q?=C1?=", b"=?none?q?a?=", b"=?=?utf-8?q?a?=?=", b"=?utf-8?q?=?utf-8?q?a?=?=", b"=?utf-8?q?a?=?=", b"=?utf-8?q?" + b"a" * 62 + b"?=", b"=?utf-8?q?" + b"a" * 63 + b"?=", b"=?utf-8?q?" + b"a" * 64 + b"?=", b"=?utf-8?q?" + b"a" * 300 + b"?=", b"=?utf-8?b?" + b"YWFh" * 16 + b"?=", b"=?utf-8?b?" + b"YWFh" * 15 + b"YWE=?=", b"=?utf-8?b?" + b"YWFh" * 100 + b"?=", b"(=?utf-8?q?a?=)", b"\"=?utf-8?q?a?=\"", b"=?utf-8?q?(a)?=", b"=?utf-8?q?a,b?=", b"=?utf-8?q?a@b?=", b"=?utf-8?q?<a>?=", b"=?utf-8?q?a.b?=", b"=?utf-8?q?\"a\"?="]


def lenient(*kinds):
    """messages with one field each"""
    menu = {"address": ([b"To", b"From", b"Sender", b"Bcc", b"Cc", b"Reply-To"], ADDR), "id": (IDS, MSGIDS), "date": ([b"Date"], DATE_FORMS), "type": ([b"Content-Type"], TYPES),
            "encoding": ([b"Content-Transfer-Encoding"], ENCODINGS), "version": ([b"MIME-Version"], VERSIONS), "disposition": ([b"Content-Disposition"], DISPOSITIONS),
            "word": ([b"Subject", b"Keywords"], WORDS)}
    for kind in kinds:
        if kind == "received":
            for v in RECEIVEDS:
                yield b"Received: " + v + b"; 1 Jan 2000 00:00 +0000\r\n" + REQ
            for d in DATE_FORMS[::3]:
                yield b"Received: by x; " + d + CRLF + REQ
            for v in (b"by x", b"by x;", b"; 1 Jan 2000 00:00 +0000; 1 Jan 2000 00:00 +0000", b"by x; y; 1 Jan 2000 00:00 +0000"):
                yield b"Received: " + v + CRLF + REQ
            for v in ADDR:
                yield b"Return-Path: " + v + CRLF + RECEIVED + REQ
            for k, v in enumerate(ADDR):
                yield RECEIVED + line([b"Resent-To", b"Resent-From", b"Resent-Sender", b"Resent-Cc", b"Resent-Bcc"][k % 5], b" " + v) + REQ
            for v in MSGIDS:
                yield RECEIVED + line(b"Resent-Message-ID", b" " + v) + REQ
            for v in DATE_FORMS[1::3]:
                yield RECEIVED + line(b"Resent-Date", b" " + v) + REQ
            continue
        heads, values = menu[kind]
        for n, v in enumerate(values):
            for nm in (heads if len(heads) < 4 else heads[:3] + [heads[3 + n % (len(heads) - 3)]]):
                body = b"QUJD" if kind in ("encoding", "type", "disposition") else None
                m = msg_without(nm, line(nm, b" " + v) + (CRLF + body if body else b""))
                yield m
                if kind in ("type", "encoding", "disposition", "id") and nm.startswith(b"Content"):
                    yield parted(line(nm, b" " + v), b"QUJD")
            if kind == "word":
                yield msg(line(b"To", b" " + v + b" <a@b>"), line(b"Content-Description", b" " + v), line(b"X", b" " + v), line(b"Cc", b" N " + v + b": a@b;"))


def contexts(g, n, *of):
    """messages with many different neighbours of the fields of these names"""
    of = of or (b"From", b"Date", b"Subject", b"X-Y", b"Comments", b"Keywords")
    for _ in range(n):
        fs = context(g, of)
        mine = [g.field(x, .95, g.p(.3)) if x in NAMES else line(x, b" y") for x in of for _ in range(g.c(1, 1, 1, 0, 2))]
        for x in [FROM] * (b"From" not in of) + [DATE] * (b"Date" not in of) + mine:
            fs.insert(g.n(0, len(fs)), x)
        yield b"".join(fs) + g.c(b"", b"", CRLF, b"\r\nbody", b"\r\n\r\nFrom: x@y\r\n")
