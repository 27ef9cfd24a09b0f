"""Counts and lengths: every structure that repeats or has a length, swept over many sizes, with elements
that all differ, and an odd one at each place.  Each function yields messages for one property."""
import base64
from gen import *
from corpus import msg, mime, parted, RECEIVED, multi, ew, plain, pct, quoted_boundary

SMALL = list(range(0, 21))
STEPS = [31, 32, 33, 63, 64, 65, 99, 100, 101, 102, 127, 128, 129, 200, 255, 256, 257, 300]
LONG = [511, 512, 513, 998, 999, 1000, 1001, 1023, 1024, 1025]
HUGE = [2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70001]
MANY = [512, 1000, 1001, 1024, 1025]
D = b" 1 Jan 2000 00:00 +0000\r\n"


def counts(deep, extra=(), small=SMALL):
    return sorted(set(list(small) + STEPS + MANY + (LONG + list(range(21, 70)) + [2047, 2048, 2049, 4095, 4096, 4097] if deep else []) + [x for x in extra if x <= (4100 if deep else 1100)]))


def lengths(deep, extra=(), small=SMALL):
    return sorted(set(list(small) + STEPS + LONG + HUGE + (list(range(21, 140)) if deep else []) + [x for x in extra if x <= 70001]))


def text(k, a=b"abcdefghijklmnopqrstuvwxyz0123456789"):
    """k letters; no two nearby places look alike"""
    return bytes(a[(i * 7 + i // 36) % len(a)] for i in range(k))


def odd(k, x, plainly=lambda i: b"w%d" % i):
    """one odd element x at each of a few places among k"""
    for at in sorted({0, 1, k // 2, k - 2, k - 1}):
        if 0 <= at < k:
            yield [x if i == at else plainly(i) for i in range(k)]


def C02(deep, ex=()):
    for k in lengths(deep, ex):
        yield REQ + CRLF + text(k)
        yield REQ + b"X: " + text(k) + b"\r\n\r\n" + text(k % 50) + CRLF
        if k < 1100:
            yield REQ + CRLF + b"\r\n".join(text(i % 7) for i in range(k))
            yield REQ + CRLF + CRLF * k
            yield REQ + b"".join(b"X-%d: %d\r\n" % (i, i) for i in range(min(k, 300))) + b"\r\nbody\r\n\r\n"


def C03(deep, ex=()):
    for k in counts(deep, ex):
        yield msg(*[b"X-%d: v%d\r\n" % (i, i) for i in range(k)])
        yield msg(*[b"X: v%d\r\n" % i for i in range(k)])
        yield msg(*[b"Comments: v%d\r\n" % i if i % 2 else b"X: %d\r\n" % i for i in range(k)], body=b"")
        yield b"".join(b"X-%d: v%d\r\n" % (i, i) for i in range(k)) + FROM + b"".join(b"Y-%d: v\r\n" % i for i in range(k % 9)) + DATE + b"Subject: s\r\n"
        yield b"".join(RECEIVED for i in range(k % 130)) + REQ + b"X: y\r\n"
        yield msg(*[b"Keywords: k%d\r\n" % i for i in range(k)], b"To: x@y\r\n")
    for k in lengths(deep, ex):
        yield msg(b"X-" + text(k) + b": v\r\n", b"Y: " + text(k) + CRLF)
        if k:
            yield msg(b"Y:" + b" " * k + CRLF, text(k) + b":" + CRLF)


def C04(deep, ex=()):
    for k in lengths(deep, ex):
        if k:
            yield msg(text(k) + b": v\r\n", b"To" + text(k) + b": a@b\r\n", b"Subject" + b"t" * k + b": x\r\n")
    for n in NAMES + TRACE_NAMES:
        for k in range(1, len(n) + 1):
            yield msg(n[:k] + b": x\r\n") if k < len(n) else msg(n + n + b": x\r\n")
            yield msg(n[:k - 1] + n[k:] + b": x\r\n", n[:k] + n[k - 1:] + b": x\r\n", n[:k] + b"-" + n[k:] + b": x\r\n")
            yield msg(n[:k - 1] + bytes([n[k - 1] ^ 1]) + n[k:] + b": x\r\n", n[:k - 1] + bytes([n[k - 1] ^ 64]) + n[k:] + b": x\r\n")


UNIQUE = [b"From: c@d\r\n", b"Date:" + D, b"Sender: a@b\r\n", b"Reply-To: a@b\r\n", b"To: a@b\r\n", b"Cc: a@b\r\n", b"Bcc: a@b\r\n", b"Message-ID: <a@b>\r\n",
          b"In-Reply-To: <a@b>\r\n", b"References: <a@b>\r\n", b"Subject: s\r\n", b"MIME-Version: 1.0\r\n", b"Content-Type: text/plain\r\n",
          b"Content-Transfer-Encoding: 7bit\r\n", b"Content-ID: <a@b>\r\n", b"Content-Description: d\r\n", b"Content-Disposition: inline\r\n"]


def C05(deep, ex=()):
    for k in counts(deep, ex, range(0, 6)):
        for j, u in enumerate(UNIQUE):
            if deep or (k + j) % 3 == 0 or k < 3:
                between = b"".join(b"X-%d: v\r\n" % i if (i + j) % 2 else b"Comments: c\r\n" for i in range(k))
                yield (REQ if j > 1 else (DATE if j == 0 else FROM)) + u + between + u
    # three and more of them, in every arrangement of a good one and a bad one
    for j, u in enumerate(UNIQUE):
        bad = u.split(b":")[0] + b": \x01\r\n"
        req = REQ if j > 1 else (DATE if j == 0 else FROM)
        for a in (u + u + u, u + bad, bad + u, bad + u + bad, u + bad + u, bad + bad, bad + u + u, u * 5, b"X: y\r\n" + u + b"X: y\r\n" + u, u + b"\r\n" + u):
            yield req + a
    for j, u in enumerate(UNIQUE):
        for i, v in enumerate(UNIQUE):
            if i != j:
                req = b"" if {0, 1} == {i, j} else (REQ if min(i, j) > 1 else (DATE if 0 in (i, j) else FROM))
                yield req + u + v
                yield v + req + u + v


def C06(deep, ex=()):
    for k in counts(deep, ex):
        if k:
            boxes = b"From: " + b", ".join(b"P%d <a%d@b%d>" % (i, i, i) for i in range(k)) + CRLF
            yield boxes + DATE
            yield boxes + DATE + b"Sender: s@t\r\n"
            yield b"Sender: S T <s@t>\r\n" + DATE + boxes
            yield b"From: " + b" ".join(b"w%d" % i for i in range(k)) + b" <a@b>\r\n" + DATE
            yield DATE + b"From: <a@b>\r\n" + b"".join(b"X: %d\r\n" % i for i in range(k)) + b"Sender: " + b" ".join(b"w%d" % i for i in range(k)) + b" <a@b>\r\n"
    for k in lengths(deep, ex):
        if k:
            yield b"From: " + text(k) + b"@" + text(k) + b".x\r\n" + DATE
            yield b"From: " + text(k) + b" \"" + text(k // 2) + b"\" <a@b>\r\n" + DATE


def C07(deep, ex=()):
    N = [b"Subject", b"Comments", b"Content-Description", b"X-Any"]
    for k in lengths(deep, ex):
        t = text(k)
        yield msg(line(N[k % 4], t), line(b"X", b" " + t + b" "), line(b"Y", t + b"\r\n " + t + b"  "))
        yield msg(line(N[k % 4], b" a" + b" " * k + b"b" + b"\t" * k), line(b"X", b" a\r\n" + b" " * (k + 1) + b"b"), line(b"Y", b"a" + b" " * k + b"\r\n b"))
    for k in counts(deep, ex):
        for f in (b"\r\n ", b" \r\n\t"):
            yield msg(line(N[k % 4], f.join(b"w%d" % i for i in range(k))), line(b"X", b"a" + f * k + b"b"), b"Z: z\r\n")
        yield msg(line(N[k % 4], b" ".join(b"w%d" % i for i in range(k))), b"Z: z\r\n")
    t = text(60 if not deep else 150)
    for k in range(len(t)):          # a fold at each place
        for n, f in enumerate((b"\r\n ", b" \r\n \t", b"  ", b"\r\n", b"\r\n\r\n ")):
            if deep or (n + k) % 2 == 0:
                yield msg(line(N[(k + n) % 4], t[:k] + f + t[k:]), b"Z: z\r\n")


def C08(deep, ex=()):
    for k in counts(deep, ex):
        for c in (b"(" * k + b"x" + b")" * k, b"(c)" * k, b" (c%d)" % k * k, b"\r\n " * (k > 0) + b" " * k + b"(c)", b"(" + b"\r\n ".join(b"w%d" % i for i in range(k)) + b")",
                  b"(" + b"\\)" * k + b")", b"(" + b"(a)" * k + b")", b"(" + b" " * k + b")"):
            n = (k + len(c)) % 5
            yield msg([b"To: " + c + b"a" + c + b"@" + c + b"b" + c + b", d@e", b"Keywords: " + c + b"a" + c + b"," + c + b"b", b"Message-ID: " + c + b"<a@b>" + c,
                       b"Content-Type: text/plain " + c + b";" + c + b" x=y" + c, b"Date: 1 Jan 2000 00:00 +0000 " + c + CRLF + b"MIME-Version: " + c + b"1" + c + b"." + c + b"0" + c][n] + CRLF) \
                if n < 4 else FROM + b"Date: 1 Jan 2000 00:00 +0000 " + c + CRLF + b"MIME-Version: " + c + b"1" + c + b"." + c + b"0" + c + CRLF
    for k in lengths(deep, ex):
        yield msg(b"Cc: (" + text(k) + b") a@b (" + text(k) + b"\\" + b")" + b")\r\n", b"Keywords: a (" + text(k) + b")b\r\n")
    # an unbalanced comment of each size
    for k in counts(deep, ex):
        yield msg(b"To: a@b " + b"(" * k + b")" * (k - 1 if k else 0) + CRLF, b"Cc: a@b " + b"(" * k + b")" * (k + 1) + CRLF)


    # depth counters of 16 bits
    for k in (2047, 2048, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537) if deep else (2048, 4097, 32768, 65535, 65537):
        yield msg(b"To: " + b"(" * k + b")" * k + b"a@b\r\n")
    for k in (2048, 4097):
        yield msg(b"To: a@b" + b"(" * k + b"x" + b")" * (k - 1) + CRLF, b"Cc: " + b"(c)" * k + b"a@b\r\n", b"Keywords: a" + b" (c)\r\n" * k + b" b\r\n")


LISTS = [b"To", b"Cc", b"Bcc", b"Reply-To"]


def C09(deep, ex=()):
    for k in counts(deep, ex):
        nm = LISTS[k % 4]
        yield msg(line(nm, b" " + b",".join(b"a%d@b%d" % (i, i) for i in range(k))))
        yield msg(line(nm, b" " + b", ".join(b"N%d M <a%d@b>" % (i, i) for i in range(k))))
        yield msg(line(nm, b" " + b",\r\n ".join(b"G%d: a%d@b;" % (i, i) for i in range(k))))
        yield msg(line(nm, b" G: " + b",".join(b"a%d@b" % i for i in range(k)) + b"; , x@y"))
        yield msg(line(nm, b" " + b" ".join(b"w%d" % i for i in range(k)) + b" <a@b>"))
        yield msg(line(nm, b" " + b" ".join(b"\"w%d\"" % i for i in range(k)) + b": x@y;"))
        yield msg(line(nm, b" " + b",".join((b"a%d@b" % i, b"N <c%d@d>" % i, b"G:;", b"G: a%d@b, N <x@y>;" % i)[i * 5 % 7 % 4] for i in range(k))))
        if k:
            yield b"From: " + b",".join(b"a%d@b%d" % (i, i) for i in range(k)) + CRLF + DATE + b"Sender: s@t\r\n"
            yield RECEIVED + b"Resent-To: " + b",".join(b"a%d@b" % i for i in range(k)) + CRLF + b"Resent-From: " + b",".join(b"N <a%d@b>" % i for i in range(k)) + CRLF + REQ
    for k in counts(deep, ex, (1, 2, 3, 4, 5, 8)):
        for x in (b"", b"a", b"a@", b"@b", b"a@b c@d", b"<a@b", b"G:a@b", b"G:;", b"\"q\"@[l]", b"N <a@b>", b"(c)", b"a@b;"):
            for l in list(odd(k, x, lambda i: b"a%d@b" % i))[:5 if k < 9 or deep else 2]:
                yield msg(line(LISTS[k % 4], b" " + b",".join(l)))
    for k in lengths(deep, ex):
        if k:
            yield msg(line(LISTS[k % 4], b" " + text(k) + b"@" + text(k) + b", " + text(k) + b" <x@y>, " + text(k) + b":;"))


def C10(deep, ex=()):
    for k in lengths(deep, ex):
        t = text(k)
        yield msg(b"To: \"" + t + b"\"@b, \"" + t + b"\" <c@[" + t + b"]>\r\n", b"Keywords: \"" + b" " * k + b"\", \"" + t + b"\\\"\"\r\n")
        yield msg(b"To: \"" + t + b"\\\\" + t + b"\"@b\r\n", b"Cc: a@[" + t + b" " + t + b"]\r\n")
        if k:
            yield msg(b"To: " + t + b"." + t + b"@" + t + b"." + t + CRLF, b"Keywords: " + t + b" " + t + CRLF)
    for k in counts(deep, ex):
        yield msg(b"To: \"" + b"\\\"" * k + b"\"@b, a@[" + b" ".join(b"%d" % i for i in range(k)) + b"]\r\n", b"Keywords: \"" + b"\r\n ".join(b"w%d" % i for i in range(k)) + b"\"\r\n")
        yield msg(b"To: " + b".".join(b"w%d" % i for i in range(k)) + b"@" + b".".join(b"d%d" % i for i in range(k)) + CRLF)
        yield msg(b"Keywords: " + b" ".join(b"\"%d \\%d\"" % (i, i % 10) for i in range(k)) + CRLF)
    t = text(24 if not deep else 70)
    for k in range(len(t) + 1):      # one thing at each place
        for n, x in enumerate((b"\\\"", b"\\\\", b"\\a", b" ", b"\r\n ", b" \r\n\t", b"\"", b"\\", b"\x01", b"\xe9", b"(c)", b"\\ ", b".", b"..", b"[", b"]", b"@", b"~", b"!")):
            if deep or (k + n) % 3 == 0:
                yield msg(b"To: \"" + t[:k] + x + t[k:] + b"\" <a@b>\r\n", b"Cc: " + t[:k] + x + t[k:] + b"@b\r\n", b"Bcc: a@[" + t[:k] + x + t[k:] + b"]\r\n",
                          b"Reply-To: a@" + t[:k] + x + t[k:] + CRLF, b"Keywords: \"" + t[:k] + x + t[k:] + b"\"\r\n")


IDNAMES = [b"In-Reply-To", b"References"]


def C11(deep, ex=()):
    for k in counts(deep, ex):
        for sep in (b" ", b"", b"\r\n ", b"(c)"):
            yield msg(line(IDNAMES[(k + len(sep)) % 2], sep + sep.join(b"<a%d@b%d>" % (i, i) for i in range(k))))
        yield msg(line(IDNAMES[k % 2], b" ".join(b"<a%d@%s>" % (i, b"[%d]" % i if i % 3 else b"x.y") for i in range(k))), line(b"Message-ID", b" <" + b".".join(b"a%d" % i for i in range(k)) + b"@b>"))
        yield msg(line(b"Message-ID", b" ".join(b"<a%d@b>" % i for i in range(k))), line(b"Content-ID", b" <a@" + b".".join(b"b%d" % i for i in range(k)) + b">"))
    for k in lengths(deep, ex):
        t = text(k)
        yield msg(line(b"Message-ID", b" <" + t + b"@" + t + b">"), line(b"References", b" <" + t + b"@[" + t + b"]> <a@b>"))
        yield RECEIVED + line(b"Resent-Message-ID", b" <a@" + t + b">") + REQ
    for k in counts(deep, ex, (1, 2, 3, 4, 5)):
        for x in (b"<>", b"<a>", b"a@b", b"<a@b", b"a@b>", b"<@b>", b"<a@>", b"<a@b@c>", b"<a b@c>", b"<a@[b>", b"<a@[]>", b",", b"<\"a\"@b>", b"<a@(c)b>", b"word", b"<a@b>,"):
            for l in list(odd(k, x, lambda i: b"<a%d@b>" % i))[:5 if k < 6 or deep else 1]:
                yield msg(line(IDNAMES[k % 2], b" ".join(l)))


def C12(deep, ex=()):
    for k in counts(deep, ex):
        w = b" " * (k + 1)
        yield FROM + b"Date:" + b" " * k + b"Mon," + w + b"1" + w + b"Jan" + w + b"2000" + w + b"10:20:30" + w + b"+0100" + w + CRLF
        yield FROM + b"Date: 1 Jan " + b"0" * k + b"2000 10:20 +0100\r\n"
        yield FROM + b"Date: 1 Jan 2000 10:20 +0100" + b" (c)" * k + CRLF
        yield FROM + b"Date: 1 Jan 2" + b"0" * k + b" 10:20 +0100\r\n"
    for y in list(range(1890, 2110)) + [x for x in ex if x < 100000]:
        yield FROM + b"Date: Tue, 5 Feb %d 01:02:03 -0405\r\n" % y
    for z in range(0, 10000, 1 if deep else 37):
        yield FROM + b"Date: 5 Feb 2001 01:02:03 %c%04d\r\n" % (b"+-"[z % 2], z)
    for m, mon in enumerate(MONTHS):
        for d in range(0, 34):
            yield FROM + b"Date: %s, %d %s %d %02d:%02d:%02d +%02d%02d\r\n" % (DAYS[(d + m) % 7], d, mon, 1990 + d, d % 24, (d * 7) % 60, (d * 11) % 61, d % 100, (d * 3) % 60)


    # the length of the months
    for y in sorted({1600, 1700, 1800, 1999, 2001, 2200, 2300, 2400, 2800, 4000, 9999} | set(range(1900, 2110, 4))):
        for d in (28, 29, 30, 31) if deep or y % 100 == 0 else (29,):
            yield FROM + b"Date: %d Feb %d 23:59:59 +0000\r\n" % (d, y)
    for mon in MONTHS:
        for d in (0, 1, 9, 10, 28, 29, 30, 31, 32):
            for f in (b"%d", b"0%d", b"%02d", b" %d "):
                if deep or f == b"%d":
                    yield FROM + b"Date: " + f % d + b" " + mon + b" 1999 23:59:60 -0000\r\n"
    for h in range(0, 27):
        for mi in (0, 1, 29, 30, 58, 59, 60, 61):
            for sec in (b"", b":00", b":01", b":58", b":59", b":60", b":61", b":62") if deep or h in (0, 23, 24) else (b"", b":60"):
                yield FROM + b"Date: Thu, 31 Dec 1998 %02d:%02d%s +0000\r\n" % (h, mi, sec)


def C13(deep, ex=()):
    for k in counts(deep, ex):
        n = min(k, 200)
        yield b"".join(b"Received: from a%d.b by c%d;" % (i, i) + D for i in range(n)) + REQ
        yield b"".join(b"Return-Path: <p%d@q>\r\nReceived: w%d;" % (i, i) + D for i in range(n)) + REQ
        yield b"".join(b"Received: w%d;" % i + D + b"Resent-To: r%d@s\r\n" % i for i in range(n)) + REQ
        yield b"Return-Path: <>\r\nReceived: x;" + D + b"".join((b"Resent-To: r%d@s\r\n" % i, b"Resent-Date:" + D, b"Resent-From: f%d@g\r\n" % i, b"Resent-Message-ID: <i%d@j>\r\n" % i,
                                                              b"Resent-Cc: c%d@d\r\n" % i, b"Resent-Bcc: e%d@f\r\n" % i, b"Resent-Sender: s%d@t\r\n" % i)[i * 3 % 7] for i in range(n)) + REQ
        yield b"Received: " + b" ".join(b"w%d" % i for i in range(k)) + b";" + D + REQ
        yield b"Received: " + b" ".join((b"w%d" % i, b"a%d.b.c" % i, b"<x%d@y>" % i, b"u%d@v" % i)[i * 3 % 5 % 4] for i in range(k)) + b";" + D + REQ
        yield b"Received: " + b" ".join(b"\"q%d\"" % i for i in range(n)) + b";" + D + b"Resent-Cc: " + b",".join(b"x%d@y" % i for i in range(n + 1)) + CRLF + REQ
        yield b"Received:" + b" " * k + b"w" + b" " * k + b";" + D + REQ
    for k in lengths(deep, ex):
        t = text(k)
        yield b"Return-Path: <" + t + b"@" + t + b">\r\nReceived: " + t + b" " + t + b"." + t + b";" + D + REQ


def C14(deep, ex=()):
    from corpus import encoded
    for k in lengths(deep, ex, range(0, 40)):
        raw = bytes((i * 37 + i // 251) % 256 for i in range(k))
        e = base64.b64encode(raw)
        yield encoded(b"base64", e, k % 2)
        if k < 1100:
            w = 76 if k % 2 else 1 + k % 79
            yield encoded(b"base64", CRLF.join(e[i:i + w] for i in range(0, len(e), w)) + CRLF, (k + 1) % 2)
            yield encoded(b"base64", b"YW" + b"\r\n" * k + b"Jj" + b" " * k + b"ZA=" + b"!" * k + b"=", k % 2)
            yield encoded(b"base64", e + b"=" * (k % 5) + b"\r\n" * (k % 3), k % 2)
            yield encoded(b"base64", e.rstrip(b"="), 0)
    yield encoded(b"base64", base64.b64encode(bytes((i * 37 + i // 251) % 256 for i in range(66000 * 3 + 1))), 0)
    e = base64.b64encode(bytes(range(200, 230)))
    for k in range(len(e) + 1):
        for n, x in enumerate((b"=", b"==", b"\r\n", b"-", b"_", b".", b"\xff", b"\x00", b" ", b"A", b"AA", b"AAA", b"====")):
            if deep or (k + n) % 2:
                yield encoded(b"base64", e[:k] + x + e[k:], (k + n) % 3 == 0)
        yield encoded(b"base64", e[:k], k % 2)


def C15(deep, ex=()):
    from corpus import encoded
    E = b"quoted-printable"
    for k in lengths(deep, ex, range(0, 40)):
        yield encoded(E, text(k), k % 2)
        if k < 1100:
            yield encoded(E, b"".join(b"=%02X" % (i * 37 % 256) for i in range(k)), k % 2)
            yield encoded(E, text(k) + b"=\r\n" + text(k % 77) + b"=3d" + text(k % 5), (k + 1) % 2)
            yield encoded(E, b"=\r\n".join(text(i % 6, b"a.=3Db -_") for i in range(k)), k % 2)
            yield encoded(E, b"\r\n".join(text(i % 7) for i in range(k)) + b" " * (k % 3), k % 2)
    for k in range(0, 40):       # what stands around a soft line break, a hard one, an escape
        t = text(k)
        for n, x in enumerate((b"=\r\n", b"\r\n", b"=41", b"=", b"=\r", b"=4", b"\xe9", b"\t", b" ", b"\r", b"\n", b"=0D=0A", b"=\n")):
            if deep or (k + n) % 2:
                yield encoded(E, t + x + t, (k + n) % 3 == 0)
    A = [b".", b"..", b" ", b"=", b"=3D", b"a", b"\r\n", b"=\r\n", b"=20", b"-", b"--", b"\t", b"From ", b"=2E", b"_", b"\xe9", b"=E9", b"?"]
    for a in A:
        for b in A:
            for c in (A if deep else A[:9]):
                yield encoded(E, a + b + c, len(a + b) % 2)


def C16(deep, ex=()):
    for k in counts(deep, ex):
        w = [ew(b"utf-8", b"q", b"w%d=41" % i) if i % 2 else ew(b"iso-8859-1", b"B", base64.b64encode(b"v%d" % i)) for i in range(k)]
        yield msg(b"Subject: " + b" ".join(w) + CRLF, b"To: " + b" ".join(w) + b" <a@b>\r\n")
        yield msg(b"Subject: " + b" \r\n ".join(w) + CRLF, b"Keywords: " + b",".join(w) + CRLF)
        yield msg(b"Subject: " + b" ".join(x if i % 3 else b"plain%d" % i for i, x in enumerate(w)) + CRLF)
        yield msg(b"Subject: a" + b" " * k + ew(b"utf-8", b"q", b"b") + b" " * k + ew(b"utf-8", b"q", b"c") + b" " * k + b"d" + b" " * k + CRLF)
        yield msg(b"Subject: " + b"x" * k + ew(b"utf-8", b"q", b"b") + CRLF, b"Comments: " + ew(b"utf-8", b"q", b"b") + b"x" * k + CRLF)
    for k in lengths(deep, ex, range(1, 21)):
        yield msg(b"Subject: " + ew(b"utf-8", b"q", text(k, b"abc_=3Fd".replace(b"=3F", b"e"))) + CRLF, b"Comments: " + ew(b"utf-8", b"b", base64.b64encode(text(k))) + b" " + text(k) + CRLF)
        yield msg(b"Subject: " + ew(b"utf-8", b"q", b"=C3=A9" * (k // 6 + 1)) + CRLF, b"Comments: =?utf-8*" + text(k) + b"?q?a?=\r\n", b"X: =?" + text(k) + b"?q?a?=\r\n")


def sections(k, marks, sep=b"%", quoted=False, cs=b"utf-8"):
    """k sections; section i is extended where marks says so"""
    for i in range(k):
        ext = marks(i)
        v = (cs + b"''" if i == 0 and ext else b"") + (b"s%d%s%02X" % (i, sep, 65 + i % 26))
        yield b"x*%d%s=%s" % (i, b"*" if ext else b"", b'"' + v + b'"' if quoted else v)


def C17(deep, ex=()):
    from corpus import param_fields
    for k in counts(deep, ex):
        for n, marks in enumerate((lambda i: True, lambda i: False, lambda i: i == 0, lambda i: i % 2 == 0, lambda i: i % 3 != 1, lambda i: i != 0, lambda i: i == k - 1)):
            ps = list(sections(k, marks, quoted=(k + n) % 3 == 0))
            yield param_fields(ps)[(k + n) % 2]
            if k < 40:
                yield param_fields(ps[::-1])[(k + n + 1) % 2]
                yield param_fields(ps[k // 2:] + ps[:k // 2] + [b"y=z"])[(k + n) % 2]
                yield param_fields([p for i, p in enumerate(ps) if i != k - 2])[(k + n) % 2]
        yield param_fields([b"p%d=v%d" % (i, i) for i in range(k)])[k % 2]
        yield param_fields([b"P%d=\"v %d\"" % (i, i) for i in range(k)])[k % 2]
        yield param_fields([b"p%d*=utf-8''v%%%02d" % (i, 40 + i % 50) for i in range(k)])[k % 2]
        yield param_fields([b"p%d*0=a%d; p%d*1=b%d" % (i, i, i, i) for i in range(k)])[(k + 1) % 2]
        yield param_fields([b"p=%d" % i for i in range(k)] + [b"q=r"])[k % 2]
    for k in lengths(deep, ex):
        t = text(k)
        yield param_fields([b"x=" + t, b"y=\"" + t + b"\"", b"n" + t + b"=v", b"x*=utf-8''" + t if k % 2 else b"z*=utf-8''%41" + t])[k % 2]
        yield param_fields([b"x*0=" + t, b"x*1=\"" + t + b" \"", b"y*=utf-8'" + t + b"'%C3%A9"])[(k + 1) % 2]
        if k < 600:
            yield param_fields([b"x*=utf-8''" + b"".join(b"%%%02X" % (33 + i % 90) for i in range(k))])[k % 2]
    for cs in (b"utf-8", b"UTF-8", b"Utf-8", b"iso-8859-1", b"ISO-8859-1", b"us-ascii", b"US-ASCII", b"gb2312", b"x-none", b"Iso-8859-15"):
        for how in (b"%s", b'"%s"', b'"%s\\a"', b'"\\%s"', b'"%s "', b'"%s\r\n b"', b' "%s"', b'(c)"%s"(d)'):
            for f in (b"x*=%s", b"x*0*=%s; x*1*=%%42; x*2=%%43", b"x*1*=\"%%42\\%%43\"; x*0*=%s"):
                for val in (cs + b"''%E9", cs + b"'en'a%C3%A9b", cs + b"''"):
                    yield param_fields([f.replace(b"%s", how.replace(b"%s", val)).replace(b"%%", b"%")])[len(how + f) % 2]


def C18(deep, ex=()):
    for k in lengths(deep, ex):
        t = text(k)
        m = b"Content-Type: " + t + b"/" + t + CRLF
        yield msg(m, b"Content-Transfer-Encoding: 8bit" + t + CRLF, b"Content-Disposition: " + t + b"; filename=" + t + CRLF)
        yield parted(m + b"Content-Description: " + t + b"\r\nX-" + t + b": y\r\n", t)
        yield msg(b"Content-Disposition: attachment; filename=\"" + t + b"\"; size=" + t + CRLF, b"Content-Type: text/" + t + CRLF)
    for k in counts(deep, ex):
        yield parted(b"".join(b"X-%d: v%d\r\n" % (i, i) for i in range(k)), b"x")
        yield parted(b"".join(b"X: v%d\r\n" % i for i in range(k)) + b"Content-Type: image/png\r\n", b"x")
        yield parted(b"".join(b"Content-Type: a%d/b\r\n" % i for i in range(k)) + b"Subject: s\r\n", b"x")
        yield msg(b"MIME-Version: %d.%d\r\n" % (k, k % 7), b"Content-Type: a/b" + b"; x%d=y" % k * k + CRLF)
        yield msg(b"MIME-Version: " + b"0" * k + b"1." + b"0" * k + CRLF)
    for v in range(0, 260):
        yield msg(b"MIME-Version: %d.%d\r\n" % (v, 259 - v))


BOUNDARIES = [b"b ", b" b", b" ", b"a b", b"a  b", b"b\t", b"\tb", b"b  ", b"-", b"--", b"---", b"b-", b"b--", b"-b", b"--b", b"B", b"aB", b"0", b"=", b"b=", b"=3D", b"'", b"()", b"b(", b"(c)",
              b"+", b"_", b",", b".", b"b.", b"/", b":", b"?", b"b;", b";c=d", b"\"", b"b\"c", b"\\", b"b\\", b"b@c", b"<b>", b"[b]", b"%41", b"*", b"a*b", b"=?utf-8?q?b?=", b"b:", b"From ", b"~!#$&^`{|}"]


def C19(deep, ex=()):
    for k in counts(deep, ex):
        yield multi(b"b", b"".join(b"--b\r\n\r\npart %d\r\n" % i for i in range(min(k, 390))) + b"--b--")
        yield multi(b"b", b"".join(b"--b\r\nX-%d: y\r\n\r\n%s\r\n" % (i, text(i % 9)) for i in range(min(k, 390))) + b"--b--\r\nend")
        yield multi(b"b", b"line %d\r\n" % k * k + b"--b\r\n\r\nx\r\n--b--\r\n" + b"--b\r\n\r\ny\r\n" * k)
        yield multi(b"b", b"--b\r\n\r\n" + b"".join(b"--bx%d\r\n" % i for i in range(k)) + b"\r\n--b--")
        yield multi(b"b", b"--b\r\n\r\n" + CRLF * k + b"--b\r\n" + b"\r" * k + b"\r\n--b--")
        yield multi(b"b", b"--b\r\n\r\n" + b"\r\n--b" * k + b"\r\n\r\nz\r\n--b--")
        yield multi(b"b", b"--b\r\n" + b"-" * k + b"\r\n--b--")
        yield multi(b"b", b"--b\r\n\r\n" + b"-" * k + b"b\r\n" + b"--b" + b"-" * k)
    for k in lengths(deep, ex):
        t = text(k)
        if k:
            yield multi(t, b"--" + t + b"\r\n\r\nx\r\n--" + t[:-1] + b"\r\n--" + t + b"x\r\n--" + t + b"--")
        yield multi(b"b", t + b"\r\n--b\r\n\r\n" + t + b"\r\n--b\r\nX: " + t + b"\r\n\r\n" + t[:k // 2] + b"\r\n--b--\r\n" + t)
        if k < 1200:
            yield multi(b"b", b"--b\r\nContent-Transfer-Encoding: base64\r\n\r\n" + base64.b64encode(t) + b"\r\n--b\r\nContent-Transfer-Encoding: quoted-printable\r\n\r\n" + t.replace(b"a", b"=61") + b"\r\n--b--")


    # boundaries of every kind, and lines that are nearly a delimiter
    for bd in BOUNDARIES + [text(k) for k in range(60, 80)] + [text(k)[:-1] + x for k in (2, 3, 69, 70, 71) for x in (b" ", b"-", b".", b"=")]:
        ways = [quoted_boundary(bd), b'"' + b"".join(b"\\%c" % x if x in b'"\\' or i % 3 == 0 else bytes([x]) for i, x in enumerate(bd)) + b'"']
        if all(chr(x).isalnum() or x in b"-._+'" for x in bd):
            ways.append(bd)
        near = [bd, bd.strip(), bd + b" ", b" " + bd, bd.swapcase(), bd[:-1], bd[1:], bd + bd[-1:], bd * 2, bd.replace(b" ", b"  "), bd.replace(b" ", b""), bd[:70], bd[::-1]]
        for n, how in enumerate(ways):
            for i, x in enumerate(near):
                if x != bd or i == 0:
                    if deep or (n + i + len(bd)) % 2 == 0 or i < 2:
                        yield multi(bd, b"pre\r\n--" + x + b"\r\n\r\none\r\n--" + bd + b"\r\n\r\ntwo\r\n--" + x + b"\r\n\r\nthree\r\n--" + x + b"--\r\n--" + bd + b"--\r\npost", how)
        for how in (b"; boundary*=utf-8''" + pct(bd), b"; boundary*0=\"" + bd[:1] + b"\"; boundary*1*=" + pct(bd[1:]), b"; boundary*0*=us-ascii''" + pct(bd[:2]) + b"; boundary*1*=" + pct(bd[2:])):
            if not set(bd[:1]) & set(b'"\\'):
                yield msg(b"Content-Type: multipart/mixed" + how + CRLF, body=b"--" + bd + b"\r\n\r\none\r\n--" + bd + b"--")


def C20(deep, ex=()):
    from corpus import in_charset
    S = {b"utf-8": ["a", "é", "漢", "😀"], b"iso-8859-1": ["a", "é"], b"iso-8859-5": ["a", "Ж"], b"iso-8859-7": ["a", "ω"], b"gb2312": ["a", "星", "中"], b"us-ascii": ["a", "b"],
         b"iso-8859-15": ["€", "a"], b"iso-8859-2": ["ł", "a"]}
    j = 0
    for cs, al in S.items():
        for k in counts(deep, ex, range(0, 12)):
            j += 1
            if deep or j % 2 or k < 12:
                raw = "".join(al[(i * 5 + i // 7) % len(al)] for i in range(k)).encode(cs.decode())
                yield in_charset(cs if j % 3 else cs.upper(), raw, j)
                yield in_charset(cs, raw[:-1] + b"\xff" + raw[-1:], j + 1)
    for k in counts(deep, ex):
        yield mime(b"text/plain; charset=utf-8", b"x" * k + "é漢😀".encode()[:k % 10] + b"y" * (k % 3))
        yield mime(b"text/plain; charset=gb2312", b"x" * k + "星中".encode("gb2312")[:k % 5])
        yield mime(b"text/plain; charset=iso-6937", b"x" * k + b"\xc2e\xc8"[:k % 4])


    # characters across the ends of blocks
    for cs, al in S.items():
        for k in (1024, 2048, 4096, 8192, 16384, 32768, 65536) if deep else (1024, 4096, 8192, 65536):
            for shift in range(len(al[-1].encode(cs.decode()))):
                j += 1
                if deep or cs in (b"utf-8", b"gb2312") or j % 2:
                    c = al[-1].encode(cs.decode())
                    yield in_charset(cs, b"a" * shift + c * (k // len(c) + 1) + b"z", (0, 3, 0, 2)[j % 4] if k < 60000 else j % 4 // 2 * 3)
    for k in (1024, 4096, 65536):
        for shift in (0, 1):
            yield mime(b"text/plain; charset=iso-6937", b"a" * shift + b"\xc2e" * (k // 2 + 1))
            yield mime(b"text/plain; charset=iso-6937", b"a" * (k - shift) + b"\xc2e\xc2")
            yield mime(b"text/plain; charset=gb2312", b"a" * (k - shift) + b"\xd6\xd0\xd6")


def C23(deep, ex=()):
    for k in counts(deep, ex):
        yield msg(*[b"Comments: c%d\r\n" % i for i in range(k)])
        yield msg(*[b"Keywords: k%d, l%d\r\n" % (i, i) for i in range(k)])
        yield msg(b"Keywords: " + b", ".join(b"k%d" % i for i in range(k)) + CRLF, b"Comments: " + b" ".join(b"k%d" % i for i in range(k)) + CRLF)
        yield msg(b"Keywords: " + b" ".join(b"k%d" % i for i in range(k)) + CRLF, b"Keywords: z\r\n")
        yield msg(*[(b"Keywords: k%d\r\n", b"Comments: c%d\r\n", b"X: %d\r\n", b"Keywords: a%d b, \"c\"\r\n")[i * 5 % 7 % 4] % i for i in range(k)])
    for k in lengths(deep, ex):
        t = text(k)
        yield msg(b"Comments: " + t + CRLF, b"Keywords: " + t + b", x " + t + CRLF, b"Comments:" + t + CRLF)
    E = [b"", b" ", b"(c)", b" (c) ", b"\"\"", b"\" \"", b"\r\n ", b"\t", b" \r\n\t", b".", b"@", b"a.b", b"\x01", b"\xc3\xa9", b"\"a", b"(a", b"a)", b":", b";", b"<a@b>", b"=?utf-8?q?a?=", b"=?x?q?a?="]
    for k in counts(deep, (), (1, 2, 3, 4, 5, 6))[:9 if deep else 7]:
        for x in E:
            for l in odd(k, x, lambda i: b" k%d" % i):
                yield msg(b"Keywords:" + b",".join(l) + CRLF)
    for a in E:
        for b in E:
            for w in (b"Keywords: %s,%s\r\n", b"Keywords: a,%s,%s\r\n", b"Keywords: %s,%s,a\r\n", b"Keywords: a,%s,b,%s,c\r\n", b"Keywords: a%sb%s\r\n") if deep else (b"Keywords: a,%s,%s,b\r\n", b"Keywords: %s,a%s\r\n"):
                yield msg(w % (a, b))


SWEEP = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
