"""Random and enumerated messages.  Everything is deterministic for a seed."""
import base64, itertools, random

CRLF = b"\r\n"
FROM = b"From: a@b\r\n"
DATE = b"Date: 1 Jan 2000 00:00 +0000\r\n"
REQ = FROM + DATE
ATEXT = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-/=?^_`{|}~"
TOKEN = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-^_`{|}~."
MONTHS = [b"Jan", b"Feb", b"Mar", b"Apr", b"May", b"Jun", b"Jul", b"Aug", b"Sep", b"Oct", b"Nov", b"Dec"]
DAYS = [b"Mon", b"Tue", b"Wed", b"Thu", b"Fri", b"Sat", b"Sun"]
NAMES = [b"Date", b"From", b"Sender", b"Reply-To", b"To", b"Cc", b"Bcc", b"Message-ID", b"In-Reply-To",
         b"References", b"Subject", b"Comments", b"Keywords", b"MIME-Version", b"Content-Type",
         b"Content-Transfer-Encoding", b"Content-ID", b"Content-Description", b"Content-Disposition"]
TRACE_NAMES = [b"Return-Path", b"Received", b"Resent-Date", b"Resent-From", b"Resent-Sender", b"Resent-To",
               b"Resent-Cc", b"Resent-Bcc", b"Resent-Message-ID"]
ISO = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16]
CHARSETS = [b"utf-8", b"us-ascii"] + [b"iso-8859-%d" % k for k in ISO] + [b"iso-6937", b"gb2312"]


def msg(*fields, body=None):
    return REQ + b"".join(fields) + (CRLF + body if body is not None else b"")


def line(name, value):
    return name + b":" + value + CRLF


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    # ---------------------------------------------------------- small things
    def c(self, *a):
        return self.r.choice(a)

    def p(self, x):
        return self.r.random() < x

    def n(self, a, b):
        return self.r.randint(a, b)

    def chars(self, alphabet, a, b):
        return bytes(self.r.choice(alphabet) for _ in range(self.n(a, b)))

    def case(self, b):
        k = self.n(0, 3)
        if k == 0:
            return b
        if k == 1:
            return b.upper()
        if k == 2:
            return b.lower()
        return bytes(x ^ 32 if chr(x).isalpha() and self.p(.5) else x for x in b)

    # ------------------------------------------------------------ white space
    def wsp(self):
        return self.c(b" ", b" ", b"\t", b"  ", b" \t", b"\t ")

    def fws(self):
        return self.wsp() if self.p(.6) else self.c(b"", self.wsp()) + CRLF + self.wsp()

    def comment(self, d=0):
        out = b"("
        for _ in range(self.n(0, 4)):
            k = self.n(0, 9)
            if k < 4:
                out += self.chars(ATEXT + b";:,.@<>[]\"", 1, 5)
            elif k < 6:
                out += b"\\" + self.c(b"(", b")", b"\\", b"a", b" ", b"\"", b"\t")
            elif k < 8 and d < 4:
                out += self.comment(d + 1)
            if self.p(.3):
                w = self.fws()
                # two folds in a row are not one FWS
                out += w if not (out[-1:] in b" \t" and CRLF in w) else b" "
        return out + b")"

    def cfws(self, need=False):
        if not need and self.p(.55):
            return b""
        k = self.n(0, 9)
        if k < 4:
            return self.fws()
        out = b""
        for _ in range(self.n(1, 2)):
            out += (self.fws() if self.p(.5) else b"") + self.comment()
        return out + (self.fws() if self.p(.4) else b"")

    # --------------------------------------------------------------- words
    def atext(self, a=1, b=6):
        return self.chars(ATEXT, a, b)

    def atom(self, ws=True):
        return (self.cfws() if ws else b"") + self.atext() + (self.cfws() if ws else b"")

    def dot_atom_text(self):
        return b".".join(self.atext(1, 4) for _ in range(self.n(1, 4)))

    def dot_atom(self, ws=True):
        return (self.cfws() if ws else b"") + self.dot_atom_text() + (self.cfws() if ws else b"")

    def quoted(self, ws=True):
        out = b'"'
        for _ in range(self.n(0, 5)):
            k = self.n(0, 9)
            if k < 5:
                out += self.chars(ATEXT + b"()<>[]:;@,.", 1, 5)
            elif k < 7:
                out += b"\\" + self.c(b'"', b"\\", b"a", b" ", b"\t", b"(", b"=")
            elif out[-1:] not in b" \t":
                out += self.fws()
        out += b'"'
        return (self.cfws() if ws else b"") + out + (self.cfws() if ws else b"")

    def word(self, ws=True):
        return self.atom(ws) if self.p(.7) else self.quoted(ws)

    def literal(self, ws=True):
        out = b"["
        for _ in range(self.n(0, 3)):
            out += (self.fws() if ws and self.p(.3) and out[-1:] not in b" \t" else b"")
            out += self.chars(b"0123456789.:abcIPv6!\"()<>@,;", 1, 6)
        out += (self.wsp() if ws and self.p(.2) else b"") + b"]"
        return (self.cfws() if ws else b"") + out + (self.cfws() if ws else b"")

    # --------------------------------------------------------- encoded words
    TEXTS = ["h\u00e9llo", "na\u00efve", "\u20ac 5", "abc", "\u65e5\u672c", "\U0001f600", "a b", "\u00fc", "",
             "x=y?z_", "Gr\u00fc\u00dfe", "\u0416"]

    def encoded_word(self, good=None):
        good = self.p(.8) if good is None else good
        t = self.c(*self.TEXTS)
        cs = self.c(b"utf-8", b"UTF-8", b"us-ascii", b"iso-8859-1", b"ISO-8859-15", b"iso-8859-2", b"gb2312",
                    b"iso-6937", b"iso-8859-8")
        if cs.lower() == b"utf-8":
            raw = t.encode()
        elif cs.lower() == b"us-ascii":
            raw = b"plain text"
        else:
            raw = bytes(self.n(160, 254) if self.p(.4) else self.n(48, 122) for _ in range(self.n(1, 6)))
        lang = self.c(b"", b"", b"", b"*en", b"*EN-us")
        if self.p(.5):
            out = b"=?" + cs + lang + b"?" + self.c(b"B", b"b") + b"?" + base64.b64encode(raw) + b"?="
        else:
            q = b""
            for x in raw:
                if x == 32 and self.p(.7):
                    q += b"_"
                elif 33 <= x <= 126 and x not in b"=?_" and self.p(.9):
                    q += bytes([x])
                else:
                    q += (b"=%02X" if self.p(.5) else b"=%02x") % x
            out = b"=?" + cs + lang + b"?" + self.c(b"Q", b"q") + b"?" + q + b"?="
        if not good:
            k = self.n(0, 9)
            if k == 0:
                out = out[:-1]
            elif k == 1:
                out = out[:-2]
            elif k == 2:
                out = out.replace(b"?", b"", 1)
            elif k == 3:
                out = out.replace(cs, b"x-unknown", 1)
            elif k == 4:
                out = out.replace(b"?q?", b"?x?").replace(b"?Q?", b"?QB?").replace(b"?b?", b"?c?")
            elif k == 5:
                i = self.n(0, len(out) - 1)
                out = out[:i] + self.c(b" ", b"?", b"=", b"\xff", b"") + out[i + 1:]
            elif k == 6:
                out = b"=?utf-8?q?=C3?="
            elif k == 7:
                out = b"=?utf-8?b?w6?="
            elif k == 8:
                out = b"=?utf-8??YQ==?="
            else:
                out = b"x" + out
        return out

    def phrase(self, mime=True, ws=True):
        words = []
        for _ in range(self.n(1, 3)):
            k = self.n(0, 9)
            w = self.encoded_word() if mime and k < 2 else self.word(ws)
            words.append(w)
        return b" ".join(words)

    # -------------------------------------------------------------- addresses
    def addr(self, ws=True):
        l = self.dot_atom(ws) if self.p(.75) else self.quoted(ws)
        d = self.dot_atom(ws) if self.p(.75) else self.literal(ws)
        return l + b"@" + d

    def mailbox(self, ws=True, mime=True):
        if self.p(.45):
            return self.addr(ws)
        name = self.phrase(mime, ws) + b" " if self.p(.8) else b""
        w = self.cfws() if ws else b""
        return name + w + b"<" + self.addr(ws) + b">" + (self.cfws() if ws else b"")

    def mailboxes(self, ws=True, a=1, b=3):
        return b",".join(self.mailbox(ws) for _ in range(self.n(a, b)))

    def group(self, ws=True):
        inner = self.mailboxes(ws) if self.p(.7) else (self.cfws() if ws else b"")
        return self.phrase(True, ws) + b":" + inner + b";" + (self.cfws() if ws else b"")

    def addresses(self, ws=True, a=1, b=3):
        return b",".join(self.group(ws) if self.p(.25) else self.mailbox(ws) for _ in range(self.n(a, b)))

    def msgid(self, ws=True):
        r = self.dot_atom_text() if self.p(.7) else b"[" + self.chars(b"0123456789.:ab()\"@<>", 0, 8) + b"]"
        return (self.cfws() if ws else b"") + b"<" + self.dot_atom_text() + b"@" + r + b">" + (self.cfws() if ws else b"")

    def msgids(self, ws=True):
        return b"".join(self.msgid(ws) for _ in range(self.n(1, 4)))

    # ------------------------------------------------------------------ dates
    def date(self, ws=True, good=True):
        f = (lambda: self.fws()) if ws else (lambda: b" ")
        o = b""
        if self.p(.5):
            o += (self.fws() if ws and self.p(.3) else b"") + self.case(self.c(*DAYS)) + b","
        o += f() if o or self.p(.3) else b""
        o += self.c(b"%d", b"%02d") % self.n(1, 31) + f() + self.case(self.c(*MONTHS)) + f()
        o += b"%d" % self.c(1900, 1901, 1969, 1970, 1989, 1990, 1999, 2000, 2024, 9999, 10000, 99999,
                            self.n(1900, 3000)) + f()
        o += b"%02d:%02d" % (self.n(0, 23), self.n(0, 59))
        if self.p(.7):
            o += b":%02d" % self.n(0, 60)
        o += f() + self.c(b"+", b"-") + b"%02d%02d" % (self.c(0, 1, 5, 14, 23, 99), self.c(0, 30, 59))
        return o + (self.cfws() if ws else b"")

    # ------------------------------------------------------- unstructured text
    def unstructured(self, mime=True):
        out = self.c(b"", b" ", b"  ", b"\t")
        for _ in range(self.n(0, 5)):
            k = self.n(0, 9)
            out += self.encoded_word() if mime and k < 3 else self.chars(ATEXT + b"()<>[]:;@\\,.\"", 1, 8)
            out += self.c(b"", self.wsp(), self.wsp(), self.fws())
        while out.endswith((b" ", b"\t")) and CRLF in out[-4:]:
            out = out.rstrip(b" \t")
            if out.endswith(CRLF):
                out = out[:-2]
        return out + self.c(b"", b"", b" ", b"\t ")

    # ------------------------------------------------------------- parameters
    def token(self):
        return self.chars(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_.!#$&+^`{|}~", 1, 6)

    def param_value(self):
        return self.token() if self.p(.6) else self.quoted(False)

    def ext_value(self, first):
        cs = self.c(b"utf-8", b"UTF-8", b"iso-8859-1", b"iso-8859-5", b"us-ascii", b"x-none", b"gb2312")
        raw = self.c("h\u00e9", "a b", "abc", "\u20ac", "%", "x'y").encode() if cs.lower() == b"utf-8" \
            else self.chars(bytes(range(33, 127)), 0, 4)
        v = b""
        for x in raw:
            if chr(x).isalnum() and x < 128 and self.p(.8):
                v += bytes([x])
            else:
                v += b"%%%02X" % x if self.p(.7) else b"%%%02x" % x
        return cs + b"'" + self.c(b"", b"en") + b"'" + v if first else v

    def params(self, names=(b"charset", b"boundary", b"name", b"x", b"filename"), a=0, b=4):
        out = []
        for _ in range(self.n(a, b)):
            nm = self.case(self.c(*names))
            k = self.n(0, 9)
            if k < 5:
                out.append(nm + b"=" + self.param_value())
            elif k < 6:
                out.append(nm + b"*=" + self.ext_value(True))
            else:
                cnt = self.n(1, 4)
                ext = [self.p(.5) for _ in range(cnt)]
                for i in range(cnt):
                    out.append(nm + b"*%d" % i + (b"*=" if ext[i] else b"=") +
                               (self.ext_value(i == 0) if ext[i] else self.param_value()))
        if self.p(.4):
            self.r.shuffle(out)
        return out

    def render_params(self, ps, ws=True):
        o = b""
        for p in ps:
            o += (self.cfws() if ws and self.p(.3) else b"") + b";" + (self.cfws() if ws and self.p(.5) else self.c(b"", b" ")) + p
        return o

    TYPES = [b"text/plain", b"text/html", b"multipart/mixed", b"image/png", b"application/octet-stream",
             b"audio/basic", b"video/mpeg", b"message/rfc822", b"x-foo/bar", b"textual/plain", b"tex/plain"]

    def content_type(self, ws=True):
        return b" " + (self.cfws() if ws else b"") + self.case(self.c(*self.TYPES)) + \
            self.render_params(self.params(), ws) + (self.cfws() if ws else b"")

    def disposition(self, ws=True):
        t = self.case(self.c(b"inline", b"attachment", b"attachment", b"form-data", b"inlined", b"attach"))
        ps = self.params((b"filename", b"x", b"size", b"creation-date"), 0, 2)
        for nm in (b"filename", b"creation-date", b"modification-date", b"read-date"):
            if self.p(.4):
                v = self.quoted(False) if nm == b"filename" else b'"' + self.date(False) + b'"'
                ps.append(self.case(nm) + b"=" + (v if self.p(.85) else self.token()))
        self.r.shuffle(ps)
        return b" " + t + self.render_params(ps, ws) + (self.cfws() if ws else b"")

    def value(self, name, ws=True):
        """A value for a header, usually valid."""
        k = name.lower()
        sp = b" " if self.p(.9) else b""
        if k in (b"date", b"resent-date"):
            return sp + self.date(ws)
        if k in (b"from", b"resent-from"):
            return sp + self.mailboxes(ws)
        if k in (b"sender", b"resent-sender"):
            return sp + self.mailbox(ws)
        if k in (b"reply-to", b"to", b"cc", b"resent-to", b"resent-cc"):
            return sp + self.addresses(ws)
        if k in (b"bcc", b"resent-bcc"):
            return sp + (self.addresses(ws) if self.p(.7) else self.cfws())
        if k in (b"message-id", b"content-id", b"resent-message-id"):
            return sp + self.msgid(ws)
        if k in (b"in-reply-to", b"references"):
            return sp + self.msgids(ws)
        if k == b"keywords":
            return sp + b",".join(self.phrase(True, ws) for _ in range(self.n(1, 3)))
        if k == b"mime-version":
            w = (lambda: self.cfws()) if ws else (lambda: b"")
            return sp + w() + b"%d" % self.c(1, 0, 255, 12) + w() + b"." + w() + b"%d" % self.c(0, 1, 255) + w()
        if k == b"content-type":
            return self.content_type(ws)
        if k == b"content-transfer-encoding":
            return sp + (self.cfws() if ws else b"") + self.case(self.c(b"7bit", b"8bit", b"binary", b"base64",
                   b"quoted-printable", b"x-uue", b"7bits", b"base6")) + (self.cfws() if ws else b"")
        if k == b"content-disposition":
            return self.disposition(ws)
        if k == b"return-path":
            return sp + (b"<" + self.addr(ws) + b">" if self.p(.7) else b"<" + (self.cfws() if ws else b"") + b">")
        if k == b"received":
            return sp + self.received(ws)
        return self.unstructured()

    def received(self, ws=True):
        toks = []
        for _ in range(self.n(0, 6)):
            toks.append(self.c(b"from", b"by", b"with", b"for", b"id", b"SMTP", self.dot_atom_text(),
                               b"<" + self.addr(False) + b">", self.addr(False), self.literal(False),
                               self.quoted(False), self.atext(), b"(" + self.atext() + b")"))
        return b" ".join(toks) + (self.cfws() if ws else b"") + b";" + self.c(b"", b" ") + self.date(ws)

    # -------------------------------------------------------------- mutations
    SPICE = [b"", b" ", b"\t", b"\r\n ", b"(", b")", b"<", b">", b"[", b"]", b":", b";", b"@", b"\\", b",", b".",
             b'"', b"=", b"?", b"*", b"%", b"'", b"\x00", b"\x7f", b"\x80", b"\xc3\xa9", b"\xff", b"\r", b"\n",
             b"\r\n", b"/", b"-", b"_", b"()", b"<>", b'""', b"..", b",,", b"=?", b"?=", b"\x0b", b"\x1f"]

    def mutate(self, v, k=1):
        for _ in range(k):
            if not v:
                return self.c(*self.SPICE)
            i = self.n(0, len(v) - 1)
            m = self.n(0, 6)
            if m == 0:
                v = v[:i] + v[i + 1:]
            elif m == 1:
                v = v[:i] + self.c(*self.SPICE) + v[i:]
            elif m == 2:
                v = v[:i] + self.c(*self.SPICE) + v[i + 1:]
            elif m == 3:
                j = self.n(i, min(len(v), i + 6))
                v = v[:j] + v[i:j] + v[j:]
            elif m == 4:
                v = v[:i] + v[i + self.n(1, 6):]
            elif m == 5:
                v = v[:i]
            else:
                v = v[:i] + bytes([self.n(0, 255)]) + v[i + 1:]
        return v

    def field(self, name, valid=.7, ws=True):
        v = self.value(name, ws)
        if not self.p(valid):
            v = self.mutate(v, self.n(1, 2))
        return line(self.case(name) if self.p(.5) else name, v)

    # -------------------------------------------------------------- multipart
    def boundary(self):
        return self.c(b"b", b"bb", b"--b", b"=_x", b"a.b", b"0", b"b--", b"_" * 30, b"-", self.token())

    def lookalike(self, bd):
        return self.c(b"--" + bd + b"x", b"--" + bd[:-1], b" --" + bd, b"-" + bd, b"--" + bd + b" ", b"x--" + bd,
                      b"--" + bd + b"-", b"--" + bd + b"--x", b"--" + bd.swapcase(), b"--", b"--" + bd + b"--" + bd,
                      b"--" + bd + b"\r", b"\n--" + bd, b"--" + bd + b"\n", b"----" + bd, b"--" + bd + b"-- ")

    def text_lines(self, bd, a=0, b=4, sneaky=.3):
        out = []
        for _ in range(self.n(a, b)):
            k = self.r.random()
            out.append(self.lookalike(bd) if k < sneaky else self.c(b"", b"line", b" x", b"\xe9\xff", b"a\rb", b"c\nd",
                                                                  self.atext()))
        return CRLF.join(out)

    def part(self, bd, depth):
        hs = b""
        kinds = [b"Content-Type", b"Content-Transfer-Encoding", b"Content-ID", b"Content-Description",
                 b"Content-Disposition", b"X-Part", b"Subject", b"From"]
        body = self.text_lines(bd)
        for _ in range(self.n(0, 3)):
            nm = self.c(*kinds)
            if nm == b"Content-Type" and depth > 0 and self.p(.4):
                inner = self.boundary()
                hs += b"Content-Type: multipart/mixed; boundary=\"" + inner + b"\"\r\n"
                body = self.multipart(inner, depth - 1)
            elif nm == b"Content-Transfer-Encoding":
                e = self.c(b"base64", b"quoted-printable", b"8bit", b"7bit", b"binary")
                hs += b"Content-Transfer-Encoding: " + e + CRLF
                if e == b"base64":
                    body = base64.b64encode(self.chars(bytes(range(256)), 0, 12))
            elif nm == b"Content-Type":
                hs += b"Content-Type: text/plain; charset=" + self.c(b"utf-8", b"iso-8859-1", b"x") + CRLF
            else:
                hs += line(nm, self.value(nm, self.p(.3)))
        k = self.n(0, 9)
        if k == 0 and hs:
            return hs[:-2] if self.p(.5) else hs           # no body
        return hs + CRLF + body

    def multipart(self, bd, depth=1, parts=None):
        out = self.text_lines(bd)
        if out or self.p(.3):
            out += CRLF
        for _ in range(self.n(0, 3) if parts is None else parts):
            out += b"--" + bd + CRLF + self.part(bd, depth) + CRLF
        if self.p(.9):
            out += b"--" + bd + b"--"
            if self.p(.6):
                out += CRLF + self.c(b"", self.text_lines(bd), b"--" + bd + CRLF + CRLF + b"late" + CRLF,
                                     b"--" + bd + b"--")
        return out

    def multipart_message(self, depth=2):
        bd = self.boundary()
        return REQ + b"MIME-Version: 1.0\r\nContent-Type: multipart/" + self.c(b"mixed", b"alternative") + \
            b"; boundary=\"" + bd.replace(b"\\", b"\\\\") + b"\"\r\n\r\n" + self.multipart(bd, depth)

    # --------------------------------------------------------- whole messages
    def body(self):
        k = self.n(0, 5)
        if k == 0:
            return None
        if k == 1:
            return b""
        return CRLF.join(self.chars(ATEXT + b"   :;()", 0, 12) for _ in range(self.n(1, 4)))

    def message(self, names=None, valid=.85, ws=True, trace=True):
        fs = []
        pool = list(names or NAMES)
        self.r.shuffle(pool)
        req = {b"Date", b"From"}
        take = [n for n in pool if n in req] + [n for n in pool if n not in req][:self.n(0, 6)]
        if self.p(.1):
            take.append(self.c(*pool))
        if self.p(.08):
            take.remove(self.c(*take))
        for nm in take:
            fs.append(self.field(nm, valid if nm not in req else .96, ws))
        for _ in range(self.n(0, 2)):
            fs.append(self.c(line(self.c(b"X-Foo", b"Fromage", b"Dat", b"Resent-To", b"Received", b"Subject-"),
                                  self.unstructured()),
                             self.field(self.c(b"Comments", b"Keywords"), valid, ws)))
        self.r.shuffle(fs)
        head = b""
        if trace and self.p(.3):
            for _ in range(self.n(1, 2)):
                if self.p(.6):
                    head += self.field(b"Return-Path", valid, ws)
                for _ in range(self.n(1, 3)):
                    head += self.field(b"Received", valid, ws)
                for _ in range(self.n(0, 3)):
                    head += self.field(self.c(*TRACE_NAMES[2:]), valid, ws)
        b = self.body()
        return head + b"".join(fs) + (CRLF + b if b is not None else b"")
