//! Runs the library on one input and reports everything that it says about it.

use crate::out::*;
#[cfg(feature = "trace")]
use crate::shown;
#[cfg(feature = "trace")]
use email_parser::address::EmailAddress;
use email_parser::error::Error;
#[cfg(feature = "mime")]
use email_parser::mime::*;
use email_parser::prelude::*;
#[cfg(feature = "mime")]
use std::borrow::Cow;
#[cfg(feature = "mime")]
use std::collections::HashMap;
use std::fmt::Write;

/// no more than that many entities of one message are looked at
#[cfg(feature = "mime")]
const MAX_ENTITIES: usize = 400;

#[cfg(feature = "trace")]
fn path(o: &mut Out, p: &Option<Option<EmailAddress>>) {
    o.opt(p, |o, p| o.opt(p, |o, a| o.address_spec(a)));
}

fn field(o: &mut Out, f: &Field) {
    macro_rules! kv {
        ($k:expr, $e:expr) => {{
            w!(o, "{{\"k\":\"{}\",\"v\":", $k);
            $e;
            o.s.push('}');
        }};
    }
    match f {
        #[cfg(feature = "date")]
        Field::Date(v) => kv!("date", o.date(v)),
        #[cfg(feature = "from")]
        Field::From(v) => kv!("from", o.mailboxes(v)),
        #[cfg(feature = "sender")]
        Field::Sender(v) => kv!("sender", o.mailbox(v)),
        #[cfg(feature = "reply-to")]
        Field::ReplyTo(v) => kv!("replyto", o.addresses(v)),
        #[cfg(feature = "to")]
        Field::To(v) => kv!("to", o.addresses(v)),
        #[cfg(feature = "cc")]
        Field::Cc(v) => kv!("cc", o.addresses(v)),
        #[cfg(feature = "bcc")]
        Field::Bcc(v) => kv!("bcc", o.addresses(v)),
        #[cfg(feature = "message-id")]
        Field::MessageId(v) => kv!("messageid", o.id(v)),
        #[cfg(feature = "in-reply-to")]
        Field::InReplyTo(v) => kv!("inreplyto", o.ids(v)),
        #[cfg(feature = "references")]
        Field::References(v) => kv!("references", o.ids(v)),
        #[cfg(feature = "subject")]
        Field::Subject(v) => kv!("subject", o.text(v)),
        #[cfg(feature = "comments")]
        Field::Comments(v) => kv!("comments", o.text(v)),
        #[cfg(feature = "keywords")]
        Field::Keywords(v) => kv!("keywords", o.list(v, |o, p| o.phrase(p))),
        #[cfg(feature = "mime")]
        Field::MimeVersion(a, b) => {
            kv!("mimeversion", w!(o, "{{\"major\":{},\"minor\":{}}}", a, b))
        }
        #[cfg(feature = "mime")]
        Field::ContentType { mime_type, subtype, parameters } => kv!("contenttype", {
            o.s.push_str("{\"type\":");
            content_type(o, mime_type);
            o.s.push_str(",\"sub\":");
            o.text(subtype);
            o.s.push_str(",\"params\":");
            params(o, parameters);
            o.s.push('}');
        }),
        #[cfg(feature = "mime")]
        Field::ContentTransferEncoding(v) => kv!("encoding", encoding(o, v)),
        #[cfg(feature = "mime")]
        Field::ContentId(v) => kv!("contentid", o.id(v)),
        #[cfg(feature = "mime")]
        Field::ContentDescription(v) => kv!("description", o.text(v)),
        #[cfg(feature = "content-disposition")]
        Field::ContentDisposition(v) => kv!("disposition", disposition(o, v)),
        #[cfg(feature = "trace")]
        Field::Trace { return_path, received, fields } => {
            o.s.push_str("{\"k\":\"trace\",\"path\":");
            path(o, return_path);
            o.s.push_str(",\"received\":");
            o.list(received, |o, (tokens, date)| {
                o.s.push_str("{\"tokens\":");
                o.list(tokens, |o, t| shown::token(o, format!("{:?}", t)));
                o.s.push_str(",\"date\":");
                o.date(date);
                o.s.push('}');
            });
            o.s.push_str(",\"fields\":");
            o.list(fields, |o, f| shown::trace_field(o, format!("{:?}", f)));
            o.s.push('}');
        }
        Field::Unknown { name, value } => {
            o.s.push_str("{\"k\":\"unknown\",\"name\":");
            o.str(name);
            o.s.push_str(",\"v\":");
            o.text(value);
            o.s.push('}');
        }
    }
}

#[cfg(feature = "mime")]
fn known(o: &mut Out, name: &str) {
    o.s.push_str("{\"known\":true,\"text\":{\"b\":0,\"t\":");
    o.code_points(name.as_bytes());
    o.s.push_str("}}");
}

#[cfg(feature = "mime")]
fn unknown(o: &mut Out, name: &Cow<str>) {
    o.s.push_str("{\"known\":false,\"text\":");
    o.text(name);
    o.s.push('}');
}

#[cfg(feature = "mime")]
pub fn content_type(o: &mut Out, t: &ContentType) {
    match t {
        ContentType::Text => known(o, "text"),
        ContentType::Image => known(o, "image"),
        ContentType::Audio => known(o, "audio"),
        ContentType::Video => known(o, "video"),
        ContentType::Application => known(o, "application"),
        ContentType::Message => known(o, "message"),
        ContentType::Multipart => known(o, "multipart"),
        ContentType::Unknown(t) => unknown(o, t),
    }
}

#[cfg(feature = "mime")]
pub fn encoding(o: &mut Out, e: &ContentTransferEncoding) {
    match e {
        ContentTransferEncoding::SevenBit => known(o, "7bit"),
        ContentTransferEncoding::HeightBit => known(o, "8bit"),
        ContentTransferEncoding::Binary => known(o, "binary"),
        ContentTransferEncoding::QuotedPrintable => known(o, "quoted-printable"),
        ContentTransferEncoding::Base64 => known(o, "base64"),
        ContentTransferEncoding::Unknown(t) => unknown(o, t),
    }
}

#[cfg(feature = "mime")]
fn params(o: &mut Out, p: &HashMap<Cow<str>, Cow<str>>) {
    let mut l: Vec<_> = p.iter().collect();
    l.sort();
    o.list(&l, |o, (n, v)| o.named(n, v));
}

#[cfg(feature = "mime")]
pub fn disposition_type(o: &mut Out, t: &DispositionType) {
    match t {
        DispositionType::Inline => known(o, "inline"),
        DispositionType::Attachment => known(o, "attachment"),
        DispositionType::Unknown(t) => unknown(o, t),
    }
}

#[cfg(feature = "mime")]
pub fn disposition(o: &mut Out, d: &Disposition) {
    o.s.push_str("{\"type\":");
    disposition_type(o, &d.disposition_type);
    o.s.push_str(",\"filename\":");
    o.opt(&d.filename, |o, t| o.text(t));
    o.s.push_str(",\"creation\":");
    o.opt(&d.creation_date, |o, d| o.date(d));
    o.s.push_str(",\"modification\":");
    o.opt(&d.modification_date, |o, d| o.date(d));
    o.s.push_str(",\"read\":");
    o.opt(&d.read_date, |o, d| o.date(d));
    o.s.push_str(",\"params\":");
    params(o, &d.unstructured);
    o.s.push('}');
}

#[cfg(feature = "mime")]
pub fn raw_entity(o: &mut Out, e: &RawEntity) {
    o.s.push_str("{\"type\":");
    content_type(o, &e.mime_type);
    o.s.push_str(",\"sub\":");
    o.text(&e.subtype);
    o.s.push_str(",\"params\":");
    params(o, &e.parameters);
    o.s.push_str(",\"desc\":");
    o.opt(&e.description, |o, t| o.text(t));
    o.s.push_str(",\"id\":");
    o.opt(&e.id, |o, i| o.id(i));
    o.s.push_str(",\"disp\":");
    #[cfg(feature = "content-disposition")]
    o.opt(&e.disposition, |o, d| disposition(o, d));
    #[cfg(not(feature = "content-disposition"))]
    o.s.push_str("[]");
    o.s.push_str(",\"value\":");
    o.bytes(&e.value);
    o.s.push_str(",\"add\":");
    o.list(&e.additional_headers, |o, (n, v)| o.named(n, v));
    // the conversions of the types that only change the ownership
    #[allow(unused_mut)]
    let mut same = e.mime_type.clone().into_owned() == e.mime_type;
    #[cfg(feature = "content-disposition")]
    {
        same &= e.disposition.clone().map(|d| d.into_owned()) == e.disposition;
    }
    w!(o, ",\"composite\":{},\"same\":{}}}", e.mime_type.is_composite_type(), same);
}

/// Follows the entities of a message in breadth-first order: `ents[i]` is what parsing the entity
/// number i gives; the parts of a multipart are numbered when they are found.
#[cfg(feature = "mime")]
fn entities(bad: &mut bool, root: &'static RawEntity<'static>) -> String {
    let mut queue: Vec<&'static RawEntity<'static>> = vec![root];
    let mut s = String::from("[");
    let mut i = 0;
    while i < queue.len() && i < MAX_ENTITIES {
        let e = queue[i];
        let mut o = Out::new(&e.value);
        match e.parse() {
            Ok(Entity::Multipart { subtype, content }) => {
                o.s.push_str("{\"k\":\"multipart\",\"sub\":");
                o.shown(subtype);
                o.s.push_str(",\"parts\":");
                o.list(&content, |o, p| raw_entity(o, p));
                o.s.push('}');
                for part in content {
                    queue.push(Box::leak(Box::new(part)));
                }
            }
            Ok(Entity::Text { subtype, value }) => {
                o.s.push_str("{\"k\":\"text\",\"sub\":");
                o.shown(subtype);
                o.s.push_str(",\"text\":");
                o.text(&value);
                o.s.push('}');
            }
            Ok(Entity::Unknown) => o.s.push_str("{\"k\":\"unknown\"}"),
            Err(_) => o.s.push_str("{\"k\":\"error\"}"),
        }
        *bad |= o.bad_utf8;
        if i > 0 {
            s.push(',');
        }
        s.push_str(&o.s);
        i += 1;
    }
    s.push(']');
    s
}

fn error(o: &mut Out, e: &Error) {
    let (k, n) = match e {
        Error::DuplicateHeader(n) => ("dup", *n),
        Error::MissingHeader(n) => ("missing", *n),
        _ => ("other", ""),
    };
    // every error can be displayed
    let shown = e.to_string();
    w!(o, "{{\"ok\":false,\"err\":\"{}\",\"shown\":{},\"name\":", k, !shown.is_empty());
    o.nums(n.bytes().map(|b| b.to_ascii_lowercase() as u32));
    o.s.push('}');
}

pub fn message(o: &mut Out, data: &'static [u8]) {
    match parse_message(data) {
        Ok((fields, body)) => {
            o.s.push_str("{\"ok\":true,\"fields\":");
            o.list(&fields, |o, f| field(o, f));
            o.s.push_str(",\"body\":");
            #[cfg(feature = "mime")]
            o.opt(&body, |o, b| o.bytes(&Cow::Borrowed(*b)));
            #[cfg(not(feature = "mime"))]
            o.opt(&body, |o, b| o.text(b));
            o.s.push('}');
        }
        Err(e) => error(o, &e),
    }
}

/// An `Email`, and its entities.
pub fn email(o: &mut Out, parsed: Result<Email<'static>, Error>) -> String {
    #[allow(unused_mut)]
    let mut ents = String::from("[]");
    match parsed {
        Ok(mail) => {
            let mail: &'static Email<'static> = Box::leak(Box::new(mail));
            o.s.push_str("{\"ok\":true,\"once\":{\"none\":[]");
            #[cfg(feature = "date")]
            {
                o.s.push_str(",\"date\":[");
                o.date(&mail.date);
                o.s.push(']');
            }
            #[cfg(feature = "from")]
            {
                o.s.push_str(",\"from\":[");
                o.mailboxes(&mail.from);
                o.s.push(']');
            }
            #[cfg(feature = "subject")]
            {
                o.s.push_str(",\"subject\":");
                o.opt(&mail.subject, |o, v| o.text(v));
            }
            #[cfg(feature = "to")]
            {
                o.s.push_str(",\"to\":");
                o.opt(&mail.to, |o, v| o.addresses(v));
            }
            #[cfg(feature = "cc")]
            {
                o.s.push_str(",\"cc\":");
                o.opt(&mail.cc, |o, v| o.addresses(v));
            }
            #[cfg(feature = "bcc")]
            {
                o.s.push_str(",\"bcc\":");
                o.opt(&mail.bcc, |o, v| o.addresses(v));
            }
            #[cfg(feature = "reply-to")]
            {
                o.s.push_str(",\"replyto\":");
                o.opt(&mail.reply_to, |o, v| o.addresses(v));
            }
            #[cfg(feature = "message-id")]
            {
                o.s.push_str(",\"messageid\":");
                o.opt(&mail.message_id, |o, v| o.id(v));
            }
            #[cfg(feature = "in-reply-to")]
            {
                o.s.push_str(",\"inreplyto\":");
                o.opt(&mail.in_reply_to, |o, v| o.ids(v));
            }
            #[cfg(feature = "references")]
            {
                o.s.push_str(",\"references\":");
                o.opt(&mail.references, |o, v| o.ids(v));
            }
            o.s.push('}');
            #[cfg(feature = "sender")]
            {
                o.s.push_str(",\"sender\":");
                o.mailbox(&mail.sender);
            }
            #[cfg(feature = "comments")]
            {
                o.s.push_str(",\"comments\":");
                o.list(&mail.comments, |o, v| o.text(v));
            }
            #[cfg(feature = "keywords")]
            {
                o.s.push_str(",\"keywords\":");
                o.list(&mail.keywords, |o, v| o.phrase(v));
            }
            #[cfg(feature = "trace")]
            {
                o.s.push_str(",\"trace\":");
                o.list(&mail.trace, |o, (p, received, fields)| {
                    o.s.push_str("{\"k\":\"trace\",\"path\":");
                    path(o, p);
                    o.s.push_str(",\"received\":");
                    o.list(received, |o, (tokens, date)| {
                        o.s.push_str("{\"tokens\":");
                        o.list(tokens, |o, t| shown::token(o, format!("{:?}", t)));
                        o.s.push_str(",\"date\":");
                        o.date(date);
                        o.s.push('}');
                    });
                    o.s.push_str(",\"fields\":");
                    o.list(fields, |o, f| shown::trace_field(o, format!("{:?}", f)));
                    o.s.push('}');
                });
            }
            o.s.push_str(",\"unknown\":");
            o.list(&mail.unknown_fields, |o, (n, v)| {
                o.s.push_str("{\"n\":");
                o.str(n);
                o.s.push_str(",\"v\":");
                o.text(v);
                o.s.push('}');
            });
            #[cfg(not(feature = "mime"))]
            {
                o.s.push_str(",\"body\":");
                o.opt(&mail.body, |o, b| o.text(b));
            }
            #[cfg(feature = "mime")]
            {
                o.s.push_str(",\"entity\":");
                raw_entity(o, &mail.mime_entity);
                let mut bad = false;
                ents = entities(&mut bad, &mail.mime_entity);
                o.bad_utf8 |= bad;
            }
            o.s.push('}');
        }
        Err(e) => error(o, &e),
    }
    ents
}

/// Everything about one input, as members of a JSON object.
pub fn full(data: &'static [u8]) -> (String, bool) {
    let mut o = Out::new(data);
    o.s.push_str("\"pm\":");
    message(&mut o, data);
    o.s.push_str(",\"em\":");
    let ents = email(&mut o, Email::parse(data));
    o.s.push_str(",\"ents\":");
    o.s.push_str(&ents);
    (o.s, o.bad_utf8)
}
