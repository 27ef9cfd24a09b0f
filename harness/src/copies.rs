//! harness copies FILE: the history of the values of one message: which values there are, which
//! copies are made of them, which of them are equal, and what the copies that are said to own
//! their contents look like after the memory of the message has been overwritten.

use crate::out::*;
#[cfg(feature = "mime")]
use crate::report;
use email_parser::address::*;
use email_parser::error::Error;
#[cfg(feature = "mime")]
use email_parser::mime::*;
use email_parser::prelude::*;
use email_parser::time::DateTime;
use std::fmt::Write;

/// so many values of a kind are compared with each other
const PAIRS: usize = 6;
/// no more than that many lists of entities are looked at
#[cfg(feature = "mime")]
const LISTS: usize = 12;

#[derive(Default)]
struct Log {
    s: String,
    values: usize,
    #[cfg(feature = "mime")]
    lists: usize,
    bad: bool,
}

impl Log {
    fn event(&mut self, e: &str) {
        if !self.s.is_empty() {
            self.s.push(',');
        }
        self.s.push_str(e);
    }

    fn shown<T: ?Sized>(&mut self, v: &T, show: &dyn Fn(&mut Out, &T)) -> String {
        let mut o = Out::new(&[]);
        show(&mut o, v);
        self.bad |= o.bad_utf8;
        o.s
    }

    fn new(&mut self, kind: &str, c: &str) -> usize {
        self.event(&format!("{{\"e\":\"new\",\"k\":\"{}\",\"c\":{}}}", kind, c));
        self.values += 1;
        self.values
    }

    fn copy(&mut self, how: &str, v: usize, c: &str) -> usize {
        self.event(&format!("{{\"e\":\"{}\",\"v\":{},\"c\":{}}}", how, v, c));
        self.values += 1;
        self.values
    }

    fn equal(&mut self, a: usize, b: usize, equal: bool, unequal: bool) {
        self.event(&format!("{{\"e\":\"equal\",\"v\":{},\"w\":{},\"r\":{},\"n\":{}}}", a, b, equal, unequal));
    }

    fn look(&mut self, v: usize, c: &str) {
        self.event(&format!("{{\"e\":\"look\",\"v\":{},\"c\":{}}}", v, c));
    }

    /// copies of values
    fn cloned<T: Clone>(&mut self, kind: &str, items: &[&T], show: &dyn Fn(&mut Out, &T)) -> Vec<(usize, usize, T)> {
        let mut all = Vec::new();
        for x in items {
            let c = self.shown(*x, show);
            let v = self.new(kind, &c);
            let copy = (*x).clone();
            let c = self.shown(&copy, show);
            let w = self.copy("clone", v, &c);
            let c = self.shown(*x, show);
            self.look(v, &c);
            all.push((v, w, copy));
        }
        all
    }

    /// copies of values, and which of them are equal
    #[allow(clippy::nonminimal_bool)]
    fn watched<T: Clone + PartialEq>(&mut self, kind: &str, items: &[&T], show: &dyn Fn(&mut Out, &T)) -> Vec<usize> {
        let all = self.cloned(kind, items, show);
        for (k, (v, w, copy)) in all.iter().enumerate() {
            self.equal(*v, *w, items[k] == copy, items[k] != copy);
            for (j, (x, y, other)) in all.iter().enumerate().take(PAIRS) {
                if k < PAIRS {
                    self.equal(*v, *x, items[k] == items[j], items[k] != items[j]);
                    self.equal(*w, *y, copy == other, copy != other);
                }
            }
        }
        all.iter().map(|x| x.0).collect()
    }
}

/// Values that have been made independent of the message
#[derive(Default)]
struct Kept {
    #[cfg(feature = "mime")]
    types: Vec<(usize, ContentType<'static>)>,
    #[cfg(feature = "mime")]
    encodings: Vec<(usize, ContentTransferEncoding<'static>)>,
    #[cfg(feature = "mime")]
    dispositions: Vec<(usize, Disposition<'static>)>,
    #[cfg(feature = "mime")]
    disposition_types: Vec<(usize, DispositionType<'static>)>,
}

fn show_error(o: &mut Out, e: &Error) {
    let (k, n) = match e {
        Error::DuplicateHeader(n) => ("dup", n),
        Error::MissingHeader(n) => ("missing", n),
        Error::Explicit(n) => ("explicit", n),
        Error::Unknown(n) => ("unknown", n),
    };
    w!(o, "{{\"k\":\"{}\",\"name\":", k);
    o.nums(n.bytes().map(|b| b as u32));
    o.s.push_str(",\"shown\":");
    o.nums(e.to_string().bytes().map(|b| b as u32));
    o.s.push('}');
}

#[cfg(feature = "mime")]
fn show_entity(o: &mut Out, e: &Entity) {
    match e {
        Entity::Multipart { subtype, content } => {
            o.s.push_str("{\"k\":\"multipart\",\"sub\":");
            o.text(subtype);
            o.s.push_str(",\"parts\":");
            o.list(content, |o, p| report::raw_entity(o, p));
            o.s.push('}');
        }
        Entity::Text { subtype, value } => {
            o.s.push_str("{\"k\":\"text\",\"sub\":");
            o.text(subtype);
            o.s.push_str(",\"text\":");
            o.text(value);
            o.s.push('}');
        }
        Entity::Unknown => o.s.push_str("{\"k\":\"unknown\"}"),
    }
}

#[cfg(feature = "mime")]
fn dispositions(log: &mut Log, kept: &mut Kept, list: &[&Disposition]) {
    let ids = log.watched("disposition", list, &|o, d| report::disposition(o, d));
    for (d, v) in list.iter().zip(ids) {
        let own = (*d).clone().into_owned();
        let c = log.shown(&own, &|o, d| report::disposition(o, d));
        let w = log.copy("own", v, &c);
        log.equal(v, w, **d == own, **d != own);
        kept.dispositions.push((w, own));
    }
    let types: Vec<_> = list.iter().map(|d| &d.disposition_type).collect();
    let ids = log.watched("disposition type", &types, &|o, d| report::disposition_type(o, d));
    for (d, v) in types.iter().zip(ids) {
        let own = (*d).clone().into_owned();
        let c = log.shown(&own, &|o, d| report::disposition_type(o, d));
        let w = log.copy("own", v, &c);
        kept.disposition_types.push((w, own));
    }
    let dates: Vec<&DateTime> =
        list.iter().flat_map(|d| [&d.creation_date, &d.modification_date, &d.read_date]).flatten().collect();
    log.watched("date", &dates, &|o, d| o.date(d));
}

#[cfg(feature = "mime")]
fn types(log: &mut Log, kept: &mut Kept, list: &[&ContentType]) {
    let ids = log.watched("type", list, &|o, t| report::content_type(o, t));
    for (t, v) in list.iter().zip(ids) {
        let own = (*t).clone().into_owned();
        let c = log.shown(&own, &|o, t| report::content_type(o, t));
        let w = log.copy("own", v, &c);
        log.equal(v, w, **t == own, **t != own);
        log.event(&format!("{{\"e\":\"composite\",\"v\":{},\"r\":{}}}", v, t.is_composite_type()));
        log.event(&format!("{{\"e\":\"composite\",\"v\":{},\"r\":{}}}", w, own.is_composite_type()));
        kept.types.push((w, own));
    }
}

/// the entities of one multipart, or the one of the message
#[cfg(feature = "mime")]
fn entities(log: &mut Log, kept: &mut Kept, errors: &mut Vec<Error>, list: &[RawEntity]) {
    log.lists += 1;
    if log.lists > LISTS {
        return;
    }
    let list = &list[..list.len().min(20)];
    log.watched("raw entity", &list.iter().collect::<Vec<_>>(), &|o, e| report::raw_entity(o, e));
    types(log, kept, &list.iter().map(|e| &e.mime_type).collect::<Vec<_>>());
    #[cfg(feature = "content-disposition")]
    dispositions(log, kept, &list.iter().filter_map(|e| e.disposition.as_ref()).collect::<Vec<_>>());
    let parsed: Vec<_> = list.iter().map(|e| e.parse()).collect();
    let good: Vec<&Entity> = parsed.iter().filter_map(|e| e.as_ref().ok()).collect();
    log.watched("entity", &good, &show_entity);
    errors.extend(parsed.iter().filter_map(|e| e.as_ref().err().cloned()));
    // the same entity read again, and a copy of it
    for e in list.iter().take(2) {
        let copy = e.clone();
        if let (Ok(a), Ok(b)) = (e.parse(), copy.parse()) {
            log.watched("entity", &[&a, &b], &show_entity);
        }
    }
    for e in good {
        if let Entity::Multipart { content, .. } = e {
            entities(log, kept, errors, content);
        }
    }
}

fn fields(log: &mut Log, kept: &mut Kept, list: &[Field]) {
    let _ = &kept;
    let mut dates: Vec<&DateTime> = Vec::new();
    let mut boxes: Vec<&Mailbox> = Vec::new();
    let mut addresses: Vec<&Address> = Vec::new();
    let mut specs: Vec<&EmailAddress> = Vec::new();
    #[cfg(feature = "mime")]
    let (mut encodings, mut mime_types, mut disps) = (Vec::new(), Vec::new(), Vec::<&Disposition>::new());
    for f in list {
        match f {
            #[cfg(feature = "date")]
            Field::Date(d) => dates.push(d),
            #[cfg(feature = "from")]
            Field::From(l) => boxes.extend(l),
            #[cfg(feature = "sender")]
            Field::Sender(m) => boxes.push(m),
            #[cfg(feature = "reply-to")]
            Field::ReplyTo(l) => addresses.extend(l),
            #[cfg(feature = "to")]
            Field::To(l) => addresses.extend(l),
            #[cfg(feature = "cc")]
            Field::Cc(l) => addresses.extend(l),
            #[cfg(feature = "bcc")]
            Field::Bcc(l) => addresses.extend(l),
            #[cfg(feature = "trace")]
            Field::Trace { return_path, received, .. } => {
                dates.extend(received.iter().map(|x| &x.1));
                if let Some(Some(p)) = return_path {
                    specs.push(p);
                }
            }
            #[cfg(feature = "mime")]
            Field::ContentTransferEncoding(e) => encodings.push(e),
            #[cfg(feature = "mime")]
            Field::ContentType { mime_type, .. } => mime_types.push(mime_type),
            #[cfg(feature = "content-disposition")]
            Field::ContentDisposition(d) => disps.push(d),
            _ => (),
        }
    }
    dates.truncate(20);
    boxes.truncate(20);
    addresses.truncate(20);
    specs.extend(boxes.iter().map(|m| &m.address));
    log.watched("date", &dates, &|o, d| o.date(d));
    log.watched("day of the month", &dates.iter().map(|d| &d.date).collect::<Vec<_>>(), &|o, d| {
        w!(o, "[{},{},{}]", d.day, d.month.clone() as u8, d.year)
    });
    log.watched("time", &dates.iter().map(|d| &d.time).collect::<Vec<_>>(), &|o, t| {
        let z = &t.zone;
        w!(o, "[{},{},{},{},{},{}]", t.time.hour, t.time.minute, t.time.second, z.sign as u8, z.hour_offset, z.minute_offset)
    });
    log.cloned("mailbox", &boxes, &|o, m| o.mailbox(m));
    log.cloned("address", &addresses, &|o, a| o.address(a));
    log.cloned("address-spec", &specs, &|o, a| o.address_spec(a));
    #[cfg(feature = "mime")]
    {
        let ids = log.watched("encoding", &encodings, &|o, e| report::encoding(o, e));
        for (e, v) in encodings.iter().zip(ids) {
            let own = (*e).clone().into_owned();
            let c = log.shown(&own, &|o, e| report::encoding(o, e));
            let w = log.copy("own", v, &c);
            log.equal(v, w, **e == own, **e != own);
            kept.encodings.push((w, own));
        }
        types(log, kept, &mime_types);
        dispositions(log, kept, &disps);
    }
}

pub fn copies(data: &[u8]) -> (String, bool) {
    let mut memory = data.to_vec();
    let mut log = Log::default();
    let mut kept = Kept::default();
    let mut errors = Vec::new();
    match parse_message(&memory) {
        Ok((list, _)) => fields(&mut log, &mut kept, &list),
        Err(e) => errors.push(e),
    }
    match Email::parse(&memory) {
        #[cfg(feature = "mime")]
        Ok(mail) => entities(&mut log, &mut kept, &mut errors, std::slice::from_ref(&mail.mime_entity)),
        #[cfg(not(feature = "mime"))]
        Ok(_) => (),
        Err(e) => errors.push(e),
    }
    errors.truncate(PAIRS);
    log.watched("error", &errors.iter().collect::<Vec<_>>(), &show_error);
    // nothing else refers to the memory any more
    memory.iter_mut().for_each(|b| *b = b'X');
    log.event("{\"e\":\"overwrite\"}");
    std::hint::black_box(&memory);
    #[cfg(feature = "mime")]
    {
        for (v, x) in &kept.types {
            let c = log.shown(x, &|o, t| report::content_type(o, t));
            log.look(*v, &c);
        }
        for (v, x) in &kept.encodings {
            let c = log.shown(x, &|o, t| report::encoding(o, t));
            log.look(*v, &c);
        }
        for (v, x) in &kept.dispositions {
            let c = log.shown(x, &|o, t| report::disposition(o, t));
            log.look(*v, &c);
        }
        for (v, x) in &kept.disposition_types {
            let c = log.shown(x, &|o, t| report::disposition_type(o, t));
            log.look(*v, &c);
        }
    }
    (format!("\"events\":[{}]", log.s), log.bad)
}
