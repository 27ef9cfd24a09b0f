//! JSON output of what the library reports.
//!
//! A text is written as `{"b":start,"n":length}` when it is borrowed from the buffer `buf` (start
//! counts from 1), and as `{"b":0,"t":[code points]}` when it is not. `b` is -1 when the library
//! only shows the text through `Debug`.

use email_parser::address::*;
use email_parser::time::*;
use std::borrow::Cow;
use std::fmt::Write;

pub struct Out<'b> {
    pub s: String,
    pub buf: &'b [u8],
    /// a string that is not UTF-8 has been seen
    pub bad_utf8: bool,
}

pub fn start_of(buf: &[u8], part: &[u8]) -> Option<usize> {
    let b = buf.as_ptr() as usize;
    let p = part.as_ptr() as usize;
    if !part.is_empty() && p >= b && p + part.len() <= b + buf.len() {
        Some(p - b + 1)
    } else {
        None
    }
}

macro_rules! w { ($o:expr, $($a:tt)*) => { write!($o.s, $($a)*).unwrap() } }
pub(crate) use w;

impl<'b> Out<'b> {
    pub fn new(buf: &'b [u8]) -> Self {
        Out { s: String::new(), buf, bad_utf8: false }
    }

    pub fn nums<I: IntoIterator<Item = u32>>(&mut self, it: I) {
        self.s.push('[');
        for (i, n) in it.into_iter().enumerate() {
            if i > 0 {
                self.s.push(',');
            }
            w!(self, "{}", n);
        }
        self.s.push(']');
    }

    pub fn list<T>(&mut self, items: &[T], mut f: impl FnMut(&mut Self, &T)) {
        self.s.push('[');
        for (i, item) in items.iter().enumerate() {
            if i > 0 {
                self.s.push(',');
            }
            f(self, item);
        }
        self.s.push(']');
    }

    pub fn opt<T>(&mut self, item: &Option<T>, mut f: impl FnMut(&mut Self, &T)) {
        self.s.push('[');
        if let Some(item) = item {
            f(self, item);
        }
        self.s.push(']');
    }

    pub fn code_points(&mut self, bytes: &[u8]) {
        match std::str::from_utf8(bytes) {
            Ok(t) => self.nums(t.chars().map(|c| c as u32)),
            Err(_) => {
                self.bad_utf8 = true;
                self.nums(bytes.iter().map(|b| *b as u32))
            }
        }
    }

    pub fn str(&mut self, t: &str) {
        let bytes = t.as_bytes();
        if std::str::from_utf8(bytes).is_err() {
            self.bad_utf8 = true;
        }
        match start_of(self.buf, bytes) {
            Some(b) => w!(self, "{{\"b\":{},\"n\":{}}}", b, bytes.len()),
            None => {
                self.s.push_str("{\"b\":0,\"t\":");
                self.code_points(bytes);
                self.s.push('}');
            }
        }
    }

    /// A `Cow` that is owned is never taken for a slice of the buffer.
    pub fn text(&mut self, t: &Cow<str>) {
        match t {
            Cow::Borrowed(t) => self.str(t),
            Cow::Owned(t) => {
                self.s.push_str("{\"b\":0,\"t\":");
                self.code_points(t.as_bytes());
                self.s.push('}');
            }
        }
    }

    pub fn shown(&mut self, t: &str) {
        self.s.push_str("{\"b\":-1,\"t\":");
        self.code_points(t.as_bytes());
        self.s.push('}');
    }

    pub fn bytes(&mut self, t: &Cow<[u8]>) {
        match t {
            Cow::Borrowed(t) if start_of(self.buf, t).is_some() => {
                let b = start_of(self.buf, t).unwrap();
                w!(self, "{{\"b\":{},\"n\":{}}}", b, t.len())
            }
            t => {
                self.s.push_str("{\"b\":0,\"t\":");
                self.nums(t.iter().map(|b| *b as u32));
                self.s.push('}');
            }
        }
    }

    pub fn phrase(&mut self, words: &Vec<Cow<str>>) {
        self.list(words, |o, x| o.text(x));
    }

    pub fn address_spec(&mut self, a: &EmailAddress) {
        self.s.push_str("{\"local\":");
        self.text(&a.local_part);
        self.s.push_str(",\"domain\":");
        self.text(&a.domain);
        self.s.push('}');
    }

    pub fn mailbox(&mut self, m: &Mailbox) {
        self.s.push_str("{\"name\":");
        self.opt(&m.name, |o, n| o.phrase(n));
        self.s.push_str(",\"addr\":");
        self.address_spec(&m.address);
        self.s.push('}');
    }

    pub fn mailboxes(&mut self, l: &Vec<Mailbox>) {
        self.list(l, |o, m| o.mailbox(m));
    }

    pub fn address(&mut self, a: &Address) {
        match a {
            Address::Mailbox(m) => {
                self.s.push_str("{\"k\":\"mailbox\",\"name\":[],\"boxes\":[");
                self.mailbox(m);
                self.s.push_str("]}");
            }
            Address::Group((name, boxes)) => {
                self.s.push_str("{\"k\":\"group\",\"name\":[");
                self.phrase(name);
                self.s.push_str("],\"boxes\":");
                self.mailboxes(boxes);
                self.s.push('}');
            }
        }
    }

    pub fn addresses(&mut self, l: &Vec<Address>) {
        self.list(l, |o, a| o.address(a));
    }

    pub fn id(&mut self, id: &(Cow<str>, Cow<str>)) {
        self.s.push_str("{\"l\":");
        self.text(&id.0);
        self.s.push_str(",\"r\":");
        self.text(&id.1);
        self.s.push('}');
    }

    pub fn ids(&mut self, l: &Vec<(Cow<str>, Cow<str>)>) {
        self.list(l, |o, x| o.id(x));
    }

    pub fn named(&mut self, n: &Cow<str>, v: &Cow<str>) {
        self.s.push_str("{\"n\":");
        self.text(n);
        self.s.push_str(",\"v\":");
        self.text(v);
        self.s.push('}');
    }

    #[allow(clippy::too_many_arguments)]
    pub fn date_parts(
        &mut self,
        dow: Option<u32>,
        day: u32,
        month: u32,
        year: &str,
        hms: (u32, u32, u32),
        zone: (bool, u32, u32),
    ) {
        self.s.push_str("{\"dow\":");
        self.opt(&dow, |o, d| w!(o, "{}", d));
        w!(self, ",\"day\":{},\"month\":{},\"year\":", day, month);
        self.nums(year.bytes().map(|b| (b - b'0') as u32));
        w!(self, ",\"h\":{},\"m\":{},\"s\":{},\"plus\":{},\"zh\":{},\"zm\":{}}}",
            hms.0, hms.1, hms.2, zone.0, zone.1, zone.2);
    }

    pub fn date(&mut self, d: &DateTime) {
        let dow = d.day_name.as_ref().map(|d| match d {
            Day::Monday => 1,
            Day::Tuesday => 2,
            Day::Wednesday => 3,
            Day::Thursday => 4,
            Day::Friday => 5,
            Day::Saturday => 6,
            Day::Sunday => 7,
        });
        let month = match d.date.month {
            Month::January => 1,
            Month::February => 2,
            Month::March => 3,
            Month::April => 4,
            Month::May => 5,
            Month::June => 6,
            Month::July => 7,
            Month::August => 8,
            Month::September => 9,
            Month::October => 10,
            Month::November => 11,
            Month::December => 12,
        };
        let t = &d.time;
        self.date_parts(
            dow,
            d.date.day as u32,
            month,
            &d.date.year.to_string(),
            (t.time.hour as u32, t.time.minute as u32, t.time.second as u32),
            (t.zone.sign, t.zone.hour_offset as u32, t.zone.minute_offset as u32),
        );
    }
}
