//! The types of the trace fields cannot be named outside of the library, so their values are read
//! from their `Debug` representation.

use crate::out::*;
use std::fmt::Write;

#[derive(Debug, PartialEq)]
pub enum Node {
    Text(String),
    Number(String),
    List(Vec<Node>),
    Tuple(String, Vec<Node>),
    Struct(String, Vec<(String, Node)>),
}
use Node::*;

struct Reader<'a> {
    c: std::iter::Peekable<std::str::Chars<'a>>,
}

impl<'a> Reader<'a> {
    fn ws(&mut self) {
        while matches!(self.c.peek(), Some(' ') | Some('\n') | Some(',')) {
            self.c.next();
        }
    }

    fn until(&mut self, end: char) -> Vec<Node> {
        let mut items = Vec::new();
        loop {
            self.ws();
            if self.c.peek() == Some(&end) {
                self.c.next();
                return items;
            }
            items.push(self.node());
        }
    }

    fn string(&mut self) -> String {
        let mut t = String::new();
        self.c.next();
        loop {
            match self.c.next().expect("unterminated string") {
                '"' => return t,
                '\\' => match self.c.next().unwrap() {
                    'n' => t.push('\n'),
                    'r' => t.push('\r'),
                    't' => t.push('\t'),
                    '0' => t.push('\0'),
                    'u' => {
                        self.c.next();
                        let mut n = 0;
                        loop {
                            match self.c.next().unwrap() {
                                '}' => break,
                                d => n = n * 16 + d.to_digit(16).unwrap(),
                            }
                        }
                        t.push(char::from_u32(n).unwrap());
                    }
                    c => t.push(c),
                },
                c => t.push(c),
            }
        }
    }

    fn ident(&mut self) -> String {
        let mut t = String::new();
        while let Some(c) = self.c.peek() {
            if c.is_alphanumeric() || *c == '_' || *c == '-' {
                t.push(*c);
                self.c.next();
            } else {
                break;
            }
        }
        t
    }

    fn node(&mut self) -> Node {
        self.ws();
        match self.c.peek().copied().expect("unexpected end") {
            '"' => Text(self.string()),
            '[' => {
                self.c.next();
                List(self.until(']'))
            }
            '(' => {
                self.c.next();
                Tuple(String::new(), self.until(')'))
            }
            c if c.is_ascii_digit() => Number(self.ident()),
            c if c.is_alphabetic() || c == '_' => {
                let name = self.ident();
                match self.c.peek() {
                    Some('(') => {
                        self.c.next();
                        Tuple(name, self.until(')'))
                    }
                    Some(' ') => {
                        let mut ahead = self.c.clone();
                        ahead.next();
                        if ahead.next() != Some('{') {
                            return Tuple(name, Vec::new());
                        }
                        self.c.next();
                        self.c.next();
                        let mut fields = Vec::new();
                        loop {
                            self.ws();
                            if self.c.peek() == Some(&'}') {
                                self.c.next();
                                return Struct(name, fields);
                            }
                            let field = self.ident();
                            assert_eq!(self.c.next(), Some(':'));
                            fields.push((field, self.node()));
                        }
                    }
                    _ => Tuple(name, Vec::new()),
                }
            }
            c => panic!("unexpected {:?}", c),
        }
    }
}

pub fn read(t: &str) -> Node {
    Reader { c: t.chars().peekable() }.node()
}

impl Node {
    fn get(&self, name: &str) -> &Node {
        match self {
            Struct(_, f) => &f.iter().find(|(n, _)| n == name).expect("field").1,
            _ => panic!("not a struct: {:?}", self),
        }
    }
    fn name(&self) -> &str {
        match self {
            Struct(n, _) | Tuple(n, _) => n,
            _ => panic!("no name: {:?}", self),
        }
    }
    fn item(&self, i: usize) -> &Node {
        match self {
            Tuple(_, l) | List(l) => &l[i],
            _ => panic!("no items: {:?}", self),
        }
    }
    fn items(&self) -> &[Node] {
        match self {
            List(l) => l,
            _ => panic!("not a list: {:?}", self),
        }
    }
    fn number(&self) -> u32 {
        match self {
            Number(n) => n.parse().unwrap(),
            _ => panic!("not a number: {:?}", self),
        }
    }
}

pub fn text(o: &mut Out, n: &Node) {
    match n {
        Text(t) => o.shown(t),
        _ => panic!("not a text: {:?}", n),
    }
}

fn address_spec(o: &mut Out, n: &Node) {
    o.s.push_str("{\"local\":");
    text(o, n.get("local_part"));
    o.s.push_str(",\"domain\":");
    text(o, n.get("domain"));
    o.s.push('}');
}

fn mailbox(o: &mut Out, n: &Node) {
    o.s.push_str("{\"name\":[");
    if n.get("name").name() == "Some" {
        o.list(n.get("name").item(0).items(), text);
    }
    o.s.push_str("],\"addr\":");
    address_spec(o, n.get("address"));
    o.s.push('}');
}

fn address(o: &mut Out, n: &Node) {
    match n.name() {
        "Mailbox" => {
            o.s.push_str("{\"k\":\"mailbox\",\"name\":[],\"boxes\":[");
            mailbox(o, n.item(0));
            o.s.push_str("]}");
        }
        "Group" => {
            let pair = n.item(0);
            o.s.push_str("{\"k\":\"group\",\"name\":[");
            o.list(pair.item(0).items(), text);
            o.s.push_str("],\"boxes\":");
            o.list(pair.item(1).items(), mailbox);
            o.s.push('}');
        }
        x => panic!("not an address: {}", x),
    }
}

fn date(o: &mut Out, n: &Node) {
    const DAYS: [&str; 7] = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"];
    const MONTHS: [&str; 12] = ["January", "February", "March", "April", "May", "June", "July",
        "August", "September", "October", "November", "December"];
    let dow = match n.get("day_name").name() {
        "Some" => {
            let d = n.get("day_name").item(0).name();
            Some(1 + DAYS.iter().position(|x| *x == d).expect("day") as u32)
        }
        _ => None,
    };
    let d = n.get("date");
    let month = 1 + MONTHS.iter().position(|x| *x == d.get("month").name()).expect("month") as u32;
    let year = match d.get("year") {
        Number(y) => y.clone(),
        y => panic!("year: {:?}", y),
    };
    let t = n.get("time").get("time");
    let z = n.get("time").get("zone");
    o.date_parts(
        dow,
        d.get("day").number(),
        month,
        &year,
        (t.get("hour").number(), t.get("minute").number(), t.get("second").number()),
        (z.get("sign").name() == "true", z.get("hour_offset").number(), z.get("minute_offset").number()),
    );
}

/// a `ReceivedToken`
pub fn token(o: &mut Out, shown: String) {
    let n = read(&shown);
    match n.name() {
        "Word" | "Domain" => {
            w!(o, "{{\"k\":\"{}\",\"v\":", n.name().to_lowercase());
            text(o, n.item(0));
        }
        "Addr" => {
            o.s.push_str("{\"k\":\"addr\",\"v\":");
            address_spec(o, n.item(0));
        }
        x => panic!("not a token: {}", x),
    }
    o.s.push('}');
}

/// a `TraceField`
pub fn trace_field(o: &mut Out, shown: String) {
    let n = read(&shown);
    let (k, v) = (n.name(), n.item(0));
    w!(o, "{{\"k\":\"{}\",\"v\":", k.to_lowercase());
    match k {
        "Date" => date(o, v),
        "From" => o.list(v.items(), mailbox),
        "Sender" => mailbox(o, v),
        "To" | "Cc" | "Bcc" => o.list(v.items(), address),
        "MessageId" => {
            o.s.push_str("{\"l\":");
            text(o, v.item(0));
            o.s.push_str(",\"r\":");
            text(o, v.item(1));
            o.s.push('}');
        }
        x => panic!("not a trace field: {}", x),
    }
    o.s.push('}');
}
