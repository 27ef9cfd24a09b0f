//! harness run FILE   reports the results for every line `id hex` of the file
//! harness total FILE as run, but only reports whether the calls return
//! harness copies FILE  what becomes of the values (see `copies`)
//! harness pure FILE  observes every input through several calls (see `pure`)
//!
//! One line of JSON per case, flushed, so that the driver knows which case ended the process.

mod copies;
mod out;
mod report;
#[cfg(feature = "trace")]
mod shown;

use email_parser::prelude::Email;
use std::convert::TryFrom;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn unhex(h: &str) -> Vec<u8> {
    let d = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        _ => c - b'a' + 10,
    };
    h.as_bytes().chunks(2).map(|p| d(p[0]) * 16 + d(p[1])).collect()
}

fn guarded(f: impl FnOnce() -> (String, bool)) -> (String, &'static str) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok((s, false)) => (s, "ok"),
        Ok((s, true)) => (s, "utf8"),
        Err(_) => (String::from("\"pm\":{},\"em\":{},\"ents\":[]"), "panic"),
    }
}

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// the result of a call, without the part that depends on the address of the input
fn observe(data: &'static [u8], op: &str) -> String {
    catch_unwind(AssertUnwindSafe(|| observed(data, op))).unwrap_or_else(|_| "panic".into())
}

fn observed(data: &'static [u8], op: &str) -> String {
    let mut o = out::Out::new(data);
    let ents = match op {
        "parse_message" => {
            report::message(&mut o, data);
            String::new()
        }
        "try_from" => report::email(&mut o, Email::try_from(data)),
        _ => report::email(&mut o, Email::parse(data)),
    };
    o.s.push_str(&ents);
    o.s
}

fn leak(v: Vec<u8>) -> &'static [u8] {
    Box::leak(v.into_boxed_slice())
}

/// The input is copied behind `before` and in front of `after`.
fn placed(data: &[u8], before: &[u8], after: &[u8]) -> &'static [u8] {
    let mut v = before.to_vec();
    v.extend_from_slice(data);
    v.extend_from_slice(after);
    &leak(v)[before.len()..before.len() + data.len()]
}

/// Writes the history of the calls: which call, on which input, in which way, with which result.
/// The calls of the threads are written in the order of the threads.
fn pure(cases: &[(String, &'static [u8])], out: &mut impl Write) {
    let mut events: Vec<(usize, &str, &str, String)> = Vec::new();
    let ops = ["parse", "try_from", "parse_message"];
    for (i, (_, data)) in cases.iter().enumerate() {
        for op in ops {
            events.push((i, op, "first", observe(data, op)));
        }
        for op in ops {
            events.push((i, op, "again", observe(data, op)));
        }
    }
    // in another order, with other inputs in between
    for (i, (_, data)) in cases.iter().enumerate().rev() {
        for op in ops {
            events.push((i, op, "history", observe(data, op)));
        }
    }
    // elsewhere in memory, with other bytes around
    let around: [(&[u8], &[u8]); 5] = [
        (b"x", b"\r\n x"),
        (b"\r\n", b"=41"),
        (b"=?utf-8?q?", b"?="),
        (b"0123456", b")\r\n\r\n--b--"),
        (b"--b\r\n", b"\r\n--b--\r\n"),
    ];
    for (i, (_, data)) in cases.iter().enumerate() {
        for (k, (before, after)) in around.iter().enumerate() {
            let op = ops[(i + k) % 3];
            events.push((i, op, "placed", observe(placed(data, before, after), op)));
        }
    }
    // one input after the other in the same piece of memory
    let longest = cases.iter().map(|(_, d)| d.len()).max().unwrap_or(0);
    let memory: *mut [u8] = Box::into_raw(vec![0u8; longest].into_boxed_slice());
    for round in 0..2 {
        for (i, (_, data)) in cases.iter().enumerate() {
            // nothing that refers to the memory outlives `observe`
            let place: &'static [u8] = unsafe {
                std::ptr::copy_nonoverlapping(data.as_ptr(), memory as *mut u8, data.len());
                std::slice::from_raw_parts(memory as *const u8, data.len())
            };
            let op = ops[(i / 2 + round) % 3];
            events.push((i, op, "reused", observe(place, op)));
            if round == 0 && i % 2 == 1 {
                events.push((i, "parse_message", "reused", observe(place, "parse_message")));
            }
        }
    }
    // after many more calls
    for k in 0..70000usize {
        let short: &[u8] = [&b"From: a@b\r\nDate: 1 Jan 2000 00:00 +0000\r\n"[..], b"X", b"X: y\r\n\r\nz"][k % 3];
        let _ = std::hint::black_box(Email::parse(short));
    }
    for (i, (_, data)) in cases.iter().enumerate() {
        events.push((i, ops[i % 3], "late", observe(data, ops[i % 3])));
    }
    // the same call on four threads at once
    let threads: Vec<_> = (0..4)
        .map(|t| {
            let mine: Vec<_> = cases.iter().map(|(_, d)| *d).collect();
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let n = mine.len();
                    (0..n)
                        .map(|k| {
                            let i = if t % 2 == 0 { (k + t * 7) % n } else { n - 1 - k };
                            let op = ["parse", "try_from", "parse_message"][(i + t) % 3];
                            (i, op, "thread", observe(mine[i], op))
                        })
                        .collect::<Vec<_>>()
                })
                .unwrap()
        })
        .collect();
    for t in threads {
        match t.join() {
            Ok(l) => events.extend(l),
            Err(_) => events.push((0, "parse", "thread", "panic".into())),
        }
    }
    for (i, op, how, res) in events {
        writeln!(out, "{{\"in\":{},\"id\":\"{}\",\"op\":\"{}\",\"how\":\"{}\",\"ok\":{},\"res\":\"{:016x}\"}}",
            i + 1, cases[i].0, op, how, res.starts_with("{\"ok\":true"), fnv(&res)).unwrap();
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let file = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap());
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    std::panic::set_hook(Box::new(|_| {}));
    let cases: Vec<(String, &'static [u8])> = file
        .lines()
        .map(|l| {
            let l = l.unwrap();
            let (id, h) = l.split_once(' ').unwrap();
            (id.to_string(), leak(unhex(h)))
        })
        .collect();
    match args[1].as_str() {
        "pure" => pure(&cases, &mut out),
        mode => {
            for (id, data) in cases {
                let (s, end) = if mode == "copies" {
                    match catch_unwind(AssertUnwindSafe(|| copies::copies(data))) {
                        Ok((s, bad)) => (s, if bad { "utf8" } else { "ok" }),
                        Err(_) => ("\"events\":[]".into(), "panic"),
                    }
                } else {
                    guarded(|| report::full(data))
                };
                if mode == "copies" {
                    writeln!(out, "{{\"id\":\"{}\",\"end\":\"{}\",{}}}", id, end, s).unwrap();
                } else if mode == "total" {
                    writeln!(out, "{{\"id\":\"{}\",\"len\":{},\"end\":\"{}\"}}", id, data.len(), end).unwrap();
                } else {
                    write!(out, "{{\"id\":\"{}\",\"end\":\"{}\",\"in\":[", id, end).unwrap();
                    for (i, b) in data.iter().enumerate() {
                        if i > 0 {
                            out.write_all(b",").unwrap();
                        }
                        write!(out, "{}", b).unwrap();
                    }
                    writeln!(out, "],{}}}", s).unwrap();
                }
                out.flush().unwrap();
            }
        }
    }
    out.flush().unwrap();
}
