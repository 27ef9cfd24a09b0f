//! A libFuzzer target: it calls what the harness calls.  It finds inputs that run through more of the
//! library; whether their results are right is decided by the specification.
#![no_main]

use email_parser::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[cfg(feature = "mime")]
fn tree(e: &email_parser::mime::RawEntity, left: &mut usize) {
    if *left == 0 {
        return;
    }
    *left -= 1;
    if let Ok(email_parser::mime::Entity::Multipart { content, .. }) = e.parse() {
        for p in &content {
            tree(p, left);
        }
    }
}

#[no_mangle]
pub extern "C" fn LLVMFuzzerInitialize(_: *mut i32, _: *mut *mut *mut u8) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    0
}

#[no_mangle]
pub unsafe extern "C" fn LLVMFuzzerTestOneInput(data: *const u8, size: usize) -> i32 {
    let data = if size == 0 { &[] } else { std::slice::from_raw_parts(data, size) };
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let _ = std::hint::black_box(email_parser::parse_message(data));
        if let Ok(e) = Email::parse(data) {
            #[cfg(feature = "mime")]
            tree(&e.mime_entity, &mut 40);
            std::hint::black_box(e);
        }
    }));
    0
}
