//! The target named by VH_TARGET: whatever it objects to is a crash for libFuzzer.
#![no_main]
use std::sync::OnceLock;

use libfuzzer_sys::{fuzz_target, Corpus};
use vharness::runner::{Obs, R};

static CHECK: OnceLock<fn(&[u8], &mut Obs) -> R> = OnceLock::new();

fuzz_target!(|data: &[u8]| -> Corpus {
    let check = CHECK.get_or_init(|| {
        let name = std::env::var("VH_TARGET").expect("VH_TARGET");
        vharness::fuzz::target(&name).expect("a target")
    });
    if let Err(f) = check(data, &mut Obs::default()) {
        panic!("{}", f.msg);
    }
    Corpus::Keep
});
