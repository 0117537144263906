//! Coverage-guided choice of cases: the bytes that libFuzzer proposes are the choices of the
//! generator of the check named by VERIF_FUZZ. A failure is shrunk and written like any other.
#![no_main]

use harness::engine::Src;
use libfuzzer_sys::{fuzz_target, Corpus};
use std::sync::OnceLock;

#[global_allocator]
static ALLOC: harness::engine::Counting = harness::engine::Counting;

static ID: OnceLock<String> = OnceLock::new();

fuzz_target!(
    init: {
        harness::engine::install_panic_hook();
        let _ = ID.set(std::env::var("VERIF_FUZZ").expect("VERIF_FUZZ names the check"));
    },
    |data: &[u8]| -> Corpus {
        harness::cli::fuzz_case(ID.get().unwrap(), &mut Src::bytes(data));
        Corpus::Keep
    }
);
