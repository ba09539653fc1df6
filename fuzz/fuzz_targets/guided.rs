//! Coverage-guided search over the same choice words, decoders and oracles as the harness. The
//! property is named by the environment variable PROP; the bytes of an input are its words.
#![no_main]
#![allow(dead_code)]

#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/geo.rs"]
mod geo;
#[path = "../../harness/src/guard.rs"]
mod guard;
#[path = "../../harness/src/props/mod.rs"]
mod props;
#[path = "../../harness/src/query.rs"]
mod query;
#[path = "../../harness/src/runner.rs"]
mod runner;
#[path = "../../harness/src/src.rs"]
mod src;

use runner::*;
use std::sync::OnceLock;

static PROP: OnceLock<&'static Prop> = OnceLock::new();

libfuzzer_sys::fuzz_target!(
    init: {
        install_panic_hook();
        let id = std::env::var("PROP").expect("PROP names a property");
        let _ = PROP.set(props::all().iter().find(|p| p.id == id).expect("a property"));
    },
    |data: &[u8]| {
        let p = PROP.get().unwrap();
        let words: Vec<u32> = data.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        if let Err(why) = judge(p, &words, &mut Ctx::default()) {
            eprintln!("why: {why}");
            std::process::abort();
        }
    }
);
