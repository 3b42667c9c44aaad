//! Runs the whole tool on up to three artefacts made of the fuzzer's bytes.
//! Chunks are separated by the byte 0x1e; the first byte of a chunk selects the parser.
#![no_main]
use libfuzzer_sys::fuzz_target;
use reqtrace::controller::Controller;
use reqtrace::models::Config;
use std::fmt::Write as _;
use std::path::PathBuf;

const JOBS: [(&str, &str); 6] = [
    ("Parse", "Json"),
    ("Parse", "Markdown"),
    ("Parse", "Tags"),
    ("Trace", "Json"),
    ("Trace", "Markdown"),
    ("Trace", "GnuError"),
];

fn scratch() -> PathBuf {
    let dir = PathBuf::from(std::env::var("RTMON_FUZZ_DIR").unwrap_or("/tmp/rtmon-fuzz".into()));
    let dir = dir.join(std::process::id().to_string());
    std::fs::create_dir_all(&dir).unwrap();
    dir
}

fuzz_target!(|data: &[u8]| {
    let dir = scratch();
    let mut toml = String::new();
    let names = ["a", "b", "c"];
    let mut n = 0;
    let mut head = String::new();
    for (chunk, name) in data.split(|b| *b == 0x1e).zip(names) {
        let (parser, body) = match chunk.split_first() {
            None => ("Markdown", chunk),
            Some((b, rest)) => (
                ["Markdown", "MonoRequirement", "Rust", "Json"][(*b & 3) as usize],
                rest,
            ),
        };
        std::fs::write(dir.join(name), body).unwrap();
        write!(
            toml,
            "[[artefacts]]\nid = \"{name}\"\nparser = \"{parser}\"\npaths = [\"{name}\"]\n"
        )
        .unwrap();
        n += 1;
    }
    if n < 2 {
        head.push_str("relations = []\n");
    }
    for w in names[..n].windows(2) {
        write!(toml, "[[relations]]\nupper = \"{}\"\nlower = [\"{}\"]\n", w[0], w[1]).unwrap();
    }
    for (i, (q, f)) in JOBS.iter().enumerate() {
        write!(toml, "[jobs.j{i}]\nquery = \"{q}\"\nformat = \"{f}\"\nfile = \"/dev/null\"\n").unwrap();
    }
    let config: Config = toml::from_str(&(head + &toml)).unwrap();
    let controller = Controller::new(config, &dir);
    for i in 0..JOBS.len() {
        controller.run_jobs_by_name(&[format!("j{i}")]).unwrap();
    }
});
