//! Conformance harness: runs behaviours produced by the TLA+ specification
//! against the real serde_yaml and records behaviours of the real serde_yaml
//! for the specification to judge.
mod gen;
mod gen_doc;
mod j;
mod ops_borrow;
mod ops_convert;
mod ops_doc;
mod ops_fan;
mod ops_float;
mod ops_index;
mod ops_scalar;
mod ops_ser;
mod ops_sink;
mod ops_soup;
mod ops_source;
mod ops_stream;
mod ops_value;
mod render;
mod rt;
mod schema;

use j::J;
use std::io::{BufRead, Write};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match args.get(1).map(String::as_str) {
        Some("run") => run(&args[2], &args[3], &args[4], args.get(5).map_or("", |s| s)),
        Some("record") => record(&args[2], &args[3], &args[4], &args[5]),
        Some("gen") => generate(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5]),
        _ => {
            eprintln!("usage: conf run CASES OUT PROGRESS [PART]");
            std::process::exit(2);
        }
    }
}

/// Replays every case; writes one line per divergence and a final summary.
fn run(cases: &str, out: &str, progress: &str, part: &str) {
    let mut w = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let rdr = std::io::BufReader::new(std::fs::File::open(cases).unwrap());
    let watch = rt::Watch::start(progress);
    let mut ctx = rt::Ctx::new(part);
    let mut n = 0u64;
    ops_doc::load_schemas();
    for line in rdr.lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let mut de = serde_json::Deserializer::from_str(&line);
        de.disable_recursion_limit();
        let case = <J as serde::Deserialize>::deserialize(&mut de).unwrap();
        watch.begin(n);
        ctx.begin(&case);
        match case["op"].as_str().unwrap_or("") {
            "float" => ops_float::run(&mut ctx, &case),
            "scalar" => ops_scalar::run(&mut ctx, &case),
            "doc" => ops_doc::run(&mut ctx, &case),
            "vread" => ops_doc::vread(&mut ctx, &case),
            "stream" => ops_stream::run(&mut ctx, &case),
            "fan" => ops_fan::run(&mut ctx, &case),
            "convert" => ops_convert::run(&mut ctx, &case),
            "borrow" => ops_borrow::run(&mut ctx, &case),
            "ser" => ops_ser::run(&mut ctx, &case),
            "pair" => ops_value::pair(&mut ctx, &case),
            "prims" => ops_value::prims(&mut ctx, &case),
            "mapping" => ops_value::mapping(&mut ctx, &case),
            "index" => ops_index::run(&mut ctx, &case),
            "merge" => ops_index::merge(&mut ctx, &case),
            "source" => ops_source::source(&mut ctx, &case),
            "utf8" => ops_source::utf8(&mut ctx, &case),
            other => panic!("unknown op {other}"),
        }
        for m in ctx.take() {
            writeln!(w, "{}", m).unwrap();
        }
        n += 1;
    }
    watch.done();
    let summary = serde_json::json!({"summary": {"cases": n, "checks": ctx.checks, "mismatches": ctx.mismatches}});
    writeln!(w, "{}", summary).unwrap();
    w.flush().unwrap();
}

/// Runs environments made by the specification and records what happened.
fn record(cases: &str, out: &str, pool: &str, progress: &str) {
    let watch = rt::Watch::start(progress);
    let mut n = 0u64;
    ops_doc::load_schemas();
    let mut w = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let rdr = std::io::BufReader::new(std::fs::File::open(cases).unwrap());
    let pool: J = serde_json::from_str(&std::fs::read_to_string(pool).unwrap()).unwrap();
    for line in rdr.lines() {
        let case: J = serde_json::from_str(&line.unwrap()).unwrap();
        watch.begin(n);
        n += 1;
        let t = match case["op"].as_str().unwrap_or("") {
            "float" => ops_float::record(&case),
            "sink" => ops_sink::record(&pool, &case),
            "soup" => ops_soup::record(&pool, &case),
            other => panic!("unknown op {other}"),
        };
        writeln!(w, "{}", t).unwrap();
        // (if the process is taken down, what it has recorded is kept)
        w.flush().unwrap();
    }
    watch.done();
    w.flush().unwrap();
}

/// Draws n seeded inputs of a kind.
fn generate(what: &str, seed: u64, n: usize, out: &str) {
    let mut w = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut r = gen::Rng::new(seed);
    let mut seen = std::collections::HashSet::new();
    let mut tries = 0;
    while seen.len() < n && tries < n * 20 {
        tries += 1;
        let j = match what {
            "scalar" => gen::scalar(&mut r),
            "doc" => gen_doc::doc(&mut r),
            "ser" => ops_ser::draw(&mut r),
            "single" => ops_ser::draw_single(&mut r),
            "stream" => ops_stream::stream(&mut r),
            "merge" => ops_index::draw(&mut r),
            "deep" => gen_doc::deep(&mut r),
            "keep" => gen_doc::keep(&mut r),
            "float" => ops_float::draw(&mut r),
            "fan" => ops_fan::draw(&mut r),
            "soup" => ops_soup::draw(&mut r),
            other => panic!("unknown generator {other}"),
        };
        let s = j.to_string();
        if seen.insert(s.clone()) {
            writeln!(w, "{}", s).unwrap();
        }
    }
    w.flush().unwrap();
}
