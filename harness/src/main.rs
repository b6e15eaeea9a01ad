mod ast;
mod ast_block;
mod dict;
mod engine;
mod htm;
mod large;
mod props_ast;
mod props_attach;
mod props_attrs;
mod props_cli;
mod props_blank;
mod props_edit;
mod props_html;
mod props_leaf;
mod props_lists;
mod props_meta;
mod props_misc;
mod props_notes;
mod props_refs;
mod props_stream;
mod props_tables;
mod rng;
mod rt;
mod stream;
mod text;

use engine::{Cx, Mode, Opts, Prop};
use std::collections::HashMap;

#[global_allocator]
static ALLOC: rt::Counting = rt::Counting;

fn make(id: &str) -> Box<dyn Prop> {
    match id {
        "C01" => Box::new(props_stream::Totality),
        "C02" => Box::new(props_stream::Nesting),
        "C03" => Box::new(props_stream::Spans),
        "C05" => Box::new(props_misc::Determinism::default()),
        "C06" => Box::new(props_misc::Bounds),
        "C07" => Box::new(props_ast::Docs {
            mode: ast::Mode::Hostile,
            w: [8, 4, 3, 4, 2, 3, 2, 0, 0, 0, 1, 1],
            ats: false,
            blocks: 5,
            inlines: 8,
            html: true,
            rule: "one evaluation writes a document whose text consists of arbitrary characters with every punctuation character escaped, and compares the events and the decoded HTML with the intended text; non-trivial: more than eight events; distinct: event-kind sequence",
        }),
        "C08" => Box::new(props_ast::Docs {
            mode: ast::Mode::Literal,
            w: [8, 1, 4, 5, 2, 2, 3, 10, 8, 0, 0, 1],
            ats: false,
            blocks: 5,
            inlines: 6,
            html: true,
            rule: "one evaluation writes a document with verbatim, math, raw and code elements of arbitrary content in nested containers, and compares the delivered content and the HTML with it; non-trivial: more than eight events; distinct: event-kind sequence",
        }),
        "C10" => Box::new(props_ast::Docs {
            mode: ast::Mode::Smart,
            w: [10, 3, 3, 4, 2, 1, 2, 0, 0, 0, 0, 1],
            ats: false,
            blocks: 4,
            inlines: 12,
            html: false,
            rule: "one evaluation writes a document with runs of hyphens and periods of random length and nested quotes in inline and block containers, and compares the punctuation events with arithmetic on the run lengths and the intended quotes; non-trivial: more than eight events; distinct: event-kind sequence",
        }),
        "C09" => Box::new(props_ast::Inline),
        "C11" => Box::new(props_ast::Blocks),
        "C12" => Box::new(props_lists::Lists {
            docs: props_ast::Docs {
                mode: ast::Mode::Words,
                w: [6, 0, 1, 14, 1, 0, 1, 1, 0, 0, 0, 0],
                ats: false,
                blocks: 5,
                inlines: 2,
                html: false,
                rule: "",
            },
        }),
        "C13" => Box::new(props_tables::Tables {
            docs: props_ast::Docs {
                mode: ast::Mode::Mixed,
                w: [3, 1, 2, 2, 1, 16, 1, 0, 0, 0, 0, 0],
                ats: true,
                blocks: 4,
                inlines: 6,
                html: false,
                rule: "",
            },
        }),
        "C14" => Box::new(props_refs::Headings {
            docs: props_ast::Docs {
                mode: ast::Mode::Mixed,
                w: [3, 12, 2, 2, 1, 1, 2, 0, 0, 0, 0, 1],
                ats: true,
                blocks: 7,
                inlines: 5,
                html: false,
                rule: "",
            },
        }),
        "C15" => Box::new(props_refs::References),
        "C18" => Box::new(props_attach::Attach),
        "C17" => Box::new(props_attrs::Sets),
        "C16" => Box::new(props_notes::Footnotes),
        "C19" => Box::new(props_html::WellFormed),
        "C20" => Box::new(props_html::Escaping),
        "C21" => Box::new(props_html::Faithful),
        "C22" => Box::new(props_html::Layouts),
        "C23" => Box::new(props_html::Sinks),
        "C24" => Box::new(props_cli::Cli::default()),
        "C25" => Box::new(props_meta::Nested),
        "C29" => Box::new(props_blank::Width),
        "C30" => Box::new(props_leaf::Leaf),
        "C31" => Box::new(props_leaf::Reflow),
        "C28" => Box::new(props_blank::Blank),
        "C27" => Box::new(props_edit::Edited),
        "C26" => Box::new(props_meta::Local),
        "C04" => Box::new(props_stream::Agreement),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

fn args() -> (String, HashMap<String, String>) {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let mut m = HashMap::new();
    let mut k = None;
    for a in it {
        if let Some(n) = a.strip_prefix("--") {
            if let Some(k) = k.take() {
                m.insert(k, String::new());
            }
            k = Some(n.to_string());
        } else if let Some(k) = k.take() {
            m.insert(k, a);
        }
    }
    if let Some(k) = k {
        m.insert(k, String::new());
    }
    (cmd, m)
}

fn real_main() -> i32 {
    let (cmd, a) = args();
    let get = |k: &str, d: &str| a.get(k).cloned().unwrap_or_else(|| d.to_string());
    let num = |k: &str, d: u64| a.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    engine::install_panic_hook();
    if cmd == "serve" {
        return props_misc::serve();
    }
    if cmd == "merge" {
        // count distinct signatures over the files listed in --files
        let mut all: Vec<u64> = Vec::new();
        for f in get("files", "").split(',').filter(|f| !f.is_empty()) {
            if let Ok(b) = std::fs::read(f) {
                all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
        }
        all.sort_unstable();
        all.dedup();
        println!("{}", all.len());
        return 0;
    }
    dict::init(&std::fs::read_to_string(get("dict", "/dev/null")).unwrap_or_default());
    let o = Opts {
        prop: get("prop", ""),
        shard: num("shard", 0) as usize,
        nshards: num("nshards", 1) as usize,
        seed: num("seed", 1),
        execs: num("execs", 100_000),
        secs: num("secs", 10) as f64,
        thorough: get("tier", "quick") == "thorough",
        crash: a.get("crash").cloned(),
        seeds: std::fs::read_to_string(get("seeds", "/dev/null"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| String::from_utf8(dict::unhex(l)).ok())
            .filter(|s| !s.is_empty())
            .collect(),
    };
    let mut p = make(&o.prop);
    let mut cx = Cx::default();
    cx.thorough = o.thorough;
    cx.shard = o.shard;
    cx.nshards = o.nshards;
    cx.seed = o.seed;
    match cmd.as_str() {
        "worker" => {
            let t = std::time::Instant::now();
            let out = engine::run(&mut *p, &o, &mut cx);
            if let Some((mode, data, msg)) = out.fail {
                println!("FOUND {}", engine::fail_json(&*p, &o, mode, &data, &data, &msg));
                let orig = data.clone();
                let (d, m) = engine::minimise(&mut *p, mode, data, &mut cx);
                // a monitor that does not fail again on the same case is not deterministic
                let (d, m) = if m.is_empty() { (orig.clone(), msg) } else { (d, m) };
                println!("FAIL {}", engine::fail_json(&*p, &o, mode, &d, &orig, &m));
            }
            if let Some(f) = a.get("sigs") {
                engine::write_sigs(&cx, f);
            }
            println!("STAT {}", engine::stats_json(&cx, p.rule(), t.elapsed().as_secs_f64()));
            0
        }
        "one" => {
            // run one case: --mode text|tape --hexfile F
            let data = dict::unhex(&std::fs::read_to_string(get("hexfile", "")).unwrap_or_default());
            let mode = if get("mode", "text") == "tape" {
                Mode::Tape
            } else {
                Mode::Text
            };
            if a.contains_key("show") && mode == Mode::Tape {
                println!("{}", p.show(&data));
            }
            match engine::run_case(&mut *p, mode, &data, &mut cx) {
                Ok(()) => {
                    println!("PASS");
                    0
                }
                Err(m) => {
                    println!("FAIL {}", engine::fail_json(&*p, &o, mode, &data, &data, &m));
                    1
                }
            }
        }
        _ => {
            eprintln!("usage: vharness worker|one|merge");
            2
        }
    }
}

fn main() {
    // the monitored code runs on a thread with the default stack of a main thread
    let t = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(real_main)
        .expect("spawn");
    std::process::exit(t.join().unwrap_or(2));
}
