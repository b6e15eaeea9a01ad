//! The command-line program against the library.
use crate::engine::{Check, Cx as Run, Prop};
use crate::props_html::structured;
use crate::rng::{hash, mix, Tape};
use shim::Format;
use std::fs::{self, File};
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};

pub struct Cli {
    exe: Option<PathBuf>,
    dir: PathBuf,
}

impl Default for Cli {
    fn default() -> Self {
        let base = std::env::var("VERIF_SCRATCH").map_or_else(|_| std::env::temp_dir(), PathBuf::from);
        Cli {
            exe: std::env::var("VERIF_CLI").ok().map(PathBuf::from),
            dir: base.join(format!("cli-{}", std::process::id())),
        }
    }
}

impl Drop for Cli {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.dir);
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Src {
    File,
    /// Standard input is a file.
    Stdin,
    /// Standard input is a pipe that is written in pieces.
    Pipe(usize),
}

#[derive(Debug, Clone, PartialEq)]
enum Dst {
    Stdout,
    File,
    /// A file that has content already.
    Over,
}

#[derive(Debug, Clone, PartialEq)]
enum Fault {
    None,
    NoInput,
    InputIsDir,
    /// Bytes that are not UTF-8 are inserted at a position.
    Bytes(usize, usize),
    NoOutputDir,
    OutputIsDir,
    Full,
    FullFile,
    /// The reader of the output goes away after some bytes.
    Gone(usize),
    BadOption(usize),
}

#[derive(Debug)]
struct Case {
    text: String,
    format: Format,
    args: Vec<String>,
    src: Src,
    dst: Dst,
    fault: Fault,
}

const BAD: &[&[u8]] = &[b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\xc0\x80", b"\x80"];
const BAD_OPTS: &[&[&str]] =
    &[&["--no-such"], &["--start-indent", "x"], &["--start-indent", "-1"], &["one", "two", "three"], &["--minified=yes"]];

fn gen(t: &[u8]) -> Case {
    let mut tp = Tape::new(t);
    let t = &mut tp;
    let fault = match 29 - t.below(30) {
        0 => Fault::NoInput,
        1 => Fault::InputIsDir,
        2 | 3 => Fault::Bytes(t.below(BAD.len()), t.below(2000)),
        4 => Fault::NoOutputDir,
        5 => Fault::OutputIsDir,
        6 | 7 => Fault::Full,
        8 => Fault::FullFile,
        9 => Fault::Gone(t.below(3) * 700),
        10 => Fault::BadOption(t.below(BAD_OPTS.len())),
        _ => Fault::None,
    };
    let src = match t.below(4) {
        0 | 1 => Src::File,
        2 => Src::Stdin,
        _ => Src::Pipe(*t.pick(&[1, 2, 3, 7, 64, 5000])),
    };
    let dst = match t.below(5) {
        0 => Dst::File,
        1 => Dst::Over,
        _ => Dst::Stdout,
    };
    let minified = t.chance(1, 3);
    let mut args = vec![];
    let mut level = 0;
    let mut string = String::new();
    if t.chance(1, 2) {
        level = t.below(4);
        if t.chance(1, 8) {
            level = *t.pick(&[7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257]);
        }
        if t.chance(1, 2) {
            args.push("--start-indent".to_string());
            args.push(level.to_string());
        } else {
            args.push(format!("--start-indent={level}"));
        }
    }
    if t.chance(1, 2) {
        string = t.pick(&["\t", "  ", "    ", "", "> ", "é", "--"]).to_string();
        if t.chance(1, 12) {
            string = string.repeat(1 << (1 + t.below(6)));
        }
        if string.starts_with('-') || t.chance(1, 2) {
            args.push(format!("--indent-string={string}"));
        } else {
            args.push("--indent-string".to_string());
            args.push(string.clone());
        }
    }
    if minified {
        let at = if t.chance(1, 2) { args.len() } else { 0 };
        args.insert(at, "--minified".into());
    }
    let format = if minified { Format::Minified } else { Format::Indented { string, level } };
    let size = t.below(12);
    let mut text = structured(t.rest());
    let mut small = 4000;
    if size == 0 && dst == Dst::Stdout && !matches!(src, Src::Pipe(n) if n < 64) {
        // more than any buffer holds
        text = format!("{}{text}", "word *strong* `code` <é> \"quoted\"\n\n> - item\n\n".repeat(3000));
        small = usize::MAX;
    } else if size == 1 {
        text.clear();
    }
    if text.len() > small {
        let mut i = small;
        while !text.is_char_boundary(i) {
            i -= 1;
        }
        text.truncate(i);
    }
    // what files begin and end with
    match matches!(fault, Fault::None).then(|| hash(text.as_bytes()) % 12) {
        Some(0) => text.insert_str(0, EDGES[hash(text.as_bytes()) as usize / 12 % EDGES.len()]),
        Some(1) => text.push_str(EDGES[hash(text.as_bytes()) as usize / 12 % EDGES.len()]),
        _ => {}
    }
    Case { text, format, args, src, dst, fault }
}

const EDGES: &[&str] = &[
    "\u{feff}", "\u{feff}\n", "#!/usr/bin/jotdown\n", "---\ntitle: x\n---\n", "\0", "\r\n", "\n\n\n", " ", "\t", "\u{1a}", "\u{4}", "<!-- x -->",
    "\u{2028}", "\u{85}", "%% x\n", "\u{a0}", "\x0c", "-", "--",
];

impl Cli {
    fn run(&self, c: &Case, cx: &mut Run) -> Check {
        let Some(exe) = &self.exe else { return Err("VERIF_CLI is not set".into()) };
        let io = |e: std::io::Error| panic!("workload i/o: {e}");
        fs::create_dir_all(&self.dir).unwrap_or_else(io);
        let inp = self.dir.join("in.dj");
        let outp = self.dir.join("out.html");
        let _ = fs::remove_file(&outp);
        let want = shim::html(&c.text, &c.format).into_bytes();
        let mut input = c.text.clone().into_bytes();
        if let Fault::Bytes(b, at) = c.fault {
            let mut i = at.min(c.text.len());
            while !c.text.is_char_boundary(i) {
                i -= 1;
            }
            input.splice(i..i, BAD[b].iter().copied());
        }
        fs::write(&inp, &input).unwrap_or_else(io);
        let mut cmd = Command::new(exe);
        cmd.current_dir(&self.dir).env_clear();
        cmd.args(&c.args);
        if let Fault::BadOption(i) = c.fault {
            cmd.args(BAD_OPTS[i]);
        }
        let mut dst = c.dst.clone();
        match c.fault {
            Fault::NoOutputDir => {
                cmd.args(["-o", "nowhere/out.html"]);
                dst = Dst::File;
            }
            Fault::OutputIsDir => {
                cmd.args(["--output", "."]);
                dst = Dst::File;
            }
            Fault::FullFile => {
                cmd.args(["-o", "/dev/full"]);
                dst = Dst::File;
            }
            Fault::Full | Fault::Gone(_) => dst = Dst::Stdout,
            _ => match dst {
                Dst::Stdout => {}
                Dst::File => {
                    cmd.arg("--output").arg(&outp);
                }
                Dst::Over => {
                    fs::write(&outp, vec![b'#'; want.len() + 500]).unwrap_or_else(io);
                    cmd.arg("-o").arg("out.html");
                }
            },
        }
        let mut src = c.src.clone();
        match c.fault {
            Fault::NoInput => {
                cmd.arg("missing.dj");
                src = Src::File;
            }
            Fault::InputIsDir => {
                cmd.arg(&self.dir);
                src = Src::File;
            }
            _ if src == Src::File => {
                cmd.arg(if c.args.len() % 2 == 0 { inp.clone() } else { "in.dj".into() });
            }
            _ => {}
        }
        cmd.stdin(match src {
            Src::File => Stdio::null(),
            Src::Stdin => File::open(&inp).unwrap_or_else(|e| panic!("workload i/o: {e}")).into(),
            Src::Pipe(_) => Stdio::piped(),
        });
        cmd.stdout(if c.fault == Fault::Full {
            match File::options().write(true).open("/dev/full") {
                Ok(f) => f.into(),
                Err(_) => {
                    cx.count("no_dev_full", 1);
                    return Ok(());
                }
            }
        } else {
            Stdio::piped()
        });
        cmd.stderr(Stdio::piped());
        let mut ch = cmd.spawn().unwrap_or_else(|e| panic!("workload i/o: {e}"));
        let writer = ch.stdin.take().map(|mut w| {
            let Src::Pipe(n) = src else { unreachable!() };
            let input = input.clone();
            std::thread::spawn(move || {
                // the first writes are small, the rest goes at once
                for (i, p) in input.chunks(n).enumerate() {
                    if i == 8 {
                        let _ = w.write_all(&input[(i * n).min(input.len())..]);
                        break;
                    }
                    if w.write_all(p).is_err() {
                        break;
                    }
                }
            })
        });
        let mut gone = false;
        let out = if let Fault::Gone(n) = c.fault {
            let mut so = ch.stdout.take().unwrap();
            let mut b = vec![0; n];
            let mut got = 0;
            while got < n {
                match so.read(&mut b[got..]) {
                    Ok(0) | Err(_) => break,
                    Ok(k) => got += k,
                }
            }
            drop(so);
            gone = true;
            b.truncate(got);
            let mut o = ch.wait_with_output().unwrap_or_else(|e| panic!("workload i/o: {e}"));
            o.stdout = b;
            o
        } else {
            ch.wait_with_output().unwrap_or_else(|e| panic!("workload i/o: {e}"))
        };
        if let Some(w) = writer {
            let _ = w.join();
        }
        let ok = out.status.success();
        let err = String::from_utf8_lossy(&out.stderr).into_owned();
        let head = |b: &[u8]| String::from_utf8_lossy(&b[..b.len().min(600)]).into_owned();
        let at = |m: String| {
            Err(format!("{:?} args {:?} from {src:?} to {dst:?}, {:?}: {m}", c.fault, c.args, out.status))
        };
        cx.count("runs", 1);
        cx.max("max_output_bytes", want.len() as u64);
        if out.status.code().is_none() || out.status.code() == Some(101) {
            return at(format!("died: {err}"));
        }
        let failing = match c.fault {
            Fault::None => false,
            Fault::Full | Fault::FullFile => !want.is_empty(),
            Fault::Gone(_) => {
                // small outputs may have been written before the reader went away
                if ok && want.len() > 70_000 + out.stdout.len() {
                    return at(format!("reports success after {} of {} bytes", out.stdout.len(), want.len()));
                }
                if !want.starts_with(&out.stdout) {
                    return at(format!("wrote {:?}", head(&out.stdout)));
                }
                !ok
            }
            _ => true,
        };
        if failing {
            cx.count("failing_runs", 1);
            if ok {
                return at("reports success".into());
            }
            if err.trim().is_empty() {
                return at("fails without a message".into());
            }
            let input_fault = matches!(c.fault, Fault::NoInput | Fault::InputIsDir | Fault::Bytes(..) | Fault::BadOption(_));
            if input_fault {
                if !out.stdout.is_empty() {
                    return at(format!("wrote {:?}", head(&out.stdout)));
                }
                if dst == Dst::Over && fs::read(&outp).unwrap_or_default() != vec![b'#'; want.len() + 500] {
                    return at("changed the output file".into());
                }
                if dst == Dst::File && outp.exists() {
                    return at("created the output file".into());
                }
            }
        } else {
            if !ok {
                return at(format!("fails: {err}"));
            }
            if !err.is_empty() {
                return at(format!("writes to standard error: {err}"));
            }
            if c.fault == Fault::None {
                let got = match dst {
                    Dst::Stdout => out.stdout.clone(),
                    _ => {
                        if !out.stdout.is_empty() {
                            return at(format!("also writes to standard output: {}", head(&out.stdout)));
                        }
                        fs::read(&outp).unwrap_or_else(|e| format!("{e}").into_bytes())
                    }
                };
                if got != want {
                    let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
                    return at(format!(
                        "{} bytes instead of {}, different at byte {i}: {:?} instead of {:?}",
                        got.len(),
                        want.len(),
                        head(&got[i.min(got.len())..]),
                        head(&want[i.min(want.len())..])
                    ));
                }
                cx.count("outputs_compared", 1);
            }
        }
        let _ = gone;
        let mut h = hash(format!("{:?}{:?}{src:?}{dst:?}{:?}", c.args, c.format, c.fault).as_bytes());
        h = mix(h, hash(&want));
        if !want.is_empty() {
            cx.observe(h);
        }
        cx.sample(|| format!("{:?} from {src:?} to {dst:?}, {:?}: {} bytes, {}", c.args, c.fault, want.len(), out.status));
        Ok(())
    }
}

impl Prop for Cli {
    fn weights(&self) -> (usize, usize) {
        (0, 1)
    }
    fn tape(&mut self, t: &[u8], cx: &mut Run) -> Check {
        let c = gen(t);
        self.run(&c, cx)
    }
    fn show(&self, t: &[u8]) -> String {
        let mut c = gen(t);
        if c.text.len() > 3000 {
            c.text = format!("{} bytes of text", c.text.len());
        }
        format!("{c:?}")
    }
    fn rule(&self) -> &'static str {
        "one evaluation runs the jotdown program once with generated options, input and output channels and possibly a fault, and compares exit status, messages and output bytes with the library's rendering; non-trivial: some output expected; distinct: options, channels, fault and output"
    }
}
