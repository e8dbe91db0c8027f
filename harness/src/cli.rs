//! Running the mutagenyx binary in a scratch directory, with recording stand-ins for the compilers.
use crate::runner::root as verif_root;
use crate::src::{hash_bytes, mix};
use mutagenyx_lib::Language;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

// ------------------------------------------------------------------ scratch

static N: AtomicU64 = AtomicU64::new(0);

/// A scratch tree: work/ (current directory of the tool), tmp/ (its temporary directory),
/// bin/ (its PATH) and ctl/ (what the stand-in compilers read and record).
pub struct Sc {
    pub root: PathBuf,
    tools: serde_json::Map<String, Value>,
    progs: usize,
}

impl Drop for Sc {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}

/// The directory all scratch trees of this check live in (made and removed by the parent process).
pub fn base() -> PathBuf {
    match std::env::var("VERIF_SCRATCH") {
        Ok(b) => PathBuf::from(b),
        Err(_) => std::env::temp_dir().join(format!("mgx-verif-{}", std::process::id())),
    }
}

pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}

#[derive(Debug, Clone)]
pub struct Rec {
    pub name: String,
    pub kind: String,
    pub argv: Vec<String>,
    /// version | ast | compile | bad
    pub mode: String,
    pub opts: Value,
    pub file: String,
    pub text: String,
    pub accepted: bool,
    /// the command line was not in the compiler's syntax
    pub err: Option<String>,
}

#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const Rlimit) -> i32;
}
fn limits() -> std::io::Result<()> {
    // CPU seconds, file size, address space
    for (r, v) in [(0, 20u64), (1, 64 << 20), (9, 8 << 30)] {
        let l = Rlimit { cur: v, max: v };
        unsafe {
            setrlimit(r, &l);
        }
    }
    Ok(())
}

impl Sc {
    pub fn new() -> Sc {
        let b = base();
        let _ = std::fs::create_dir_all(&b);
        let root = b.join(format!("{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        for d in ["work", "tmp", "bin", "ctl/asts"] {
            std::fs::create_dir_all(root.join(d)).expect("scratch directory");
        }
        Sc { root, tools: Default::default(), progs: 0 }
    }

    pub fn path(&self, rel: &str) -> PathBuf {
        self.root.join(rel)
    }
    pub fn abs(&self, rel: &str) -> String {
        self.root.join(rel).to_str().unwrap().to_string()
    }

    /// Write a file given relative to the scratch root.
    pub fn write(&self, rel: &str, data: &[u8]) {
        let p = self.root.join(rel);
        std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
        std::fs::write(p, data).expect("write");
    }
    pub fn read(&self, rel: &str) -> Option<String> {
        std::fs::read(self.root.join(rel)).ok().map(|b| String::from_utf8_lossy(&b).to_string())
    }

    /// Install a stand-in compiler; `at` is relative to the scratch root, e.g. "bin/solc".
    pub fn tool(&mut self, at: &str, spec: Value) {
        let p = self.root.join(at);
        std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
        std::os::unix::fs::symlink(std::env::current_exe().unwrap(), &p).expect("symlink");
        let name = p.file_name().unwrap().to_str().unwrap().to_string();
        self.tools.insert(name, spec);
        self.write("ctl/plan.json", Value::Object(self.tools.clone()).to_string().as_bytes());
    }

    /// Register an AST; returns the source text that the stand-in compiler turns into it.
    pub fn source_of(&mut self, l: Language, ast: &Value) -> String {
        let k = self.progs;
        self.progs += 1;
        self.write(&format!("ctl/asts/{}.json", k), ast.to_string().as_bytes());
        match l {
            Language::Solidity => format!("//SOL {}\ncontract C{} {{}}\n", k, k),
            Language::Vyper => format!("#VY {}\nx{}: uint256\n", k, k),
        }
    }

    pub fn run(&self, args: &[String]) -> Out {
        self.run_with(args, &[])
    }

    pub fn run_with(&self, args: &[String], env: &[(&str, &str)]) -> Out {
        let exe = PathBuf::from(verif_root()).join(".build/cli/debug/mutagenyx");
        let (o, e) = (self.root.join("ctl/stdout"), self.root.join("ctl/stderr"));
        let mut c = Command::new(exe);
        c.args(args)
            .current_dir(self.root.join("work"))
            .env_clear()
            .env("PATH", self.root.join("bin"))
            .env("TMPDIR", self.root.join("tmp"))
            .env("MGX_CTL", self.root.join("ctl"))
            .stdin(Stdio::null())
            .stdout(std::fs::File::create(&o).expect("stdout file"))
            .stderr(std::fs::File::create(&e).expect("stderr file"));
        for (k, v) in env {
            c.env(k, v);
        }
        unsafe {
            c.pre_exec(limits);
        }
        let st = c.status().expect("run the tool");
        let rd = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).to_string();
        Out { code: st.code(), signal: st.signal(), stdout: rd(&o), stderr: rd(&e) }
    }

    /// Run under a limit on the size of every file it writes; exceeding it is a write error, like a full disk.
    pub fn run_capped(&self, args: &[String], cap: u64) -> Out {
        extern "C" {
            fn signal(sig: i32, handler: usize) -> usize;
        }
        let mut c = Command::new(PathBuf::from(verif_root()).join(".build/cli/debug/mutagenyx"));
        c.args(args).current_dir(self.root.join("work")).env_clear().env("PATH", self.root.join("bin")).env("TMPDIR", self.root.join("tmp"));
        c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        unsafe {
            c.pre_exec(limits);
            c.pre_exec(move || {
                let l = Rlimit { cur: cap, max: cap };
                signal(25, 1); // SIGXFSZ ignored: writing fails with EFBIG
                setrlimit(1, &l);
                Ok(())
            });
        }
        let o = c.output().expect("run the tool");
        let s = |b: &[u8]| String::from_utf8_lossy(b).to_string();
        Out { code: o.status.code(), signal: o.status.signal(), stdout: s(&o.stdout), stderr: s(&o.stderr) }
    }

    /// Run with a terminal of the given width as standard output. None: no terminal to be had.
    pub fn run_tty(&self, args: &[String], cols: u16) -> Option<Out> {
        use std::io::Read;
        use std::os::fd::FromRawFd;
        extern "C" {
            fn openpty(m: *mut i32, s: *mut i32, name: *mut u8, termios: *const u8, size: *const [u16; 4]) -> i32;
        }
        let (mut m, mut s) = (-1, -1);
        let size = [50u16, cols, 0, 0];
        if unsafe { openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), &size) } != 0 {
            return None;
        }
        let (mut master, slave) = unsafe { (std::fs::File::from_raw_fd(m), std::fs::File::from_raw_fd(s)) };
        let e = self.root.join("ctl/stderr");
        let mut c = Command::new(PathBuf::from(verif_root()).join(".build/cli/debug/mutagenyx"));
        c.args(args).current_dir(self.root.join("work")).env_clear().env("TMPDIR", self.root.join("tmp"));
        c.stdin(Stdio::null()).stdout(slave).stderr(std::fs::File::create(&e).expect("stderr file"));
        unsafe {
            c.pre_exec(limits);
        }
        let mut child = c.spawn().expect("run the tool");
        drop(c); // closes our copy of the slave side
        let mut all = vec![];
        let mut buf = [0u8; 4096];
        while let Ok(n) = master.read(&mut buf) {
            if n == 0 || all.len() > 16 << 20 {
                break;
            }
            all.extend_from_slice(&buf[..n]);
        }
        if all.len() > 16 << 20 {
            let _ = child.kill();
        }
        let st = child.wait().expect("wait");
        Some(Out {
            code: st.code(),
            signal: st.signal(),
            stdout: String::from_utf8_lossy(&all).to_string(),
            stderr: String::from_utf8_lossy(&std::fs::read(&e).unwrap_or_default()).to_string(),
        })
    }

    pub fn log(&self) -> Vec<Rec> {
        let mut out = vec![];
        for l in self.read("ctl/log").unwrap_or_default().lines() {
            let v: Value = match serde_json::from_str(l) {
                Ok(v) => v,
                Err(_) => continue,
            };
            let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
            out.push(Rec {
                name: s("name"),
                kind: s("kind"),
                argv: v["argv"].as_array().unwrap_or(&vec![]).iter().map(|x| x.as_str().unwrap_or("").to_string()).collect(),
                mode: s("mode"),
                opts: v["opts"].clone(),
                file: s("file"),
                text: s("text"),
                accepted: v["accepted"] == true,
                err: v["err"].as_str().map(|s| s.to_string()),
            });
        }
        out
    }
    pub fn clear_log(&self) {
        let _ = std::fs::remove_file(self.root.join("ctl/log"));
    }

    /// Everything below the scratch root except ctl/ and bin/: path -> content ("<dir>" for directories).
    pub fn snap(&self) -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        for d in ["work", "tmp"] {
            snap_dir(&self.root.join(d), d, &mut m);
        }
        // nothing may appear next to them either
        for e in std::fs::read_dir(&self.root).into_iter().flatten().flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            if !["work", "tmp", "bin", "ctl"].contains(&n.as_str()) {
                if e.path().is_dir() {
                    m.insert(n.clone(), b"<dir>".to_vec());
                    snap_dir(&e.path(), &n, &mut m);
                } else {
                    m.insert(n, std::fs::read(e.path()).unwrap_or_default());
                }
            }
        }
        m
    }

    /// Files (not directories) below a directory of the scratch tree, names relative to it.
    pub fn files(&self, rel: &str) -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        snap_dir(&self.root.join(rel), "", &mut m);
        m.into_iter().filter(|(_, v)| v != b"<dir>").map(|(k, v)| (k.trim_start_matches('/').to_string(), v)).collect()
    }
}

fn snap_dir(p: &Path, rel: &str, m: &mut BTreeMap<String, Vec<u8>>) {
    for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
        let n = format!("{}/{}", rel, e.file_name().to_string_lossy());
        match e.file_type() {
            Ok(t) if t.is_dir() => {
                m.insert(n.clone(), b"<dir>".to_vec());
                snap_dir(&e.path(), &n, m);
            }
            _ => {
                m.insert(n, std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
}

impl Out {
    /// Err: the tool crashed or looped.
    pub fn ended(&self) -> Result<(), String> {
        if self.signal == Some(24) || self.signal == Some(9) {
            return Err("no end after 20 s of CPU time".into());
        }
        if self.signal == Some(25) {
            return Err("wrote more than 64 MB into one file".into());
        }
        if let Some(s) = self.signal {
            return Err(format!("ended by signal {}", s));
        }
        if self.code == Some(101) || self.stderr.contains("panicked at") {
            return Err(format!("panic: {}", self.stderr.chars().take(600).collect::<String>()));
        }
        Ok(())
    }
    /// Standard output without the line that tells the running time.
    pub fn text(&self) -> String {
        match self.stdout.rfind("Elapsed time: ") {
            Some(i) if self.stdout[i..].trim_end().ends_with('s') && self.stdout[i..].trim_end().lines().count() == 1 => self.stdout[..i].to_string(),
            _ => self.stdout.clone(),
        }
    }
    /// (algorithm, path) of every mutant announced, in order
    pub fn mutants(&self) -> Vec<(String, String)> {
        self.stdout.lines().filter_map(|l| l.split_once(" used to create mutant written to ").map(|(a, p)| (a.to_string(), p.to_string()))).collect()
    }
    pub fn failed(&self) -> bool {
        self.stdout.lines().any(|l| l.starts_with("Unable to "))
    }
    /// the number in "AST supports at most N different mutations", one per input
    pub fn supported(&self) -> Vec<usize> {
        self.stdout.lines().filter_map(|l| l.strip_prefix("AST supports at most ").and_then(|r| r.split(' ').next()).and_then(|n| n.parse().ok())).collect()
    }
    /// the numbers in "lowering requested mutants by N to M"
    pub fn lowered(&self) -> Vec<usize> {
        let mut v = vec![];
        for l in self.stdout.lines() {
            if let Some(i) = l.find("lowering requested mutants by ") {
                v.extend(l[i..].split(' ').filter_map(|w| w.parse::<usize>().ok()));
            }
        }
        v
    }
    /// the algorithms in "the AST contains nodes for [...]", one list per input
    pub fn usable(&self) -> Vec<Vec<String>> {
        self.stdout
            .lines()
            .filter_map(|l| l.strip_prefix("Of the requested mutation algorithms, the AST contains nodes for "))
            .map(|r| serde_json::from_str::<Vec<String>>(r).unwrap_or_default())
            .collect()
    }
}

// ------------------------------------------------------------------ requests

#[derive(Clone, Default, Debug)]
pub struct Req {
    pub files: Vec<String>,
    pub out: Option<String>,
    pub seed: Option<i64>,
    pub num: Option<usize>,
    pub muts: Vec<String>,
    pub all: bool,
    pub fns: Vec<String>,
    pub print_original: bool,
    pub save: bool,
    pub stdout: bool,
    pub validate: bool,
    pub c: Comp,
}

/// Compiler settings
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Comp {
    pub solc: Option<String>,
    pub base: Option<String>,
    pub inc: Vec<String>,
    pub allow: Vec<String>,
    pub remap: Vec<String>,
    pub stop: Option<String>,
    pub vyper: Option<String>,
    pub vroot: Option<String>,
}

impl Comp {
    pub fn args(&self, a: &mut Vec<String>) {
        let mut one = |k: &str, v: &Option<String>| {
            if let Some(v) = v {
                a.push(k.into());
                a.push(v.clone());
            }
        };
        one("--solidity-compiler", &self.solc);
        one("--solidity-base-path", &self.base);
        one("--solidity-stop-after", &self.stop);
        one("--vyper-compiler", &self.vyper);
        one("--vyper-root-path", &self.vroot);
        for (k, l) in [("--solidity-include-path", &self.inc), ("--solidity-allow-paths", &self.allow), ("--solidity-remapping", &self.remap)] {
            for v in l {
                a.push(k.into());
                a.push(v.clone());
            }
        }
    }
}

impl Req {
    pub fn mutate(&self) -> Vec<String> {
        let mut a: Vec<String> = vec!["mutate".into()];
        let mut kv = |k: &str, v: String| {
            a.push(k.into());
            a.push(v);
        };
        if let Some(o) = &self.out {
            kv("-o", o.clone());
        }
        for f in &self.files {
            kv("-f", f.clone());
        }
        if let Some(s) = self.seed {
            kv("--rng-seed", s.to_string());
        }
        if let Some(n) = self.num {
            kv("--num-mutants", n.to_string());
        }
        for m in &self.muts {
            kv("--mutation", m.clone());
        }
        for f in &self.fns {
            kv("--function", f.clone());
        }
        for (k, b) in [
            ("-a", self.all),
            ("--print-original", self.print_original),
            ("--save-config-files", self.save),
            ("--stdout", self.stdout),
            ("--validate-mutants", self.validate),
        ] {
            if b {
                a.push(k.into());
            }
        }
        self.c.args(&mut a);
        a
    }
    pub fn pretty(&self) -> Vec<String> {
        let mut a: Vec<String> = vec!["pretty-print".into()];
        if let Some(o) = &self.out {
            a.push("-o".into());
            a.push(o.clone());
        }
        for f in &self.files {
            a.push("-f".into());
            a.push(f.clone());
        }
        if self.stdout {
            a.push("--stdout".into());
        }
        self.c.args(&mut a);
        a
    }
}

// ------------------------------------------------------------------ the stand-in compilers

/// How the stand-in judges a program: a function of the text alone.
pub fn verdict(spec: &Value, text: &str, parsing_only: bool) -> bool {
    let h = mix(spec["salt"].as_u64().unwrap_or(0), hash_bytes(text.as_bytes()));
    let reject = spec["reject"].as_u64().unwrap_or(0);
    if h % 100 >= reject {
        return true;
    }
    parsing_only && (h / 100) % 100 < spec["parse_ok"].as_u64().unwrap_or(0)
}

/// Is this process one of the stand-ins?
pub fn stand_in() -> Option<i32> {
    let ctl = PathBuf::from(std::env::var_os("MGX_CTL")?);
    let a0 = std::env::args_os().next()?;
    let name = Path::new(&a0).file_name()?.to_string_lossy().to_string();
    let argv: Vec<String> = std::env::args_os().skip(1).map(|a| a.to_string_lossy().to_string()).collect();
    Some(compile(&ctl, &name, argv))
}

fn compile(ctl: &Path, name: &str, argv: Vec<String>) -> i32 {
    let plan: Value = std::fs::read_to_string(ctl.join("plan.json")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null);
    let spec = &plan[name];
    let kind = spec["kind"].as_str().unwrap_or("").to_string();
    let (mode, opts, file, err) = match kind.as_str() {
        "sol" => solc_args(&argv),
        "vy" => vyper_args(&argv),
        "docker" => {
            // docker run -v dir:/code vyperlang/vyper <vyper arguments>
            if argv.len() >= 4 && argv[0] == "run" && argv[1] == "-v" && argv[3] == "vyperlang/vyper" {
                vyper_args(&argv[4..])
            } else {
                ("bad".into(), json!({}), String::new(), Some("docker arguments".to_string()))
            }
        }
        _ => ("bad".into(), json!({}), String::new(), Some("no plan".to_string())),
    };
    let bytes = if file.is_empty() { vec![] } else { std::fs::read(&file).unwrap_or_default() };
    let text = String::from_utf8_lossy(&bytes).to_string();
    let fault = spec["fault"].as_str().unwrap_or("");
    let mut ok = err.is_none();
    let mut ast: Option<String> = None;
    if ok {
        match mode.as_str() {
            "version" => ok = fault != "noversion",
            "ast" => {
                let head = if kind == "sol" { "//SOL " } else { "#VY " };
                let k = text.lines().next().unwrap_or("").strip_prefix(head).map(|s| s.to_string());
                ast = k.and_then(|k| std::fs::read_to_string(ctl.join("asts").join(format!("{}.json", k.trim()))).ok());
                ok = ast.is_some();
            }
            _ => ok = !file.is_empty() && Path::new(&file).is_file() && verdict(spec, &text, opts["stop"] == json!(["parsing"])),
        }
    }
    let rec = json!({"name": name, "kind": kind, "argv": argv, "mode": mode, "opts": opts, "file": file, "text": text, "accepted": ok, "err": err});
    if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(ctl.join("log")) {
        let _ = f.write_all(format!("{}\n", rec).as_bytes());
    }
    if let Some(k) = spec["kill_at"].as_u64() {
        // the tool dies while its k-th mutant is at the compiler
        let n = std::fs::read_to_string(ctl.join("log")).unwrap_or_default().matches("\"mode\":\"compile\"").count() as u64;
        if mode == "compile" && n >= k {
            kill_tool();
        }
    }
    let mut so = std::io::stdout();
    let mut se = std::io::stderr();
    if mode == "version" && ok {
        let _ = so.write_all(spec["version"].as_str().unwrap_or("0.3.7+commit.6020b8b\n").as_bytes());
        return 0;
    }
    if !ok {
        if spec["noise"] == true {
            let _ = so.write_all(b"\xff\xfe broken \x80 text\n");
            let _ = se.write_all(b"Error: \xc3\x28 \xe2\x82 at line 1\n");
        } else {
            let _ = se.write_all(b"Error: rejected\n");
        }
        if spec["abort"] == true {
            extern "C" {
                fn abort() -> !;
            }
            unsafe { abort() }
        }
        return 1;
    }
    if let Some(a) = ast {
        let data: Option<String> = match fault {
            "nofile" => None,
            "empty" => Some(String::new()),
            "trunc" => Some(a[..a.len() / 2].to_string()),
            "notjson" => Some("this is not JSON".into()),
            "other" => Some("{\"some\": [\"other\", \"JSON\"]}".into()),
            _ => Some(a),
        };
        let base = Path::new(&file).file_name().map(|x| x.to_string_lossy().to_string()).unwrap_or_default();
        let out = opts["out"].as_str().unwrap_or("");
        if let Some(d) = data {
            if kind == "sol" {
                // like solc: the output directory is created
                let _ = std::fs::create_dir_all(out);
                let _ = std::fs::write(Path::new(out).join(format!("{}_json.ast", base)), d);
            } else if out.is_empty() {
                let _ = so.write_all(d.as_bytes());
                let _ = so.write_all(b"\n");
            } else {
                let _ = std::fs::write(out, d);
            }
        }
    } else if kind == "sol" && spec["artifacts"] == true {
        // solc may leave artefacts in the output directory
        let out = opts["out"].as_str().unwrap_or("");
        if !out.is_empty() {
            let _ = std::fs::create_dir_all(out);
            let _ = std::fs::write(Path::new(out).join("C.bin"), "00");
        }
    }
    0
}

/// End the tool that started this stand-in, and nothing else.
fn kill_tool() {
    extern "C" {
        fn getppid() -> i32;
        fn kill(pid: i32, sig: i32) -> i32;
    }
    unsafe {
        let p = getppid();
        let exe = std::fs::read_link(format!("/proc/{}/exe", p)).unwrap_or_default();
        if p > 1 && exe.file_name().map(|n| n == "mutagenyx").unwrap_or(false) {
            kill(p, 9);
        }
    }
}

/// Like solc reads its command line.
fn solc_args(argv: &[String]) -> (String, Value, String, Option<String>) {
    let mut single: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    let (mut inc, mut remap, mut files) = (vec![], vec![], vec![]);
    let mut ast = false;
    let mut err: Option<String> = None;
    let mut i = 0;
    while i < argv.len() {
        let (k, mut v) = match argv[i].split_once('=') {
            Some((k, v)) if k.starts_with("--") => (k.to_string(), Some(v.to_string())),
            _ => (argv[i].clone(), None),
        };
        let mut val = |i: &mut usize| -> String {
            if let Some(v) = v.take() {
                return v;
            }
            *i += 1;
            argv.get(*i).cloned().unwrap_or_default()
        };
        match k.as_str() {
            "--base-path" => single.entry("base").or_default().push(val(&mut i)),
            "--allow-paths" => single.entry("allow").or_default().push(val(&mut i)),
            "--stop-after" => single.entry("stop").or_default().push(val(&mut i)),
            "-o" | "--output-dir" => single.entry("out").or_default().push(val(&mut i)),
            "--include-path" => inc.push(val(&mut i)),
            "--overwrite" => {}
            "--ast-compact-json" => ast = true,
            x if x.starts_with('-') => err = Some(format!("unrecognised option {}", x)),
            _ if argv[i].contains('=') => remap.push(argv[i].clone()),
            _ => files.push(argv[i].clone()),
        }
        i += 1;
    }
    for (k, v) in &single {
        if v.len() > 1 {
            err = Some(format!("option {} cannot be specified more than once", k));
        }
    }
    if files.len() != 1 {
        err = Some(format!("{} input files", files.len()));
    }
    let get = |k: &str| single.get(k).cloned().unwrap_or_default();
    let allow: Vec<Vec<String>> = get("allow").iter().map(|s| s.split(',').map(|x| x.to_string()).collect()).collect();
    let opts = json!({"base": get("base"), "inc": inc, "allow": allow, "remap": remap, "stop": get("stop"),
        "out": get("out").first().cloned().unwrap_or_default(), "files": files});
    let mode = if ast { "ast" } else { "compile" };
    (mode.into(), opts, files.first().cloned().unwrap_or_default(), err)
}

/// Like vyper reads its command line.
fn vyper_args(argv: &[String]) -> (String, Value, String, Option<String>) {
    let (mut roots, mut outs, mut fmts, mut files): (Vec<String>, Vec<String>, Vec<String>, Vec<String>) = Default::default();
    let mut err = None;
    let mut version = false;
    let mut i = 0;
    while i < argv.len() {
        let nxt = argv.get(i + 1).cloned().unwrap_or_default();
        match argv[i].as_str() {
            "--version" => version = true,
            "-p" => {
                roots.push(nxt);
                i += 1;
            }
            "-o" => {
                outs.push(nxt);
                i += 1;
            }
            "-f" => {
                fmts.push(nxt);
                i += 1;
            }
            x if x.starts_with('-') => err = Some(format!("unrecognized argument {}", x)),
            _ => files.push(argv[i].clone()),
        }
        i += 1;
    }
    if !version && files.len() != 1 {
        err = Some(format!("{} input files", files.len()));
    }
    let mode = if version {
        "version"
    } else if fmts == ["ast"] {
        "ast"
    } else if fmts.is_empty() {
        "compile"
    } else {
        "bad"
    };
    let opts = json!({"root": roots, "out": outs.first().cloned().unwrap_or_default(), "files": files});
    (mode.into(), opts, files.first().cloned().unwrap_or_default(), err)
}
