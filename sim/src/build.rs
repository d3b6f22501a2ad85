//! From grammars to running programs: prints them, has rustc (and so the tree's pomelo)
//! compile them, sorts out those it refuses, and starts the simulation processes.

use crate::{Ctl, harness};
use pomsim::emit;
use pomsim::ir::Gram;
use pomsim::json::J;
use pomsim::model::Gx;
use pomsim::rng::mix;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// A directory that goes away again.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(c: &Ctl, what: &str) -> Scratch {
        let p = c.home.join("target/scratch").join(format!("{what}-{}-{}", if c.prop.contains('/') { "x" } else { &c.prop }, std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        if let Err(e) = std::fs::create_dir_all(&p) {
            harness(&format!("cannot make {}: {e}", p.display()));
        }
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Debug)]
pub enum End {
    Exit(i32),
    Signal(i32),
    Timeout,
}

/// Waits for a process, up to a deadline; then it is killed.
pub fn wait(ch: &mut Child, limit: Duration) -> End {
    use std::os::unix::process::ExitStatusExt;
    let t0 = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(s)) => return s.code().map_or_else(|| End::Signal(s.signal().unwrap_or(0)), End::Exit),
            Ok(None) => (),
            Err(e) => harness(&format!("wait: {e}")),
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return End::Timeout;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 200 { 2 } else { 10 }));
    }
}

pub fn in_parallel<T: Send, R: Send>(width: usize, items: Vec<T>, f: impl Fn(T) -> R + Sync) -> Vec<R> {
    let n = items.len();
    let queue = std::sync::Mutex::new(items.into_iter().enumerate());
    let out: std::sync::Mutex<Vec<Option<R>>> = std::sync::Mutex::new((0..n).map(|_| None).collect());
    std::thread::scope(|s| {
        for _ in 0..width.min(n.max(1)) {
            s.spawn(|| {
                loop {
                    let Some((i, x)) = queue.lock().unwrap().next() else { break };
                    let r = f(x);
                    out.lock().unwrap()[i] = Some(r);
                }
            });
        }
    });
    out.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
}

pub fn rustc(c: &Ctl) -> Command {
    let t = c.home.join("target/release");
    let mut k = Command::new("sh");
    k.arg("-c").arg("ulimit -v 6000000; ulimit -c 0; exec rustc \"$@\"").arg("rustc");
    k.args(["--edition", "2021", "-C", "debuginfo=0", "--cap-lints", "allow"]);
    k.arg("--extern").arg(format!("pomsim={}", t.join("libpomsim.rlib").display()));
    k.arg("-L").arg(format!("dependency={}", t.join("deps").display()));
    k.stdin(Stdio::null()).stdout(Stdio::null());
    k
}

/// Error messages of rustc's JSON output: message, error code, and the files they point at.
pub struct Diag {
    pub msg: String,
    pub code: String,
    pub files: BTreeSet<String>,
    pub at: Vec<(String, i64, i64, i64, i64)>,
    pub rest: Vec<String>,
    pub level: String,
}
pub fn diags(text: &str) -> Vec<Diag> {
    fn files(j: &J, out: &mut BTreeSet<String>) {
        match j {
            J::Obj(m) => {
                if let Some(J::Str(s)) = m.get("file_name") {
                    out.insert(Path::new(s).file_name().map(|x| x.to_string_lossy().into_owned()).unwrap_or_default());
                }
                m.values().for_each(|v| files(v, out));
            }
            J::Arr(v) => v.iter().for_each(|v| files(v, out)),
            _ => (),
        }
    }
    let mut v = Vec::new();
    for l in text.lines() {
        let Ok(j) = J::parse(l) else { continue };
        let level = j.get("level").str().to_string();
        if !matches!(level.as_str(), "error" | "warning" | "error: internal compiler error") {
            continue;
        }
        let mut f = BTreeSet::new();
        files(j.get("spans"), &mut f);
        let at = j
            .get("spans")
            .arr()
            .iter()
            .map(|s| {
                let base = Path::new(s.get("file_name").str()).file_name().map(|x| x.to_string_lossy().into_owned()).unwrap_or_default();
                (base, s.get("line_start").int(), s.get("column_start").int(), s.get("line_end").int(), s.get("column_end").int())
            })
            .collect();
        let rest = j.get("children").arr().iter().map(|c| format!("{}: {}", c.get("level").str(), c.get("message").str())).collect();
        v.push(Diag { msg: j.get("message").str().to_string(), code: j.get("code").get("code").str().to_string(), files: f, at, rest, level });
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    /// pomelo reports something about the grammar.
    Diagnostic,
    /// The macro panics.
    MacroPanic,
    /// The macro does not come to an end.
    Hang,
    /// rustc refuses the generated code.
    Code,
}
pub struct Refused {
    pub gram: Gram,
    pub how: How,
    pub text: String,
}

pub struct Shard {
    pub dir: PathBuf,
    pub grams: Vec<Gram>,
    pub n: usize,
}
impl Shard {
    pub fn bin(&self) -> PathBuf {
        self.dir.join("sim")
    }
    pub fn json(&self) -> PathBuf {
        self.dir.join("corpus.json")
    }
}

pub struct Corpus {
    pub shards: Vec<Shard>,
    pub refused: Vec<Refused>,
    pub states: usize,
    pub tags: BTreeMap<String, u64>,
    pub features: BTreeMap<String, u64>,
    pub compile_s: f64,
}

fn classify(d: &Diag) -> How {
    if d.msg.contains("panicked") {
        How::MacroPanic
    } else if d.code.is_empty() {
        How::Diagnostic
    } else {
        How::Code
    }
}

/// One shard: prints and compiles it; what is refused is left out.
fn build_shard(c: &Ctl, dir: &Path, gxs: &[&Gx]) -> (Shard, Vec<Refused>) {
    let _ = std::fs::create_dir_all(dir);
    let put = |name: &str, s: &str| {
        if let Err(e) = std::fs::write(dir.join(name), s) {
            harness(&format!("{name}: {e}"));
        }
    };
    for (i, g) in gxs.iter().enumerate() {
        put(&format!("g{i:03}.rs"), &emit::source(&g.g));
    }
    let sh = Shard { dir: dir.to_path_buf(), grams: gxs.iter().map(|g| g.g.clone()).collect(), n: gxs.len() };
    put("corpus.json", &J::Arr(sh.grams.iter().map(|g| g.to_json()).collect()).to_string());
    let mut skip = vec![false; gxs.len()];
    let mut refused = Vec::new();
    let mut alone = false;
    for _try in 0..12 {
        if skip.iter().all(|s| *s) {
            break;
        }
        put("main.rs", &emit::main_source(gxs.len(), &skip));
        let err = std::fs::File::create(dir.join("err")).unwrap_or_else(|e| harness(&e.to_string()));
        let mut k = rustc(c);
        k.args(["--error-format=json", "-C", "opt-level=1", "-C", "overflow-checks=on", "-C", "debug-assertions=on", "-C", "codegen-units=2", "-o"]);
        k.arg(sh.bin()).arg(dir.join("main.rs")).stderr(err);
        let mut ch = k.spawn().unwrap_or_else(|e| harness(&format!("rustc: {e}")));
        let end = wait(&mut ch, Duration::from_secs(300));
        if let End::Exit(0) = end {
            return (sh, refused);
        }
        let text = std::fs::read_to_string(dir.join("err")).unwrap_or_default();
        let mut found: BTreeMap<usize, (How, String)> = BTreeMap::new();
        for d in diags(&text).into_iter().filter(|d| d.level.starts_with("error")) {
            for f in &d.files {
                if let Some(i) = f.strip_prefix('g').and_then(|x| x.strip_suffix(".rs")).and_then(|x| x.parse::<usize>().ok()) {
                    if i < skip.len() && !skip[i] {
                        let h = classify(&d);
                        found.entry(i).or_insert((h, format!("{} {} {}", d.code, d.msg, d.rest.join(" "))));
                    }
                }
            }
        }
        if found.is_empty() {
            if alone {
                harness(&format!("cannot compile the corpus in {}: {end:?}: {}", dir.display(), text.chars().take(3000).collect::<String>()));
            }
            // a hang, or nothing that points at a grammar: each on its own
            alone = true;
            for i in 0..gxs.len() {
                if skip[i] {
                    continue;
                }
                let err = std::fs::File::create(dir.join("err1")).unwrap_or_else(|e| harness(&e.to_string()));
                let mut k = rustc(c);
                k.args(["--crate-type=lib", "--emit=metadata", "--error-format=json", "-o"]).arg(dir.join("one.rmeta"));
                k.arg(dir.join(format!("g{i:03}.rs"))).stderr(err);
                let mut ch = k.spawn().unwrap_or_else(|e| harness(&format!("rustc: {e}")));
                let end = wait(&mut ch, Duration::from_secs(40));
                match end {
                    End::Exit(0) => (),
                    End::Timeout => {
                        found.insert(i, (How::Hang, "the macro does not come to an end".into()));
                    }
                    e => {
                        let text = std::fs::read_to_string(dir.join("err1")).unwrap_or_default();
                        let d = diags(&text).into_iter().find(|d| d.level.starts_with("error"));
                        let how = d.as_ref().map_or(How::Hang, classify);
                        found.insert(i, (how, d.map_or_else(|| format!("rustc ended with {e:?}"), |d| d.msg)));
                    }
                }
                if found.values().filter(|f| f.0 == How::Hang).count() >= 3 {
                    // enough is known; nothing of this shard is run
                    skip.iter_mut().for_each(|s| *s = true);
                    break;
                }
            }
            if found.is_empty() {
                harness(&format!("cannot compile the corpus in {}: {end:?}: {}", dir.display(), text.chars().take(3000).collect::<String>()));
            }
        }
        for (i, (how, text)) in found {
            skip[i] = true;
            refused.push(Refused { gram: gxs[i].g.clone(), how, text });
        }
    }
    (Shard { n: 0, ..sh }, refused)
}

impl Corpus {
    pub fn build(c: &Ctl, dir: &Path, gxs: Vec<Gx>) -> Corpus {
        Corpus::build_with(c, dir, gxs, c.width, 0)
    }
    pub fn build_with(c: &Ctl, dir: &Path, gxs: Vec<Gx>, width: usize, _n: usize) -> Corpus {
        let t0 = Instant::now();
        let states = gxs.iter().map(|g| g.t.act.len()).sum();
        let mut tags = BTreeMap::new();
        let mut features: BTreeMap<String, u64> = BTreeMap::new();
        for g in &gxs {
            for t in &g.g.tags {
                *tags.entry(t.clone()).or_default() += 1;
            }
            let g = &g.g;
            for (k, v) in [
                ("error symbol", g.err_sym.is_some()),
                ("fallback", !g.fallback.is_empty()),
                ("wildcard", g.wildcard.is_some()),
                ("optional symbols", g.rules.iter().any(|r| r.rhs.iter().any(|i| i.opt))),
                ("token classes", !g.classes.is_empty()),
                ("precedence", !g.assoc.is_empty()),
                ("extra argument", g.extra_arg),
                ("error type", g.err_ty),
                ("default type", g.default_type.is_some()),
                ("extra token", g.extra_token),
                ("generic", g.generic),
                ("own stack type", g.simstack),
                ("stack limit", g.limit.is_some()),
                ("unlimited stack", g.limit == Some(0)),
                ("syntax_error hook", g.has_syn),
                ("parse_fail hook", g.has_pfail),
                ("stack_overflow hook", g.has_ovf),
            ] {
                *features.entry(k.into()).or_default() += v as u64;
            }
        }
        let width = width.min(gxs.len()).max(1);
        let parts: Vec<(usize, Vec<&Gx>)> = (0..width).map(|s| (s, gxs.iter().enumerate().filter(|(i, _)| i % width == s).map(|x| x.1).collect())).collect();
        let built = in_parallel(c.width, parts, |(s, v)| build_shard(c, &dir.join(format!("s{s}")), &v));
        let mut shards = Vec::new();
        let mut refused = Vec::new();
        for (s, r) in built {
            shards.push(s);
            refused.extend(r);
        }
        Corpus { shards, refused, states, tags, features, compile_s: t0.elapsed().as_secs_f64() }
    }

    /// The simulation processes of one round.
    pub fn run_all(&self, c: &Ctl, round: u64, runs: u64, secs: u64) -> Vec<ShardOut> {
        let items: Vec<usize> = (0..self.shards.len()).filter(|s| self.shards[*s].n > 0).collect();
        in_parallel(c.width, items, |s| {
            let mut attempt = 0;
            loop {
                let seed = mix(c.seed, round * 1000 + attempt);
                let mut o = run_shard(c, &self.shards[s], s, seed, runs, secs, "");
                o.lost = attempt;
                // a crash that is not this property's matter: go on elsewhere
                if o.end == "ok" || attempt >= 4 || crate::verdict::crash_props(&o.end).contains(&c.prop.as_str()) {
                    return o;
                }
                attempt += 1;
            }
        })
    }
}

pub struct ShardOut {
    pub shard: usize,
    pub seed: u64,
    /// "ok", "crash N" or "hang"
    pub end: String,
    pub result: J,
    /// The run in progress when it ended.
    pub progress: J,
    pub lost: u64,
}

pub fn run_shard(c: &Ctl, sh: &Shard, shard: usize, seed: u64, runs: u64, secs: u64, tag: &str) -> ShardOut {
    let prog = sh.dir.join(format!("progress{tag}"));
    let out = sh.dir.join(format!("out{tag}.json"));
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::remove_file(&prog);
    let mut k = Command::new("sh");
    k.arg("-c").arg("ulimit -v 3500000; ulimit -c 0; exec \"$@\"").arg("sim").arg(sh.bin()).arg("run").arg(sh.json());
    k.arg(&c.prop).arg(seed.to_string()).arg(shard.to_string()).arg(runs.to_string()).arg(secs.to_string());
    k.arg(&prog).arg(&out).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    let mut ch = k.spawn().unwrap_or_else(|e| harness(&format!("sim: {e}")));
    let end = wait(&mut ch, Duration::from_secs(secs * 2 + 60));
    let progress = std::fs::read_to_string(&prog).ok().and_then(|s| J::parse(&s).ok()).unwrap_or(J::Null);
    let result = std::fs::read_to_string(&out).ok().and_then(|s| J::parse(&s).ok()).unwrap_or(J::Null);
    let end = match end {
        End::Exit(0) => "ok".to_string(),
        End::Exit(87) | End::Timeout => "hang".into(),
        End::Signal(n) => format!("crash signal {n}"),
        End::Exit(n) if n > 128 => format!("crash signal {}", n - 128),
        End::Exit(n) => harness(&format!("a simulation process failed with code {n} (shard {shard}); {}", progress.to_string().chars().take(400).collect::<String>())),
    };
    ShardOut { shard, seed, end, result, progress, lost: 0 }
}
