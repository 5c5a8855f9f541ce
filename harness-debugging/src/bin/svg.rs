//! C16: diagnostic SVG output. Each case runs in a process of its own (the configuration is the environment), as an
//! unprivileged user where possible, inside a scratch directory of its own.
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::os::unix::{fs::PermissionsExt, process::CommandExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use tri_verif::case::*;
use tri_verif::gen;
use tri_verif::geom::*;
use tri_verif::rng::Rng;
use tri_verif::run::*;
use triangulate::{formats, ListFormat, PolygonList};

const NOBODY: u32 = 65534;
const PATHS: [&str; 7] = ["unset", "existing", "missing", "a file", "unwritable", "relative", "already used"];
const LEVELS: [Option<&str>; 8] = [None, Some("0"), Some("1"), Some("2"), Some("3"), Some("4"), Some("all"), Some("")];

struct Scratch(PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

fn base() -> &'static Path {
    static B: OnceLock<PathBuf> = OnceLock::new();
    B.get_or_init(|| {
        let b = std::env::temp_dir().join(format!("tri-verif-svg-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&b);
        std::fs::create_dir_all(&b).expect("scratch");
        std::fs::set_permissions(&b, std::fs::Permissions::from_mode(0o755)).expect("scratch");
        std::fs::copy(std::env::current_exe().unwrap(), b.join("svg")).expect("copy");
        std::fs::set_permissions(b.join("svg"), std::fs::Permissions::from_mode(0o755)).expect("scratch");
        b
    })
}

fn open(dir: &Path, mode: u32) { std::fs::create_dir_all(dir).expect("dir"); std::fs::set_permissions(dir, std::fs::Permissions::from_mode(mode)).expect("mode"); }

/// All files and directories below, with file contents' length
fn listing(d: &Path, rel: &str, out: &mut Vec<String>) {
    let mut e: Vec<_> = std::fs::read_dir(d).map(|r| r.flatten().collect()).unwrap_or_default();
    e.sort_by_key(|e| e.file_name());
    for e in e {
        let r = format!("{rel}/{}", e.file_name().to_string_lossy());
        if e.file_type().map_or(false, |t| t.is_dir()) { out.push(format!("{r}/")); listing(&e.path(), &r, out); } else { out.push(r); }
    }
}

fn child() -> ! {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let c = Case::from_json(&serde_json::from_str(&s).unwrap()).unwrap();
    let l = nested(&c, &c.set, |v: [f64; 2], _| v);
    rand::verif_seed(c.order.seed, c.order.bias);
    let r = if c.param(4) == 0 { l.triangulate(formats::IndexedListFormat::new(Vec::<[[usize; 2]; 3]>::new()).into_fan_format()).map_err(|e| e.to_string()) }
        else { l.trapezoidize().map_err(|e| e.to_string()).and_then(|t| t.triangulate(formats::IndexedListFormat::new(Vec::<[[usize; 2]; 3]>::new()).into_fan_format()).map_err(|e| e.to_string())) };
    println!("{}", match r { Ok(t) => json!({ "ok": t }), Err(e) => json!({ "err": e }) });
    std::process::exit(0)
}

pub struct C16;
impl Prop for C16 {
    fn id(&self) -> &'static str { "C16" }
    fn rule(&self) -> &'static str { "valid set of up to 24 vertices x insertion order x output path (unset, existing, missing, a regular file, without write permission, relative, already holding the output of an earlier run) x level (unset, 0-3, unknown values) x labels x one or two steps, each in a process of its own with an own scratch directory. Oracle: the triangles tile the region exactly; nothing appears outside the configured directory, nothing at all without path or with level none; at levels 2 and 3 a usable empty directory receives one numbered folder per polygon edge, each with well-formed SVG files; earlier files elsewhere keep their content. Non-trivial: level 2 or 3 and a path are configured." }
    fn cases(&self, thorough: bool) -> u64 { if thorough { 300_000 } else { 12_000 } }
    fn in_domain(&self, c: &Case) -> bool { is_valid(&c.set) && !c.set.is_empty() && (c.n() <= 40 || c.n() < 300 && c.param(1) == 3) }
    fn gen(&self, rng: &mut Rng, _: u64, _: bool) -> Case {
        loop {
            // more edges than two digits have, once in a while, with few files per edge
            let big = rng.chance(1, 3000);
            let mv = *rng.pick(&[6, 12, 24]);
            let (fam, set) = if big { let n = *rng.pick(&[98, 125, 262]) + rng.below(6); ("many edges", gen::convex(rng, n)) } else { gen::any_set(rng, mv) };
            let mut c = Case::new(fam, set, Order { seed: rng.u64() >> 16, bias: 0 });
            if big { c.p = vec![1, 3, rng.below(2) as u64, rng.below(2) as u64, rng.below(2) as u64]; return c; }
            if c.n() > 40 { continue; }
            if rng.chance(1, 4) { c.exp = rng.range(-200, 200) as i32; }
            c.p = vec![rng.below(PATHS.len()) as u64, *rng.pick(&[0, 1, 2, 3, 3, 4, 4, 4, 5, 6, 7]), rng.below(2) as u64, rng.below(2) as u64, rng.below(2) as u64];
            return c;
        }
    }
    fn cleanup(&self) { let _ = std::fs::remove_dir_all(base()); }
    fn eval(&self, c: &Case) -> Verdict {
        static NEXT: AtomicU64 = AtomicU64::new(0);
        let (path, level) = (c.param(0) as usize % PATHS.len(), LEVELS[c.param(1) as usize % LEVELS.len()]);
        let root = Scratch(base().join(NEXT.fetch_add(1, Ordering::Relaxed).to_string()));
        let d = &root.0;
        for s in ["", "cwd", "out", "cwd/rel", "tmp"] { open(&d.join(s), 0o777); }
        open(&d.join("locked"), 0o555);
        std::fs::write(d.join("file"), "mine").unwrap();
        std::fs::write(d.join("cwd/keep"), "mine").unwrap();
        let (value, below) = match path { 0 => (None, None), 1 | 6 => (Some(d.join("out")), Some("/out/")), 2 => (Some(d.join("out/not/there")), None), 3 => (Some(d.join("file")), None), 4 => (Some(d.join("locked")), Some("/locked/")), _ => (Some(PathBuf::from("rel")), Some("/cwd/rel/")) };
        let run = || -> Result<Value, String> {
            let spawn = |drop: bool| {
                let mut cmd = Command::new(base().join("svg"));
                cmd.arg("child").current_dir(d.join("cwd")).env_clear().env("TMPDIR", d.join("tmp")).env("HOME", d.join("cwd")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
                if let Some(p) = &value { cmd.env("TRIANGULATE_SVG_OUTPUT_PATH", p); }
                if let Some(l) = level { cmd.env("TRIANGULATE_SVG_OUTPUT_LEVEL", l); }
                if c.param(2) == 1 { cmd.env("TRIANGULATE_SVG_HIDE_LABELS", if c.param(3) == 1 { "1" } else { "" }); }
                if drop { cmd.uid(NOBODY).gid(NOBODY); }
                cmd.spawn()
            };
            let mut ch = spawn(true).or_else(|_| spawn(false)).expect("spawn");
            ch.stdin.take().unwrap().write_all(c.json().to_string().as_bytes()).map_err(|e| e.to_string())?;
            let o = ch.wait_with_output().map_err(|e| e.to_string())?;
            if !o.status.success() { return Err(format!("{} {}", o.status, String::from_utf8_lossy(&o.stderr).lines().next().unwrap_or(""))); }
            serde_json::from_slice(&o.stdout).map_err(|e| format!("no answer: {e}"))
        };
        let config = format!("path {}, level {:?}, labels {}", PATHS[path], level, c.param(2) == 0);
        if path == 6 { if let Err(m) = run() { return Verdict::Fail(format!("{config}: {m}")); } }
        let mut before = Vec::new();
        listing(d, "", &mut before);
        let r = match run() { Ok(r) => r, Err(m) => return Verdict::Fail(format!("{config}: {m}")) };
        let mut after = Vec::new();
        listing(d, "", &mut after);
        let Some(t) = r["ok"].as_array() else { return Verdict::Fail(format!("{config}: {}", r["err"])) };
        let t: Vec<[[usize; 2]; 3]> = t.iter().map(|t| [0, 1, 2].map(|k| [0, 1].map(|j| t[k][j].as_u64().unwrap_or(u64::MAX) as usize))).collect();
        if t.iter().flatten().any(|[p, v]| *p >= c.set.len() || *v >= c.set[*p].len()) { return Verdict::Fail(format!("{config}: an index that does not exist")); }
        if let Err(m) = judge(&Region::new(&c.set), &expand(&from_pairs(&c.set, t)), true) { return Verdict::Fail(format!("{config}: {m}")); }
        let on = matches!(level, Some("1" | "2" | "3")) && path != 0;
        for f in &after {
            if before.contains(f) { continue; }
            if !on { return Verdict::Fail(format!("{config}: {f} appears")); }
            if !below.map_or(false, |b| f.starts_with(b)) { return Verdict::Fail(format!("{config}: {f} appears outside of the output directory")); }
        }
        if let Some(f) = before.iter().find(|f| !after.contains(f)) { return Verdict::Fail(format!("{config}: {f} disappears")); }
        for f in ["file", "cwd/keep"] { if std::fs::read_to_string(d.join(f)).ok().as_deref() != Some("mine") { return Verdict::Fail(format!("{config}: {f} was changed")); } }
        let steps = on && level != Some("1");
        if on && !steps { if let Some(f) = after.iter().find(|f| !before.contains(f) && f.trim_end_matches('/').rsplit('/').next().map_or(false, |n| n.len() >= 3 && n.bytes().all(|b| b.is_ascii_digit()))) { return Verdict::Fail(format!("{config}: step folder {f} appears")); } }
        if steps && (path == 1 || path == 5) {
            let out = d.join(if path == 1 { "out" } else { "cwd/rel" });
            let mut got = Vec::new();
            for e in std::fs::read_dir(&out).unwrap().flatten() { got.push(e.file_name().to_string_lossy().to_string()); }
            got.sort();
            let want: Vec<String> = (0..c.n()).map(|k| format!("{k:03}")).collect();
            if got != want { return Verdict::Fail(format!("{config}: {} edges, but the output directory has {got:?}", c.n())); }
            for f in &want {
                let mut svgs = 0;
                for e in std::fs::read_dir(out.join(f)).unwrap().flatten() {
                    if e.path().extension().map_or(true, |x| x != "svg") { continue; }
                    svgs += 1;
                    let s = std::fs::read_to_string(e.path()).unwrap_or_default();
                    if c.param(2) == 1 && s.contains("<text") { return Verdict::Fail(format!("{config}: {f}/{} has labels", e.file_name().to_string_lossy())); }
                    if c.param(2) == 0 && !s.contains("<text") { return Verdict::Fail(format!("{config}: {f}/{} has no labels", e.file_name().to_string_lossy())); }
                    if !s.starts_with("<svg") || !s.trim_end().ends_with("</svg>") { return Verdict::Fail(format!("{config}: {f}/{} is no SVG", e.file_name().to_string_lossy())); }
                }
                if svgs == 0 { return Verdict::Fail(format!("{config}: no SVG in {f}")); }
            }
        }
        Verdict::Pass(steps, vec![PATHS[path], match level { None => "level unset", Some("0") => "level 0", Some("1") => "level 1", Some("2") => "level 2", Some("3") => "level 3", _ => "level unknown" }])
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("child") { child() }
    tri_verif::driver::main(|| vec![Box::new(C16)])
}
