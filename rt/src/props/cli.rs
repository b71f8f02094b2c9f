//! C18: the command-line indexer, run in scratch directories and compared before and after.
use super::{spelling, store};
use crate::ctx::{hash_bytes, short, Ctx};
use crate::gen::{self, Cat, Shape};
use crate::prng::Rng;
use serde_json::json;
use std::collections::BTreeMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(number: i32, handler: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;
const RLIMIT_CORE: i32 = 4;
const SIGXFSZ: i32 = 25;
const SIG_IGN: usize = 1;

#[derive(PartialEq, Eq, Clone, Debug)]
enum Entry {
    Directory,
    Link(PathBuf),
    File(Vec<u8>),
}

type Tree = BTreeMap<PathBuf, Entry>;

fn broke(what: &str, e: &std::io::Error) -> ! {
    crate::die(&format!("{what}: {e}"))
}

fn look(dir: &Path, at: &Path, tree: &mut Tree) {
    for e in std::fs::read_dir(dir.join(at)).unwrap_or_else(|e| broke("read_dir", &e)) {
        let e = e.unwrap_or_else(|e| broke("read_dir", &e));
        let name = at.join(e.file_name());
        let kind = e.file_type().unwrap_or_else(|e| broke("file_type", &e));
        let entry = if kind.is_dir() {
            look(dir, &name, tree);
            Entry::Directory
        } else if kind.is_symlink() {
            Entry::Link(std::fs::read_link(dir.join(&name)).unwrap_or_else(|e| broke("read_link", &e)))
        } else {
            Entry::File(std::fs::read(dir.join(&name)).unwrap_or_else(|e| broke("read", &e)))
        };
        tree.insert(name, entry);
    }
}

fn tree(dir: &Path) -> Tree {
    let mut t = Tree::new();
    look(dir, Path::new(""), &mut t);
    t
}

fn names(t: &Tree) -> Vec<String> {
    t.iter().map(|(k, v)| match v {
        Entry::Directory => format!("{}/", k.display()),
        Entry::Link(to) => format!("{} -> {}", k.display(), to.display()),
        Entry::File(b) => format!("{} ({} bytes)", k.display(), b.len()),
    }).collect()
}

struct Scratch(PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) {
        // Everything in it was made here or by the indexer running in it
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn write(dir: &Path, name: &str, bytes: &[u8]) {
    std::fs::write(dir.join(name), bytes).unwrap_or_else(|e| broke("write", &e));
}

/// At which of the calls that change the file system what happens (see cli/fault.c), and where the call is noted down.
#[derive(Clone)]
struct Fault {
    step: usize,
    how: &'static str,
    note: PathBuf,
}

impl Fault {
    fn new(rng: &mut Rng, dir: &Path) -> Fault {
        let step = if rng.chance(1, 5) { rng.range(1, 40) } else { rng.range(1, 6) };
        Fault { step, how: rng.pick(&["kill", "kill", "half", "short", "io", "no space", "access"]), note: dir.with_extension("note") }
    }
    /// The call it came at, if it came to that.
    fn met(&self) -> Option<String> {
        let met = std::fs::read_to_string(&self.note).ok();
        let _ = std::fs::remove_file(&self.note);
        met
    }
}

fn start(dir: &Path, limit: Option<(u64, bool)>) -> Child {
    start_with(dir, limit, None)
}

fn start_with(dir: &Path, limit: Option<(u64, bool)>, fault: Option<&Fault>) -> Child {
    let set = |name| std::env::var(name).unwrap_or_else(|_| crate::die(&format!("{name} is not set")));
    let mut c = Command::new(set("RT_INDEXER"));
    if let Some(f) = fault {
        let how = match f.how {
            "access" => "a",
            "no space" => "n",
            other => other,
        };
        c.env("LD_PRELOAD", set("RT_FAULT")).env("RT_STEP", f.step.to_string()).env("RT_HOW", how).env("RT_NOTE", &f.note);
    }
    c.current_dir(dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(move || {
            let mut ok = setrlimit(RLIMIT_CORE, &[0, 0]) == 0;
            if let Some((bytes, deadly)) = limit {
                if !deadly {
                    signal(SIGXFSZ, SIG_IGN);
                }
                ok &= setrlimit(RLIMIT_FSIZE, &[bytes, bytes]) == 0;
            }
            if ok { Ok(()) } else { Err(std::io::Error::last_os_error()) }
        });
    }
    c.spawn().unwrap_or_else(|e| broke("the indexer did not start", &e))
}

fn end(mut child: Child) -> ExitStatus {
    let from = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(s)) => return s,
            Ok(None) if from.elapsed() > Duration::from_secs(100) => {
                let _ = child.kill();
                let _ = child.wait();
                crate::die("the indexer did not finish within 100 s");
            }
            Ok(None) => std::thread::sleep(Duration::from_micros(300)),
            Err(e) => broke("wait", &e),
        }
    }
}

fn some_catalogue(rng: &mut Rng) -> Cat {
    let big = rng.chance(1, 6);
    let shape = Shape { max_products: if big { 250 } else { 20 }, max_text: if big { 250 } else { 100 }, n: 5, wide: true };
    gen::catalogue(rng, &shape)
}

/// Other files, and an out.test of some earlier day.
fn furnish(rng: &mut Rng, dir: &Path, index: &[u8]) -> &'static str {
    for name in ["notes.txt", "out.test.bak", "test.json.bak", "out.tes", "test", ".hidden", "out.test.tmp", "out.test.1.tmp", "out.test~", "out.test.old",
        "out.test.orig", "out.test.new", "out.test.part", "out.test.lock", "out.tmp", "test.json.tmp", ".out.test.swp", ".out.test.tmp", "tmp", "index"] {
        if rng.chance(1, 3) {
            write(dir, name, gen::text(rng, 3, 30).as_bytes());
        }
    }
    if rng.chance(1, 3) {
        std::fs::create_dir(dir.join("sub")).unwrap_or_else(|e| broke("mkdir", &e));
        write(dir, "sub/out.test", b"deeper");
        write(dir, "sub/test.json", b"{}");
    }
    match rng.below(6) {
        0 => "no out.test",
        5 => {
            write(dir, "kept.test", index);
            std::fs::hard_link(dir.join("kept.test"), dir.join("out.test")).unwrap_or_else(|e| broke("link", &e));
            "an earlier index that has another name"
        }
        1 => {
            write(dir, "out.test", b"");
            "an empty out.test"
        }
        2 => {
            let n = rng.range(1, 200);
            let old: Vec<u8> = (0..n).map(|_| rng.u64() as u8).collect();
            write(dir, "out.test", &old);
            "garbage in out.test"
        }
        3 => {
            let old: Vec<u8> = (0..400_000).map(|i| (i % 251) as u8).collect();
            write(dir, "out.test", &old);
            "a larger out.test"
        }
        _ => {
            write(dir, "out.test", index);
            "an earlier index"
        }
    }
}

fn earlier_index(rng: &mut Rng) -> Vec<u8> {
    let shape = Shape { max_products: 10, max_text: 60, n: 5, wide: true };
    let cat = gen::catalogue(rng, &shape);
    let leaks = crate::real::Leaks::default();
    crate::real::build::<5>(&cat, &leaks).unwrap_or_default()
}

/// What is there besides out.test (and, after a kill, unfinished files next to it).
fn others(t: &Tree, before: &Tree, killed: bool) -> Tree {
    t.iter()
        .filter(|(k, _)| *k != Path::new("out.test"))
        .filter(|(k, _)| {
            let k = k.to_string_lossy();
            // Not one that was there before
            !(killed && !before.contains_key(Path::new(&*k)) && !k.contains('/'))
        })
        .map(|(k, v)| (k.clone(), v.clone()))
        .collect()
}

fn complete(t: &Tree, cats: &[&Cat]) -> Result<(), String> {
    match t.get(Path::new("out.test")) {
        Some(Entry::File(bytes)) => {
            let mut last = Ok(());
            for cat in cats {
                match store::same_catalogue(cat, bytes) {
                    Ok(_) => return Ok(()),
                    Err(e) => last = Err(format!("out.test: {e}")),
                }
            }
            last
        }
        Some(_) => Err("out.test is no file".into()),
        None => Err("there is no out.test".into()),
    }
}

pub fn c18(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let dir = std::env::current_dir().unwrap_or_else(|e| broke("cwd", &e)).join(format!("cli.{}.{seed}", std::process::id()));
    std::fs::create_dir(&dir).unwrap_or_else(|e| broke("mkdir", &e));
    let scratch = Scratch(dir);
    let dir = scratch.0.as_path();
    let index = earlier_index(&mut rng);
    let mut had = furnish(&mut rng, dir, &index);
    match rng.below(10) {
        0..=2 => {
            let cat = some_catalogue(&mut rng);
            let text = spelling::object(&mut rng, &cat);
            write(dir, "test.json", text.as_bytes());
            let before = tree(dir);
            let told = |t: &Tree| json!({"had": had, "before": names(&before), "after": names(t), "json": short(&text)});
            for _ in 0..rng.range(1, 2) {
                let s = end(start(dir, None));
                let after = tree(dir);
                if !s.success() {
                    return ctx.violate(format!("on a valid catalogue the indexer ended with {s}"), told(&after));
                }
                if let Err(e) = complete(&after, &[&cat]) {
                    return ctx.violate(e, told(&after));
                }
                if others(&after, &before, false) != others(&before, &before, false) {
                    return ctx.violate("indexing changed other files", told(&after));
                }
                ctx.count("catalogues_indexed", 1);
            }
            ctx.count(&format!("over_{}", had.replace([' ', '.'], "_")), 1);
            ctx.evaluated(hash_bytes(text.as_bytes()), cat.prods.len() > 1);
            ctx.sample(|| json!({"had": had, "json": text.chars().take(200).collect::<String>(), "after": names(&tree(dir))}));
        }
        3..=5 => {
            let mut text = spelling::broken(&mut rng).into_bytes();
            let mut how = "test.json is no catalogue";
            match rng.below(9) {
                0 => how = "test.json is missing",
                1 => {
                    how = "test.json is a directory";
                    std::fs::create_dir(dir.join("test.json")).unwrap_or_else(|e| broke("mkdir", &e));
                }
                2 => {
                    how = "test.json leads nowhere";
                    std::os::unix::fs::symlink("nowhere.json", dir.join("test.json")).unwrap_or_else(|e| broke("symlink", &e));
                }
                3 => {
                    how = "test.json is not UTF-8";
                    let cat = some_catalogue(&mut rng);
                    text = cat.json_object().into_bytes();
                    let at = rng.below(text.len());
                    text.insert(at, *rng.pick(&[0xff, 0xc0, 0x80, 0xf8]));
                    write(dir, "test.json", &text);
                }
                4 => {
                    how = "out.test is a directory";
                    text = some_catalogue(&mut rng).json_object().into_bytes();
                    write(dir, "test.json", &text);
                    let _ = std::fs::remove_file(dir.join("out.test"));
                    std::fs::create_dir(dir.join("out.test")).unwrap_or_else(|e| broke("mkdir", &e));
                    if rng.chance(1, 2) {
                        write(dir, "out.test/kept", b"kept");
                    }
                    had = "a directory";
                }
                _ => write(dir, "test.json", &text),
            }
            let before = tree(dir);
            let s = end(start(dir, None));
            let after = tree(dir);
            let told = json!({"how": how, "had": had, "before": names(&before), "after": names(&after), "json": short(&String::from_utf8_lossy(&text))});
            if let Some(n) = s.signal() {
                return ctx.violate(format!("{how}: the indexer died of signal {n}"), told);
            }
            if s.success() {
                return ctx.violate(format!("{how}, yet the indexer reports success"), told);
            }
            if before != after {
                return ctx.violate(format!("{how}, and the indexer changed the directory"), told);
            }
            ctx.count(&how.replace([' ', '.', '-'], "_"), 1);
            ctx.evaluated(hash_bytes(&text), true);
        }
        6 => {
            // Two at once, in one directory
            let cat = some_catalogue(&mut rng);
            write(dir, "test.json", cat.json_object().as_bytes());
            let before = tree(dir);
            // One of them may be stopped
            let fault = if rng.chance(1, 2) { Some(Fault::new(&mut rng, dir)) } else { None };
            let (first, second) = if rng.chance(1, 2) {
                let f = start_with(dir, None, fault.as_ref());
                (f, start(dir, None))
            } else {
                let f = start(dir, None);
                (start_with(dir, None, fault.as_ref()), f)
            };
            let (mut a, b) = (end(first), end(second));
            let after = tree(dir);
            let stopped = fault.is_some_and(|f| f.met().is_some());
            if stopped {
                ctx.count("one_of_two_stopped", 1);
                a = b;
            }
            let told = json!({"had": had, "before": names(&before), "after": names(&after), "json": short(&cat.json_object())});
            if !a.success() || !b.success() {
                return ctx.violate(format!("two indexers at once ended with {a} and {b}"), told);
            }
            if let Err(e) = complete(&after, &[&cat]) {
                return ctx.violate(format!("after two indexers at once: {e}"), told);
            }
            if others(&after, &before, stopped) != others(&before, &before, false) {
                return ctx.violate("two indexers at once changed other files", told);
            }
            ctx.count("two_at_once", 1);
            ctx.evaluated(hash_bytes(cat.json_object().as_bytes()), cat.prods.len() > 1);
        }
        _ => {
            let cat = some_catalogue(&mut rng);
            write(dir, "test.json", cat.json_object().as_bytes());
            let before = tree(dir);
            let size = crate::real::build::<5>(&cat, &crate::real::Leaks::default()).map_or(1000, |b| b.len());
            for _ in 0..if cat.prods.len() > 3000 { 1 } else { 6 } {
                let (s, killed, how) = if rng.chance(1, 2) {
                    let fault = Fault::new(&mut rng, dir);
                    let s = end(start_with(dir, None, Some(&fault)));
                    match fault.met() {
                        Some(call) => {
                            ctx.count(&format!("{}_at_{call}", fault.how.replace(' ', "_")), 1);
                            ctx.count("faults_injected", 1);
                            // Whether an unfinished file can be removed is not in its hands then
                            (s, true, format!("{} at the call number {}, of {call}", fault.how, fault.step))
                        }
                        None => (s, false, format!("fewer than {} calls", fault.step)),
                    }
                } else if rng.chance(2, 3) {
                    let bytes = match rng.below(4) {
                        0 => 0,
                        1 => size.saturating_sub(rng.range(0, 3)) as u64,
                        _ => rng.below(size + size / 4 + 2) as u64,
                    };
                    let deadly = rng.chance(1, 3);
                    (end(start(dir, Some((bytes, deadly)))), deadly, format!("files limited to {bytes} bytes of {size}"))
                } else {
                    let mut child = start(dir, None);
                    let us = rng.below(*rng.clone().pick(&[1_000, 4_000, 40_000])) as u64;
                    std::thread::sleep(Duration::from_micros(us));
                    let _ = child.kill();
                    (end(child), true, format!("killed after {us} µs"))
                };
                let after = tree(dir);
                let same = before.get(Path::new("out.test")) == after.get(Path::new("out.test"));
                let told = || json!({"how": how, "ended": s.to_string(), "had": had, "before": names(&before), "after": names(&after), "json": short(&cat.json_object())});
                if s.success() || !same {
                    if let Err(e) = complete(&after, &[&cat]) {
                        return ctx.violate(format!("{how}: {e}, and it is not what was there before"), told());
                    }
                }
                if others(&after, &before, killed && !s.success()) != others(&before, &before, false) {
                    return ctx.violate(format!("{how}: the indexer changed other files"), told());
                }
                ctx.count(match (s.success(), s.signal().is_some()) {
                    (true, _) => "finished_despite_fault",
                    (false, true) if same => "ended_by_signal_before_replacing",
                    (false, true) => "ended_by_signal_after_replacing",
                    _ => "write_errors_reported",
                }, 1);
                ctx.evaluated(hash_bytes(format!("{how}{had}{}", cat.json_object()).as_bytes()), !s.success());
                let mut after = after;
                if !s.success() && rng.chance(1, 2) {
                    // What a stopped run left behind is in no later one's way
                    let next = end(start(dir, None));
                    let then = tree(dir);
                    let told = || json!({"first": how, "then": next.to_string(), "had": had, "before": names(&after), "after": names(&then), "json": short(&cat.json_object())});
                    if !next.success() {
                        return ctx.violate(format!("after a run that was {how}, the next ended with {next}"), told());
                    }
                    if let Err(e) = complete(&then, &[&cat]) {
                        return ctx.violate(format!("after a run that was {how} and another: {e}"), told());
                    }
                    if others(&then, &before, true) != others(&before, &before, false) {
                        return ctx.violate(format!("after a run that was {how}, the next changed other files"), told());
                    }
                    ctx.count("runs_after_a_stopped_one", 1);
                    after = then;
                }
                // Back to how it was
                for (k, v) in &after {
                    if before.get(k) != Some(v) && *v != Entry::Directory {
                        std::fs::remove_file(dir.join(k)).unwrap_or_else(|e| broke("remove", &e));
                    }
                }
                if let Some(Entry::File(old)) = before.get(Path::new("out.test")) {
                    write(dir, "out.test", old);
                }
            }
        }
    }
}
