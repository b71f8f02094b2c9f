//! C20: threads building, allocating, loading and asking at once; what they were served is checked afterwards as the
//! history of one register, and the sanitizer builds watch the memory underneath.
use super::{spelling, store, tags};
use crate::ctx::{hash_bytes, Ctx};
use crate::gen::{self, Cat, Shape};
use crate::prng::Rng;
use crate::real::{self, guard, Leaks};
use indexer_lib::data::SuperAlloc;
use indexer_lib::js_interactable::{CategoryHandler, JSTag, TagHandler};
use serde_json::json;
use std::collections::HashMap;
use std::sync::atomic::{compiler_fence, AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

/// A catalogue that can be told from every other by any of its category, option and tag names.
struct Gen {
    number: u64,
    cat: Cat,
    categories: Vec<(String, Vec<String>)>,
    tags: Vec<String>,
    bytes: Vec<u8>,
}

const PREFIX: &str = "suggestionword-commonprefix-";

fn code(mut n: u64, digits: usize) -> String {
    let mut out = vec!['0'; digits];
    for d in out.iter_mut().rev() {
        *d = char::from_digit((n % 36) as u32, 36).unwrap();
        n /= 36;
    }
    out.into_iter().collect()
}

/// The generation a name belongs to.
fn number_of(name: &str) -> Option<u64> {
    let s = name.strip_prefix(PREFIX)?;
    u64::from_str_radix(s.get(..4)?, 36).ok()
}

fn make(rng: &mut Rng, number: u64) -> Gen {
    let name = |i: usize| format!("{PREFIX}{}{}", code(number, 4), code(i as u64, 1));
    let tag_count = rng.range(1, 12);
    let cat_count = rng.range(1, 4);
    let big = rng.chance(1, 12);
    let shape = Shape { max_products: if big { 40 } else { 3 }, max_text: if big { 60 } else { 12 }, n: 5, wide: false };
    let mut cat = gen::catalogue(rng, &shape);
    cat.prods.truncate(shape.max_products);
    if cat.prods.is_empty() {
        cat = gen::catalogue(&mut Rng::new(7), &Shape { max_products: 3, max_text: 12, n: 5, wide: false });
    }
    for (i, p) in cat.prods.iter_mut().enumerate() {
        p.tags.clear();
        p.options.clear();
        p.id = format!("{number}-{i}");
        for t in 0..tag_count {
            if rng.chance(1, 2) || i == 0 && t == 0 {
                p.tags.push(name(t));
            }
        }
        for c in 0..cat_count {
            if rng.chance(1, 2) || i == 0 && c == 0 {
                let values = (0..rng.range(1, 4)).map(|_| name(20 + rng.below(8))).collect();
                p.options.push((name(12 + c), values));
            }
        }
        for (_, v) in &mut p.options {
            v.sort();
            v.dedup();
        }
    }
    let categories = cat.categories();
    let mut tags: Vec<String> = cat.tags().into_iter().map(str::to_string).collect();
    tags.sort();
    let bytes = real::build::<5>(&cat, &Leaks::default()).unwrap_or_default();
    Gen { number, cat, categories, tags, bytes }
}

static CLOCK: AtomicU64 = AtomicU64::new(1);

/// Relaxed, so that the clock orders nothing the code under test should have ordered itself.
fn now() -> u64 {
    compiler_fence(SeqCst);
    let t = CLOCK.fetch_add(1, Relaxed);
    compiler_fence(SeqCst);
    t
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Kind {
    Load,
    Categories,
    Tags,
    Suggestion,
}

#[derive(Clone, Copy)]
struct Event {
    kind: Kind,
    start: u64,
    end: u64,
    /// 0: nothing loaded
    number: u64,
    thread: usize,
}

struct Log {
    events: Vec<Event>,
    counters: HashMap<&'static str, u64>,
    wrong: Option<String>,
}

impl Log {
    fn count(&mut self, key: &'static str, n: u64) {
        *self.counters.entry(key).or_insert(0) += n;
    }
}

struct Shared {
    gens: HashMap<u64, Gen>,
    alloc: &'static SuperAlloc,
    go: AtomicUsize,
    progress: AtomicU64,
    stop: AtomicBool,
    threads: usize,
}

/// A value that knows whether it has been dropped.
struct Tracked {
    dropped: Arc<AtomicUsize>,
    pattern: Vec<u64>,
}

impl Drop for Tracked {
    fn drop(&mut self) {
        self.dropped.fetch_add(1, Relaxed);
        self.pattern.fill(0xdead);
    }
}

enum Ref {
    Text(&'static String, String),
    Number(&'static u64, u64),
    Block(&'static mut [u64; 40], [u64; 40]),
    List(&'static mut Vec<u32>, Vec<u32>),
    Unit(&'static ()),
    Tracked(&'static Tracked, u64),
}

impl Ref {
    fn intact(&mut self, rng: &mut Rng) -> bool {
        match self {
            Ref::Text(r, v) => *r == v,
            Ref::Number(r, v) => *r == v,
            Ref::Block(r, v) => {
                let same = **r == *v;
                let (i, x) = (rng.below(40), rng.u64());
                r[i] = x;
                v[i] = x;
                same
            }
            Ref::List(r, v) => {
                let same = *r == v;
                r.push(7);
                v.push(7);
                same
            }
            Ref::Unit(r) => **r == (),
            Ref::Tracked(r, v) => r.dropped.load(Relaxed) == 0 && r.pattern.iter().all(|p| p == v),
        }
    }
}

fn read_categories(h: &CategoryHandler) -> Vec<(String, Vec<String>)> {
    let mut out = Vec::new();
    let mut it = h.iter();
    while let Some(mut options) = it.next_item() {
        let mut names = Vec::new();
        while let Some(o) = options.next_item() {
            names.push(o.get_name());
        }
        out.push((options.name(), names));
    }
    out
}

fn read_tags(h: &TagHandler) -> Vec<JSTag> {
    let mut out = Vec::new();
    let mut it = h.tags();
    while let Some(t) = it.next_tag() {
        out.push(t);
    }
    out
}

/// Which generation these categories are; an error if they are none in full.
fn which_categories(s: &Shared, seen: &[(String, Vec<String>)]) -> Result<u64, String> {
    let number = seen.first().and_then(|(n, _)| number_of(n)).ok_or_else(|| format!("categories of no index: {seen:?}"))?;
    match s.gens.get(&number) {
        Some(g) if same_categories(&g.categories, seen) => Ok(number),
        Some(g) => Err(format!("categories of no one index: {seen:?} rather than {:?}", g.categories)),
        None => Err(format!("categories of an index never loaded: {seen:?}")),
    }
}

/// The order of options within the built index follows the products, which the JSON entry point may reorder.
fn same_categories(a: &[(String, Vec<String>)], b: &[(String, Vec<String>)]) -> bool {
    fn sorted(v: &[(String, Vec<String>)]) -> Vec<(String, Vec<String>)> {
        let mut v = v.to_vec();
        v.iter_mut().for_each(|(_, o)| o.sort());
        v.sort();
        v
    }
    sorted(a) == sorted(b)
}

fn which_tags(s: &Shared, seen: &[String]) -> Result<u64, String> {
    let number = seen.first().and_then(|n| number_of(n)).ok_or_else(|| format!("tags of no index: {seen:?}"))?;
    let mut sorted = seen.to_vec();
    sorted.sort();
    match s.gens.get(&number) {
        Some(g) if g.tags == sorted => Ok(number),
        Some(g) => Err(format!("tags of no one index: {seen:?} rather than {:?}", g.tags)),
        None => Err(format!("tags of an index never loaded: {seen:?}")),
    }
}

enum Kept {
    Categories(CategoryHandler, u64, usize),
    Tags(TagHandler, u64),
}

/// A handle says the same as when it was obtained, and toggles work on it.
fn recheck(s: &Shared, kept: &mut Kept, rng: &mut Rng) -> Result<(), String> {
    match kept {
        Kept::Categories(h, number, toggled) => {
            if which_categories(s, &read_categories(h))? != *number {
                return Err("a category handle changed to another index".into());
            }
            let mut it = h.iter();
            let Some(mut options) = it.next_item() else { return Ok(()) };
            let Some(option) = options.next_item() else { return Ok(()) };
            if h.get_status(&option) != (*toggled % 2 == 1) {
                return Err("the status of an option changed by itself".into());
            }
            if rng.chance(1, 2) {
                h.toggle(&option);
                *toggled += 1;
            }
        }
        Kept::Tags(h, number) => {
            let names: Vec<String> = read_tags(h).iter().map(JSTag::get_name).collect();
            if which_tags(s, &names)? != *number {
                return Err("a tag handle changed to another index".into());
            }
        }
    }
    Ok(())
}

struct Mine {
    thread: usize,
    numbers: Vec<u64>,
    /// how many of them to load
    loads: usize,
    seed: u64,
    steps: usize,
    inbox: mpsc::Receiver<(JSTag, u64)>,
    outboxes: Vec<mpsc::SyncSender<(JSTag, u64)>>,
    allocating: usize,
    building: usize,
}

fn pause(rng: &mut Rng) {
    match rng.below(12) {
        0 => std::thread::yield_now(),
        1 => std::thread::sleep(Duration::from_micros(rng.below(60) as u64)),
        2..=4 => (0..rng.below(400)).for_each(|_| std::hint::spin_loop()),
        _ => {}
    }
}

fn work(s: &Shared, mine: Mine, log: &mut Log, refs: &mut Vec<Ref>) -> Result<(), String> {
    let mut rng = Rng::new(mine.seed);
    let mut next = mine.numbers[..mine.loads].iter();
    let mut kept: Vec<Kept> = Vec::new();
    let mut tags_kept: Vec<(JSTag, u64)> = Vec::new();
    s.go.fetch_add(1, Relaxed);
    while s.go.load(Relaxed) < s.threads {
        std::thread::yield_now();
    }
    for _ in 0..mine.steps {
        if s.stop.load(Relaxed) {
            break;
        }
        s.progress.fetch_add(1, Relaxed);
        pause(&mut rng);
        let roll = rng.below(100);
        match roll {
            0..=19 => {
                let Some(number) = next.next() else { continue };
                let g = &s.gens[number];
                let start = now();
                let ok = guard(|| indexer_lib::initialize(&g.bytes)).map_err(|e| format!("a load panicked: {e}"))?;
                let end = now();
                if !ok {
                    return Err("a valid index is reported as none".into());
                }
                log.events.push(Event { kind: Kind::Load, start, end, number: *number, thread: mine.thread });
            }
            20..=24 => {
                let g = &s.gens[rng.pick(&mine.numbers)];
                let n = rng.below(g.bytes.len().max(1));
                if guard(|| indexer_lib::initialize(&g.bytes[..n])).map_err(|e| format!("a load panicked: {e}"))? {
                    return Err("a truncated index is loaded".into());
                }
                log.count("bad_loads", 1);
            }
            25..=39 => {
                let start = now();
                let h = guard(indexer_lib::get_categories).map_err(|e| format!("get_categories panicked: {e}"))?;
                let end = now();
                let mut number = 0;
                if let Some(h) = h {
                    number = which_categories(s, &guard(|| read_categories(&h)).map_err(|e| format!("reading categories panicked: {e}"))?)?;
                    kept.push(Kept::Categories(h, number, 0));
                }
                log.events.push(Event { kind: Kind::Categories, start, end, number, thread: mine.thread });
            }
            40..=54 => {
                let start = now();
                let h = guard(indexer_lib::get_tags).map_err(|e| format!("get_tags panicked: {e}"))?;
                let end = now();
                let mut number = 0;
                if let Some(h) = h {
                    let found = guard(|| read_tags(&h)).map_err(|e| format!("reading tags panicked: {e}"))?;
                    let names: Vec<String> = found.iter().map(JSTag::get_name).collect();
                    number = which_tags(s, &names)?;
                    let tag = rng.pick(&found).clone();
                    if !mine.outboxes.is_empty() && rng.chance(1, 2) {
                        // To another thread, if there is room
                        if mine.outboxes[rng.below(mine.outboxes.len())].try_send((tag, number)).is_ok() {
                            log.count("tags_passed_on", 1);
                        }
                    } else {
                        tags_kept.push((tag, number));
                    }
                    kept.push(Kept::Tags(h, number));
                }
                log.events.push(Event { kind: Kind::Tags, start, end, number, thread: mine.thread });
            }
            55..=74 => {
                let query = format!("x {PREFIX}{} y", code(rng.u64() % 36u64.pow(5), 5));
                let start = now();
                let r = guard(|| indexer_lib::tag_suggestion(&query).map(|r| (r.get_input(), r.get_tag())))
                    .map_err(|e| format!("tag_suggestion panicked: {e}"))?;
                let end = now();
                let mut number = 0;
                if let Some((word, tag)) = r {
                    let name = guard(|| tag.get_name()).map_err(|e| format!("reading a suggested tag panicked: {e}"))?;
                    number = number_of(&name).ok_or_else(|| format!("a suggestion of no index: {name}"))?;
                    let g = s.gens.get(&number).ok_or_else(|| format!("a suggestion of an index never loaded: {name}"))?;
                    if !tags::best(&g.tags, &query).contains(&(word.as_str(), name.as_str())) {
                        return Err(format!("for {query:?} the tag {name:?} and word {word:?} are suggested, but the best match among {:?} is another", g.tags));
                    }
                    tags_kept.push((tag, number));
                }
                log.events.push(Event { kind: Kind::Suggestion, start, end, number, thread: mine.thread });
            }
            75..=84 => {
                if let Ok(t) = mine.inbox.try_recv() {
                    tags_kept.push(t);
                }
                if !kept.is_empty() {
                    let at = rng.below(kept.len());
                    let k = &mut kept[at];
                    guard(|| recheck(s, k, &mut rng)).map_err(|e| format!("using a handle panicked: {e}"))??;
                    log.count("handles_rechecked", 1);
                    if kept.len() > 6 {
                        kept.swap_remove(at);
                    }
                }
                if !tags_kept.is_empty() {
                    let at = rng.below(tags_kept.len());
                    let (tag, number) = &tags_kept[at];
                    let name = guard(|| tag.get_name()).map_err(|e| format!("reading a tag panicked: {e}"))?;
                    if number_of(&name) != Some(*number) {
                        return Err(format!("a tag of index {number} became {name}"));
                    }
                    log.count("tags_rechecked", 1);
                    if tags_kept.len() > 6 {
                        tags_kept.swap_remove(at);
                    }
                }
            }
            85..=96 => {
                for _ in 0..rng.below(mine.allocating + 1) {
                    let r = guard(|| match rng.below(7) {
                        0 | 1 => {
                            let v = format!("{}-{}", mine.thread, rng.u64());
                            Ref::Text(s.alloc.alloc(v.clone()), v)
                        }
                        2 => {
                            let v = rng.u64();
                            Ref::Number(s.alloc.alloc(v), v)
                        }
                        3 => {
                            let v = [rng.u64(); 40];
                            Ref::Block(s.alloc.alloc_mut(v), v)
                        }
                        4 => {
                            let v = vec![rng.u64() as u32; rng.below(20)];
                            Ref::List(s.alloc.alloc_mut(v.clone()), v)
                        }
                        5 => Ref::Unit(s.alloc.alloc(())),
                        _ => {
                            let v = rng.u64();
                            Ref::Tracked(s.alloc.alloc(Tracked { dropped: Arc::default(), pattern: vec![v; 3] }), v)
                        }
                    })
                    .map_err(|e| format!("allocating panicked: {e}"))?;
                    refs.push(r);
                    log.count("references_obtained", 1);
                }
                for _ in 0..4 {
                    if !refs.is_empty() {
                        let at = rng.below(refs.len());
                        if !refs[at].intact(&mut rng) {
                            return Err("a reference from the allocator no longer refers to what was allocated".into());
                        }
                        log.count("references_checked", 1);
                    }
                }
            }
            _ => {
                if mine.building == 0 || rng.below(3) >= mine.building {
                    continue;
                }
                let g = &s.gens[rng.pick(&mine.numbers)];
                if rng.chance(1, 2) {
                    let text = spelling::object(&mut rng, &g.cat);
                    let bytes = guard(|| indexer_lib::index(&text)).map_err(|e| format!("indexing panicked: {e}"))?;
                    let bytes = bytes.ok_or("a catalogue is not indexed")?;
                    store::same_catalogue(&g.cat, &bytes)?;
                } else {
                    // Into the allocator all threads share
                    let text: &'static String = s.alloc.alloc(g.cat.json_array());
                    let bytes = guard(|| {
                        let raw: Vec<indexer_lib::data::RawProduct<'static>> = serde_json::from_str(text).map_err(|e| e.to_string())?;
                        indexer_lib::index_and_serialize_with_n::<5>(raw, s.alloc).map_err(|e| e.to_string())
                    })
                    .map_err(|e| format!("indexing panicked: {e}"))??;
                    store::same_catalogue(&g.cat, &bytes)?;
                }
                log.count("indexes_built", 1);
            }
        }
    }
    for k in &mut kept {
        guard(|| recheck(s, k, &mut rng)).map_err(|e| format!("using a handle panicked: {e}"))??;
        log.count("handles_rechecked", 1);
    }
    Ok(())
}

/// The history is that of one register holding the last load: the loads and what was served fall into a total order
/// consistent with the times of the calls. (For writes of distinct values: Gibbons and Korach's zones.)
fn linearizable(events: &[Event]) -> Result<(), String> {
    struct Zone {
        number: u64,
        write_start: u64,
        min_end: u64,
        max_start: u64,
    }
    let mut zones: HashMap<u64, Zone> = HashMap::new();
    for e in events.iter().filter(|e| e.kind == Kind::Load) {
        zones.insert(e.number, Zone { number: e.number, write_start: e.start, min_end: e.end, max_start: e.start });
    }
    for e in events.iter().filter(|e| e.kind != Kind::Load) {
        let Some(z) = zones.get_mut(&e.number) else {
            return Err(format!("index {} was served though it was never loaded", e.number));
        };
        if e.end < z.write_start {
            return Err(format!("index {} was served before it was loaded", e.number));
        }
        z.min_end = z.min_end.min(e.end);
        z.max_start = z.max_start.max(e.start);
    }
    // Forward zones: the register must hold the value from min_end to max_start
    let mut forward: Vec<&Zone> = zones.values().filter(|z| z.min_end < z.max_start).collect();
    forward.sort_by_key(|z| z.min_end);
    for w in forward.windows(2) {
        if w[1].min_end < w[0].max_start {
            return Err(format!("index {} was served after index {} had replaced it, or the other way around", w[0].number, w[1].number));
        }
    }
    for z in zones.values().filter(|z| z.min_end >= z.max_start) {
        if let Some(f) = forward.iter().find(|f| f.min_end < z.max_start && z.min_end < f.max_start) {
            return Err(format!("index {} was still served although index {} had been loaded in between", f.number, z.number));
        }
    }
    Ok(())
}

/// Resident memory of this process in bytes: what was loaded is never freed.
fn resident() -> u64 {
    let pages = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok());
    pages.unwrap_or(0) * 4096
}

/// What is served between episodes.
static SERVED: Mutex<Option<Gen>> = Mutex::new(None);
static NUMBER: AtomicU64 = AtomicU64::new(1);

/// Threads of this process that sleep, and those there are.
fn sleeping() -> Option<(usize, usize)> {
    let (mut asleep, mut all) = (0, 0);
    for t in std::fs::read_dir("/proc/self/task").ok()? {
        let stat = std::fs::read_to_string(t.ok()?.path().join("stat")).ok()?;
        let state = stat.rsplit(')').next()?.trim().chars().next()?;
        all += 1;
        asleep += usize::from(state == 'S');
    }
    Some((asleep, all))
}

pub fn c20(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let threads = *rng.pick(&[2, 2, 3, 4, 4, 6, 8, 12]);
    let loaders = rng.range(1, threads);
    let steps = *rng.pick(&[30, 80, 80, 200]);
    let per_loader = if rng.chance(1, 3) { 1 } else { rng.range(1, 16) };
    let mut gens = HashMap::new();
    let mut mine: Vec<Vec<u64>> = Vec::new();
    for t in 0..threads {
        let mut numbers = Vec::new();
        for _ in 0..if t < loaders { per_loader } else { 1 } {
            let number = NUMBER.fetch_add(1, Relaxed);
            let g = make(&mut rng, number);
            if g.bytes.is_empty() {
                return ctx.violate("a catalogue could not be indexed", json!({"catalogue": g.cat.json_array()}));
            }
            gens.insert(number, g);
            numbers.push(number);
        }
        mine.push(numbers);
    }
    let mut served = SERVED.lock().unwrap();
    let initial = served.as_ref().map_or(0, |g| g.number);
    if let Some(g) = served.take() {
        gens.insert(g.number, g);
    }
    let memory = Box::into_raw(Box::new(SuperAlloc::new()));
    let shared = Arc::new(Shared {
        gens,
        alloc: unsafe { &*memory },
        go: AtomicUsize::new(0),
        progress: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        threads,
    });
    let passing = rng.chance(1, 3);
    let (senders, receivers): (Vec<_>, Vec<_>) = (0..threads).map(|_| mpsc::sync_channel(8)).unzip();
    let before = now();
    let (done_in, done) = mpsc::channel();
    let mut handles = Vec::new();
    for (thread, inbox) in receivers.into_iter().enumerate() {
        let m = Mine {
            thread,
            loads: if thread < loaders { mine[thread].len() } else { 0 },
            numbers: mine[thread].clone(),
            seed: rng.u64(),
            steps,
            inbox,
            outboxes: if passing { senders.clone() } else { Vec::new() },
            allocating: *rng.pick(&[0, 2, 10]),
            building: rng.below(4),
        };
        let s = shared.clone();
        let done_in = done_in.clone();
        handles.push(std::thread::spawn(move || {
            let mut log = Log { events: Vec::new(), counters: HashMap::new(), wrong: None };
            let mut refs = Vec::new();
            let m = Mine { steps: if m.loads > 0 { m.steps } else { m.steps * 2 }, ..m };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| work(&s, m, &mut log, &mut refs)));
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => {
                    s.stop.store(true, Relaxed);
                    log.wrong = Some(e);
                }
                Err(_) => crate::die(&format!("case {seed}: {}", real::last_panic())),
            }
            drop(s);
            let _ = done_in.send(thread);
            (log, refs)
        }));
    }
    drop(done_in);
    drop(senders);
    // Watch for progress: threads that all sleep, for long, without any getting anywhere have locked each other out
    let mut finished = 0;
    let mut last = (0, Instant::now());
    while finished < threads {
        match done.recv_timeout(Duration::from_millis(200)) {
            Ok(_) => finished += 1,
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
            Err(mpsc::RecvTimeoutError::Timeout) => {
                let p = shared.progress.load(Relaxed);
                let working = match sleeping() {
                    // This thread is awake, looking
                    Some((asleep, all)) => all - asleep > 1,
                    None => true,
                };
                if p != last.0 || working {
                    last = (p, Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(15) {
                    ctx.violate("all threads wait for each other", json!({"threads": threads, "steps_made": p, "finished": finished}));
                    ctx.fatal = true;
                    return;
                }
            }
        }
    }
    let mut events = vec![Event { kind: Kind::Load, start: 0, end: before, number: initial, thread: usize::MAX }];
    let mut all_refs = Vec::new();
    let mut wrong = None;
    for h in handles {
        let (log, refs) = h.join().unwrap_or_else(|_| crate::die("a worker thread died"));
        events.extend(log.events);
        for (k, v) in log.counters {
            ctx.count(k, v);
        }
        all_refs.extend(refs);
        wrong = wrong.or(log.wrong);
    }
    let detail = |events: &[Event]| {
        let mut e: Vec<&Event> = events.iter().collect();
        e.sort_by_key(|e| e.start);
        let text: Vec<String> = e
            .iter()
            .map(|e| {
                let what = match e.kind {
                    Kind::Load => "load",
                    Kind::Categories => "categories",
                    Kind::Tags => "tags",
                    Kind::Suggestion => "suggestion",
                };
                format!("[{},{}] thread {} {what} {}", e.start, e.end, e.thread as isize, e.number)
            })
            .collect();
        json!({"threads": threads, "history": text.iter().rev().take(300).rev().collect::<Vec<_>>()})
    };
    if let Some(w) = wrong {
        ctx.fatal = true;
        return ctx.violate(w, detail(&events));
    }
    // What is served now
    let start = now();
    let last = guard(|| {
        let h = indexer_lib::get_tags()?;
        Some(read_tags(&h).iter().map(JSTag::get_name).collect::<Vec<_>>())
    });
    let end = now();
    match last {
        Err(e) => {
            ctx.fatal = true;
            return ctx.violate(format!("get_tags panicked: {e}"), detail(&events));
        }
        Ok(None) => events.push(Event { kind: Kind::Tags, start, end, number: 0, thread: usize::MAX }),
        Ok(Some(names)) => match which_tags(&shared, &names) {
            Ok(number) => events.push(Event { kind: Kind::Tags, start, end, number, thread: usize::MAX }),
            Err(e) => {
                ctx.fatal = true;
                return ctx.violate(e, detail(&events));
            }
        },
    }
    if let Err(e) = linearizable(&events) {
        ctx.fatal = true;
        return ctx.violate(e, detail(&events));
    }
    let number = events.last().unwrap().number;
    // All references again, now that every thread is done; then the values may go
    for r in &mut all_refs {
        if !r.intact(&mut rng) {
            return ctx.violate("a reference from the allocator no longer refers to what was allocated", detail(&events));
        }
    }
    let tracked: Vec<Arc<AtomicUsize>> = all_refs.iter().filter_map(|r| if let Ref::Tracked(t, _) = r { Some(t.dropped.clone()) } else { None }).collect();
    ctx.count("references_checked", all_refs.len() as u64);
    drop(all_refs);
    let Ok(mut shared) = Arc::try_unwrap(shared) else { crate::die("threads still hold the shared state") };
    let current = shared.gens.remove(&number);
    ctx.count("bytes_loaded", events.iter().filter(|e| e.kind == Kind::Load).filter_map(|e| shared.gens.get(&e.number)).map(|g| g.bytes.len() as u64).sum());
    drop(shared);
    unsafe { drop(Box::from_raw(memory)) };
    if tracked.iter().any(|d| d.load(Relaxed) > 1) {
        return ctx.violate("the allocator dropped a value twice", detail(&events));
    }
    *served = current;
    if resident() > 1 << 30 {
        // Another process takes over
        ctx.fatal = true;
    }
    // What was observed
    let loads: Vec<&Event> = events.iter().filter(|e| e.kind == Kind::Load).collect();
    let mut racing = 0;
    for e in events.iter().filter(|e| e.kind != Kind::Load) {
        if loads.iter().any(|l| l.start < e.end && e.start < l.end) {
            racing += 1;
        }
    }
    ctx.count("loads", loads.len() as u64 - 1);
    ctx.count("racing_loads", loads.iter().filter(|a| loads.iter().any(|b| a.number != b.number && a.start < b.end && b.start < a.end)).count() as u64);
    ctx.count("calls_answered_during_a_load", racing);
    ctx.count("answers", events.iter().filter(|e| e.kind != Kind::Load).count() as u64);
    ctx.count("answered_nothing_loaded", events.iter().filter(|e| e.kind != Kind::Load && e.number == 0).count() as u64);
    ctx.count(&format!("episodes_with_{threads:02}_threads"), 1);
    // One interleaving: who did what, in which order, seeing what
    events.sort_by_key(|e| e.start);
    let mut names: HashMap<u64, usize> = HashMap::new();
    let mut trace = Vec::new();
    for e in &events {
        let next = names.len();
        trace.push(e.kind as u8);
        trace.push(e.thread as u8);
        trace.extend((*names.entry(e.number).or_insert(next) as u32).to_le_bytes());
    }
    ctx.evaluated(hash_bytes(&trace), racing > 0);
    ctx.sample(|| detail(&events));
}
