//! C03: loading arbitrary bytes. A panic is caught here; a signal (stack overflow, abort on the memory ceiling) ends
//! this process, which the driver observes and replays.
use crate::alloc::measured;
use crate::ctx::{hash_bytes, Ctx};
use crate::gen::{self, Cat, Shape};
use crate::prng::Rng;
use crate::real::{self, guard, Cls, Idx, Leaks};
use indexer_lib::js_interactable::{CategoryHandler, TagHandler};
use serde_json::json;
use std::sync::Arc;

fn varint(out: &mut Vec<u8>, mut v: u64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}

/// An encoder of the file format that now and then writes something no index contains.
struct Forge<'r> {
    rng: &'r mut Rng,
    out: Vec<u8>,
    /// anomalies per 1000 fields
    rate: usize,
    products: usize,
}

impl Forge<'_> {
    fn odd(&mut self) -> bool {
        self.rng.below(1000) < self.rate
    }
    fn extreme(&mut self) -> u64 {
        match self.rng.below(6) {
            0 => u64::MAX,
            1 => u64::MAX >> self.rng.below(64),
            2 => self.out.len() as u64,
            3 => self.rng.below(300) as u64,
            4 => 1 << self.rng.below(64),
            _ => self.rng.u64(),
        }
    }
    fn len(&mut self, v: usize) {
        let v = if self.odd() { self.extreme() } else { v as u64 };
        varint(&mut self.out, v);
    }
    fn num(&mut self, v: usize) {
        self.len(v);
    }
    fn text(&mut self) {
        let n = *self.rng.pick(&[0, 1, 3, 8, 20]);
        let s = gen::text(self.rng, 3, n);
        let mut b = s.into_bytes();
        if self.odd() {
            b.push(0xff);
        }
        self.len(b.len());
        self.out.extend_from_slice(&b);
    }
    fn character(&mut self) {
        let c = if self.odd() { self.extreme() } else { u64::from(u32::from(gen::character(self.rng, 1))) };
        varint(&mut self.out, c);
    }
    fn float(&mut self) {
        let bits = if self.odd() {
            *self.rng.pick(&[0x7fc0_0000, 0xffc0_0001, 0x7f80_0000, 0xff80_0000, 0x8000_0000, 0, 0xbf80_0000, 0x7f7f_ffff])
        } else {
            (self.rng.below(1000) as f32 / 1000.0).to_bits()
        };
        self.out.extend_from_slice(&u32::to_be_bytes(bits));
    }
    fn node(&mut self, depth: usize) {
        self.character();
        self.float();
        let kids = if depth == 0 { 0 } else { self.rng.below(4) };
        self.len(kids);
        for _ in 0..kids {
            self.node(depth - 1);
        }
    }
    fn ids(&mut self) {
        let n = self.rng.below(self.products.min(40) + 1);
        self.len(n);
        let mut left = self.products.saturating_sub(1);
        for _ in 0..n {
            let step = self.rng.below(left.min(3) + 1);
            left -= step;
            self.num(step);
        }
    }
    fn index(&mut self, n: usize) {
        let vendors = self.rng.range(1, 4);
        self.len(vendors);
        for _ in 0..vendors {
            self.text();
        }
        let products = *self.rng.pick(&[0, 1, 3, 25, 40, 200]);
        self.products = products;
        self.len(products);
        for _ in 0..products {
            for _ in 0..3 {
                self.text();
            }
            let v = self.rng.below(vendors);
            self.num(v);
        }
        let features = self.rng.below(4);
        self.len(features);
        for i in 0..features {
            match i {
                0 => self.out.extend_from_slice(b"\x05price"),
                1 => self.out.extend_from_slice(b"\x09image_url"),
                _ => self.text(),
            }
            let kind = if self.odd() { 3 + self.rng.below(200) } else { self.rng.below(3) };
            self.out.push(kind as u8);
            let count = if self.odd() { self.rng.below(products + 3) } else { products };
            self.len(count);
            for _ in 0..count {
                match kind {
                    0 => self.text(),
                    1 => self.float(),
                    _ => self.num(7),
                }
            }
        }
        let roots = self.rng.below(5);
        self.len(roots);
        for _ in 0..roots {
            self.character();
            let depth = if self.rng.chance(1, 3) { n - 1 } else { self.rng.below(n + 3) };
            self.node(depth);
        }
        let runs = self.rng.below(60);
        self.len(runs);
        for _ in 0..runs {
            self.len(n);
            for _ in 0..n {
                self.character();
            }
            self.ids();
        }
        let cats = self.rng.below(4);
        self.len(cats);
        for _ in 0..cats {
            self.out.push(self.rng.below(3) as u8);
            self.text();
            let options = self.rng.below(4);
            self.len(options);
            for _ in 0..options {
                self.text();
                self.ids();
            }
        }
        let tags = self.rng.below(5);
        self.len(tags);
        for _ in 0..tags {
            self.text();
            self.ids();
        }
        let orders = self.rng.below(4);
        self.len(orders);
        for i in 0..orders {
            match i {
                0 => self.out.extend_from_slice(b"\x0cAlphabetical"),
                _ => self.text(),
            }
            let count = if self.odd() { self.rng.below(products + 3) } else { products };
            self.len(count);
            for p in 0..count {
                self.num(p);
            }
        }
    }
}

fn valid<const N: usize>(rng: &mut Rng, leaks: &Leaks) -> Result<Vec<u8>, String> {
    let shape = Shape { max_products: 40, max_text: *rng.pick(&[3, 12, 120]), n: N, wide: true };
    let cat = gen::catalogue(rng, &shape);
    real::build::<N>(&cat, leaks)
}

/// A catalogue whose products share a few phrases, so that a query can match many of them through several grams.
fn alike(rng: &mut Rng) -> Cat {
    let style = gen::style(rng, true);
    let phrases: Vec<String> = (0..rng.range(3, 7)).map(|_| { let l = rng.range(6, 16); gen::text(rng, style, l) }).collect();
    let shape = Shape { max_products: 3, max_text: 5, n: 5, wide: true };
    let mut cat = gen::catalogue(rng, &shape);
    let first = cat.prods.first().cloned();
    cat.prods = (0..rng.range(25, 90))
        .map(|i| {
            let mut p = first.clone().unwrap_or_else(|| gen::plain(i));
            p.id = format!("p{i}");
            p.description = (0..rng.range(1, 3)).map(|_| rng.pick(&phrases).as_str()).collect::<Vec<_>>().join(" ");
            p.title = format!("t{}", rng.below(40));
            p
        })
        .collect();
    cat
}

/// What the bytes of an index file are, as far as they follow the format: (what, from, to).
fn fields<const N: usize>(bytes: &[u8]) -> Option<Vec<(&'static str, usize, usize)>> {
    struct Reader<'b> {
        bytes: &'b [u8],
        at: usize,
        out: Vec<(&'static str, usize, usize)>,
    }
    impl Reader<'_> {
        fn int(&mut self, what: &'static str) -> Option<u64> {
            let from = self.at;
            let mut v = 0u64;
            for i in 0..10 {
                let b = *self.bytes.get(self.at)?;
                self.at += 1;
                v |= u64::from(b & 0x7f).checked_shl(7 * i)?;
                if b & 0x80 == 0 {
                    self.out.push((what, from, self.at));
                    return Some(v);
                }
            }
            None
        }
        fn take(&mut self, what: &'static str, n: u64) -> Option<()> {
            let to = self.at.checked_add(usize::try_from(n).ok()?)?;
            if to > self.bytes.len() {
                return None;
            }
            self.out.push((what, self.at, to));
            self.at = to;
            Some(())
        }
        fn text(&mut self) -> Option<()> {
            let n = self.int("length")?;
            self.take("text", n)
        }
        fn ids(&mut self) -> Option<()> {
            for _ in 0..self.int("length")? {
                self.int("id")?;
            }
            Some(())
        }
        fn node(&mut self, depth: usize) -> Option<()> {
            self.int("character")?;
            self.take("float", 4)?;
            if depth == 0 {
                return None;
            }
            for _ in 0..self.int("length")? {
                self.node(depth - 1)?;
            }
            Some(())
        }
        fn file(&mut self, n: usize) -> Option<()> {
            for _ in 0..self.int("length")? {
                self.text()?;
            }
            for _ in 0..self.int("length")? {
                for _ in 0..3 {
                    self.text()?;
                }
                self.int("id")?;
            }
            for _ in 0..self.int("length")? {
                self.text()?;
                let kind = *self.bytes.get(self.at)?;
                self.take("kind", 1)?;
                for _ in 0..self.int("length")? {
                    match kind {
                        0 => self.text()?,
                        1 => self.take("float", 4)?,
                        _ => self.int("number").map(|_| ())?,
                    }
                }
            }
            for _ in 0..self.int("length")? {
                self.int("character")?;
                self.node(n + 1)?;
            }
            for _ in 0..self.int("length")? {
                for _ in 0..self.int("length")? {
                    self.int("character")?;
                }
                self.ids()?;
            }
            for _ in 0..self.int("length")? {
                self.take("kind", 1)?;
                self.text()?;
                for _ in 0..self.int("length")? {
                    self.text()?;
                    self.ids()?;
                }
            }
            for _ in 0..self.int("length")? {
                self.text()?;
                self.ids()?;
            }
            for _ in 0..self.int("length")? {
                self.text()?;
                for _ in 0..self.int("length")? {
                    self.int("position")?;
                }
            }
            (self.at == self.bytes.len()).then_some(())
        }
    }
    let mut r = Reader { bytes, at: 0, out: Vec::new() };
    r.file(N)?;
    Some(r.out)
}

/// Replaces whole fields of a file by others of the same kind, so that everything around them is still understood.
fn edit(rng: &mut Rng, bytes: &[u8], fields: &[(&'static str, usize, usize)]) -> Vec<u8> {
    let what = *rng.pick(&["length", "id", "character", "float", "float", "float", "position", "text", "kind", "number", "any"]);
    let per_mille = *rng.pick(&[0, 5, 50, 500]);
    let chosen = fields.iter().filter(|f| what == "any" || f.0 == what).count();
    let one = rng.below(chosen.max(1));
    let mut out = Vec::with_capacity(bytes.len());
    let mut k = 0;
    for (kind, from, to) in fields {
        let old = &bytes[*from..*to];
        let mut hit = false;
        if what == "any" || *kind == what {
            hit = k == one || rng.below(1000) < per_mille;
            k += 1;
        }
        if !hit {
            out.extend_from_slice(old);
            continue;
        }
        match *kind {
            "text" => match rng.below(3) {
                0 => out.extend(old.iter().map(|_| 0xff)),
                1 => out.extend(old.iter().map(|b| b ^ 0x80)),
                _ => out.extend(old.iter().rev()),
            },
            "float" => {
                let v = *rng.pick(&[f32::NAN, f32::NAN, -f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -1.0, 0.0, -0.0, 1e-45, f32::MAX]);
                out.extend_from_slice(&v.to_bits().to_be_bytes());
            }
            "kind" => out.push(*rng.pick(&[0, 1, 2, 3, 4, 0x80, 0xff])),
            _ => {
                let old = old.iter().rev().fold(0u64, |v, b| v.wrapping_shl(7) | u64::from(b & 0x7f));
                let v = match rng.below(6) {
                    0 => old.wrapping_add(1),
                    1 => old.wrapping_sub(1),
                    2 => u64::MAX >> rng.below(64),
                    3 => 0,
                    4 => 0xd800 + rng.below(0x800) as u64,
                    _ => rng.below(300) as u64,
                };
                varint(&mut out, v);
            }
        }
    }
    out
}

fn mutate(rng: &mut Rng, bytes: &mut Vec<u8>) {
    for _ in 0..*rng.pick(&[1, 1, 1, 2, 3, 8]) {
        if bytes.is_empty() {
            bytes.push(rng.u64() as u8);
            continue;
        }
        // The front and the back hold most of the lengths
        let at = match rng.below(4) {
            0 => rng.below(bytes.len().min(40)),
            1 => bytes.len() - 1 - rng.below(bytes.len().min(200)),
            _ => rng.below(bytes.len()),
        };
        match rng.below(9) {
            0 => bytes[at] ^= 1 << rng.below(8),
            1 => bytes[at] = *rng.pick(&[0, 1, 0x7f, 0x80, 0xff, 0xfe]),
            2 => bytes[at] = rng.u64() as u8,
            3 => {
                let mut v = Vec::new();
                let n = match rng.below(4) {
                    0 => u64::MAX >> rng.below(40),
                    1 => bytes.len() as u64 - rng.below(bytes.len()) as u64,
                    2 => rng.u64() >> rng.below(64),
                    _ => rng.below(100_000) as u64,
                };
                varint(&mut v, n);
                let replace = rng.below(2);
                bytes.splice(at..at + replace, v);
            }
            4 => {
                let n = rng.range(1, 12).min(bytes.len() - at);
                bytes.drain(at..at + n);
            }
            5 => {
                let n = rng.range(1, 40).min(bytes.len() - at);
                let piece: Vec<u8> = bytes[at..at + n].to_vec();
                let to = rng.below(bytes.len());
                bytes.splice(to..to, piece);
            }
            6 => bytes.truncate(at),
            7 => {
                let piece: Vec<u8> = (0..rng.range(1, 16)).map(|_| if rng.chance(1, 2) { 0xff } else { rng.u64() as u8 }).collect();
                bytes.splice(at..at, piece);
            }
            _ => {
                // Another float: a weight or price that is no number
                let v: [u8; 4] = u32::to_be_bytes(*rng.pick(&[0x7fc0_0000, 0x7f80_0000, 0xff80_0000, 0x8000_0000]));
                for (i, b) in v.iter().enumerate() {
                    if let Some(x) = bytes.get_mut(at + i) {
                        *x = *b;
                    }
                }
            }
        }
    }
}

/// An index without products whose tree is a single chain of the given depth.
fn chain(depth: usize) -> Vec<u8> {
    let mut out = vec![0, 0, 0, 1, b'a'];
    for i in 0..depth {
        out.push(b'a' + (i % 3) as u8);
        out.extend_from_slice(&0.5f32.to_be_bytes());
        out.push(u8::from(i + 1 < depth));
    }
    out.extend_from_slice(&[0, 0, 0, 0]);
    out
}

/// How many answers it gave, and the most results of one search.
pub fn use_index<const N: usize>(rng: &mut Rng, index: Idx<N>, classic: Cls) -> (u64, u64) {
    let mut answers = 0u64;
    let mut most = 0u64;
    let roots: Vec<char> = index.roots.keys().copied().collect();
    for round in 0..6 {
        let mut query: Vec<char> = Vec::new();
        for _ in 0..rng.range(0, 14) {
            query.push(if roots.is_empty() || rng.chance(1, 8) { 'a' } else { *rng.pick(&roots) });
        }
        if round == 0 && !roots.is_empty() {
            // Follow the tree
            let mut node = Some(index.roots[&roots[0]]);
            while let (Some(n), true) = (node, query.len() < 30) {
                query.push(n.item);
                node = n.by_occurances.first().copied();
            }
        }
        answers += index.search(query.iter().copied()).len() as u64;
    }
    // Long queries that match through many grams
    let stock = &index.product_container.products;
    for _ in 0..if stock.is_empty() { 0 } else { 6 } {
        let mut query: Vec<char> = Vec::new();
        for _ in 0..rng.range(1, 4) {
            let p = rng.pick(stock);
            query.extend(p.description.chars().chain(p.title.chars()).take(60).flat_map(char::to_lowercase));
        }
        let results = index.search(query.into_iter());
        most = most.max(results.len() as u64);
        answers += results.len() as u64;
    }
    // The data of every listed run can be asked for
    for gram in index.data.keys().take(50) {
        answers += index.search(gram.iter().copied()).len() as u64;
    }
    for r in roots.iter().take(20) {
        answers += index.most_popular_chain(*r).len() as u64;
    }
    let products = &index.product_container.products;
    for p in products.iter().take(100) {
        answers += p.title.len() as u64 + p.vendor.name.len() as u64 + p.description.len() as u64;
        for f in ["price", "image_url", ""] {
            answers += u64::from(index.product_container.extra_features.get(p, f).is_some());
        }
        for c in &classic.categories.0 {
            answers += c.options.iter().filter(|o| o.contains(p)).count() as u64;
        }
        answers += classic.tags.iter().filter(|t| t.contains(p)).count() as u64;
    }
    for o in classic.order.options() {
        // What an ordered search looks up for each of its results
        let positions = classic.order.get_orders(o).expect("an ordering that is listed exists");
        answers += products.iter().filter(|p| positions[p.serialization_id] < products.len()).count() as u64;
    }
    let classic = Arc::new(classic);
    let mut categories = CategoryHandler::new(classic.clone());
    let mut iter = categories.iter();
    while let Some(mut options) = iter.next_item() {
        answers += options.name().len() as u64;
        while let Some(o) = options.next_item() {
            answers += o.get_name().len() as u64;
            categories.toggle(&o);
        }
    }
    let mut tags = TagHandler::new(classic);
    let mut iter = tags.tags();
    while let Some(t) = iter.next_tag() {
        answers += t.get_name().len() as u64;
        tags.toggle(&t);
    }
    answers += products.iter().take(100).filter(|p| categories.is_valid(p) || tags.is_valid(p)).count() as u64;
    (answers, most)
}

pub fn make(rng: &mut Rng, leaks: &Leaks) -> Result<(&'static str, Vec<u8>), String> {
    make_n::<5>(rng, leaks)
}

fn make_n<const N: usize>(rng: &mut Rng, leaks: &Leaks) -> Result<(&'static str, Vec<u8>), String> {
    Ok(match rng.below(24) {
        0 => ("arbitrary", (0..rng.below(400)).map(|_| rng.u64() as u8).collect()),
        1 => ("arbitrary_small", (0..rng.below(60)).map(|_| *rng.pick(&[0, 0, 1, 1, 2, 3, 5, 0x80, 0xff, b'a'])).collect()),
        2 | 3 => {
            let (mut a, b) = (valid::<N>(rng, leaks)?, valid::<N>(rng, leaks)?);
            a.truncate(rng.below(a.len() + 1));
            let from = rng.below(b.len() + 1);
            a.extend_from_slice(&b[from..]);
            ("spliced", a)
        }
        4 => ("other_n", valid::<3>(rng, leaks)?),
        5 => ("deep", chain(*rng.pick(&[1, 10, 1000, 30_000, 300_000]))),
        6 => {
            let mut b = vec![0xff; rng.range(1, 200)];
            b.extend_from_slice(&valid::<N>(rng, leaks)?);
            ("prefixed", b)
        }
        7..=12 => {
            let rate = *rng.pick(&[0, 1, 3, 10, 50]);
            let mut f = Forge { rng: &mut *rng, out: Vec::new(), rate, products: 0 };
            f.index(N);
            ("forged", f.out)
        }
        13..=18 => {
            let b = if rng.chance(1, 2) { real::build::<N>(&alike(rng), leaks)? } else { valid::<N>(rng, leaks)? };
            match fields::<N>(&b) {
                Some(f) => ("edited", edit(rng, &b, &f)),
                None => ("of_unknown_format", b),
            }
        }
        _ => {
            let mut b = valid::<N>(rng, leaks)?;
            mutate(rng, &mut b);
            ("mutated", b)
        }
    })
}

/// Bytes a load of this many input bytes may hold: generous, yet far below what a trusted length could demand.
fn ceiling(len: usize) -> usize {
    (32 << 20) + 1024 * len
}

fn attempt<const N: usize>(bytes: &[u8], rng: &mut Rng) -> (Result<Option<(u64, u64)>, String>, usize) {
    let mut rng = rng.clone();
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn_scoped(s, || {
                measured(ceiling(bytes.len()), || {
                    let leaks = Leaks::default();
                    let (nodes, alloc) = (leaks.nodes(), leaks.super_alloc());
                    // Everything created from the arenas ends before them
                    guard(|| {
                        let loaded = indexer_lib::serialize::deserialize_all::<char, N>(bytes, nodes, alloc);
                        loaded.map(|(i, c)| use_index::<N>(&mut rng, i, c))
                    })
                })
            })
            .expect("harness: no thread")
            .join()
            .expect("harness: thread died")
    })
}

fn hex(bytes: &[u8]) -> String {
    bytes.iter().take(4000).map(|b| format!("{b:02x}")).collect()
}

pub fn c03(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let leaks = Leaks::default();
    if rng.chance(1, 6) {
        return prefixes(ctx, &mut rng, &leaks);
    }
    let made = if rng.chance(1, 8) { make_n::<2>(&mut rng, &leaks).map(|v| (v, 2)) } else { make(&mut rng, &leaks).map(|v| (v, 5)) };
    let ((kind, bytes), n) = match made {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("building the index of a valid catalogue failed: {e}"), json!(null)),
    };
    let (result, peak) = if n == 2 { attempt::<2>(&bytes, &mut rng) } else { attempt::<5>(&bytes, &mut rng) };
    ctx.count(kind, 1);
    ctx.max("kilobytes_held", peak as u64 >> 10);
    ctx.max("input_bytes", bytes.len() as u64);
    match result {
        Ok(None) => ctx.count("rejected", 1),
        Ok(Some((answers, most))) => {
            ctx.count("loaded_and_queried", 1);
            ctx.count("answers", answers);
            ctx.max("results_of_a_search", most);
            if kind == "edited" && most > 20 {
                ctx.count("searches_with_many_results_of_an_edited_file", 1);
            }
        }
        Err(e) => {
            return ctx.violate(format!("loading or querying {} {kind} bytes panicked: {e}", bytes.len()), json!({"n": n, "hex": hex(&bytes)}));
        }
    }
    ctx.evaluated(hash_bytes(&bytes), bytes.len() > 8);
    ctx.sample(|| json!({"kind": kind, "bytes": bytes.len(), "outcome": match &result { Ok(None) => "rejected", _ => "loaded" }, "kilobytes_held": peak >> 10}));
}

fn prefixes(ctx: &mut Ctx, rng: &mut Rng, leaks: &Leaks) {
    let bytes = match valid::<5>(rng, leaks) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("building the index of a valid catalogue failed: {e}"), json!(null)),
    };
    let step = (bytes.len() / 300).max(1);
    let mut cut = rng.below(step);
    while cut < bytes.len() {
        let (result, peak) = attempt::<5>(&bytes[..cut], rng);
        ctx.max("kilobytes_held", peak as u64 >> 10);
        match result {
            Ok(None) => {}
            Ok(Some(_)) => {
                return ctx.violate(format!("the first {cut} of the {} bytes of an index load as an index", bytes.len()), json!({"hex": hex(&bytes), "cut": cut}));
            }
            Err(e) => return ctx.violate(format!("loading the first {cut} of {} bytes panicked: {e}", bytes.len()), json!({"hex": hex(&bytes), "cut": cut})),
        }
        ctx.count("prefixes_rejected", 1);
        ctx.evaluated(hash_bytes(&bytes[..cut]), cut > 8);
        cut += if bytes.len() - cut < 60 { 1 } else { step };
    }
    match attempt::<5>(&bytes, rng).0 {
        Ok(Some(_)) => ctx.count("whole_files_loaded", 1),
        Ok(None) => ctx.violate("an intact index file is rejected", json!({"hex": hex(&bytes)})),
        Err(e) => ctx.violate(format!("loading an intact index file panicked: {e}"), json!({"hex": hex(&bytes)})),
    }
}
