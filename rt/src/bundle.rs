//! Cases for the browser build: catalogues with what the model and the native build make of them.
use crate::ctx::Ctx;
use crate::gen::{self, Cat, Shape};
use crate::model::{self, Trie};
use crate::prng::{case_seed, Rng};
use crate::props::{hostile, spelling, store};
use crate::real::{self, guard, Cls, Idx, Leaks};
use crate::{die, number, option};
use indexer_lib::data::{FeatureSet, FeatureValue, Product, ProductContainer};
use indexer_lib::ngram::{GramIndex, IndexFeed};
use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufRead, Seek, Write};
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

const N: usize = 5;

fn base64(bytes: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::with_capacity(bytes.len() * 4 / 3 + 4);
    for c in bytes.chunks(3) {
        let v = u32::from(c[0]) << 16 | u32::from(*c.get(1).unwrap_or(&0)) << 8 | u32::from(*c.get(2).unwrap_or(&0));
        for i in 0..4 {
            if i <= c.len() {
                out.push(char::from(A[(v >> (18 - 6 * i)) as usize & 63]));
            } else {
                out.push('=');
            }
        }
    }
    out
}

fn unbase64(text: &str) -> Vec<u8> {
    let mut out = Vec::new();
    let (mut v, mut bits) = (0u32, 0);
    for c in text.bytes() {
        let d = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => break,
        };
        v = v << 6 | u32::from(d);
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((v >> bits) as u8);
        }
    }
    out
}

// ---------------------------------------------------------------- features and orderings beyond today's catalogues

pub enum Column {
    Int(Vec<u32>),
    Float(Vec<f32>),
    Text(Vec<String>),
}

fn column(rng: &mut Rng, count: usize, nan: bool) -> Column {
    let len = match rng.below(3) {
        0 => count,
        1 => rng.below(count + 1),
        _ => count.saturating_sub(1),
    };
    match rng.below(3) {
        0 => Column::Int((0..len).map(|_| *rng.pick(&[0, 1, 2, 3, 7, 127, 128, 1 << 24 | 1, 1 << 31, u32::MAX])).collect()),
        1 => Column::Float(
            (0..len)
                .map(|_| *rng.pick(&[0.0, -0.0, 0.1, 1.0, -1.5, 3.0e38, 1.0e-45, f32::INFINITY, f32::NEG_INFINITY, if nan { f32::NAN } else { 4.0 }, 16_777_217.0, 2.5]))
                .collect(),
        ),
        _ => Column::Text(
            (0..len)
                .map(|_| match rng.below(4) {
                    0 => (*rng.pick(&["", "1", "0", "2.5", "NaN", "true", "null", "undefined"])).to_string(),
                    1 => gen::text(rng, 3, 4),
                    _ => (*rng.pick(&["red", "Red", "blå", "漢字", "red "])).to_string(),
                })
                .collect(),
        ),
    }
}

/// The features a catalogue gets beyond its own are among these.
pub const MORE_FEATURES: [&str; 6] = ["weight", "farve 🎨", "stock", "", "price2", "constructor"];

/// The catalogue's index with further features (some products lacking them) and orderings, as serialized bytes.
fn augmented(rng: &mut Rng, cat: &Cat, leaks: &Leaks) -> Result<(Vec<u8>, Vec<(String, Column)>), String> {
    let (index, classic, columns): (Idx<N>, Cls, _) = with_more(rng, cat, leaks, true)?;
    let bytes = guard(|| indexer_lib::serialize::serialize_all(&index, &classic))?;
    Ok((bytes, columns))
}

/// The catalogue's index with further features and orderings.
#[allow(clippy::type_complexity)]
pub fn with_more<const M: usize>(rng: &mut Rng, cat: &Cat, leaks: &Leaks, nan: bool) -> Result<(Idx<M>, Cls, Vec<(String, Column)>), String> {
    let text = leaks.text(cat.json_array());
    let count = cat.prods.len();
    let mut columns: Vec<(String, Column)> = Vec::new();
    for name in MORE_FEATURES.iter().take(rng.range(1, MORE_FEATURES.len())) {
        columns.push(((*name).to_string(), column(rng, count, nan)));
    }
    let salt = rng.u64() | 1;
    let exclusive = rng.u64();
    let (alloc, nodes) = (leaks.super_alloc(), leaks.nodes());
    let (index, classic) = guard(|| {
        let raw = serde_json::from_str(text).map_err(|e| format!("catalogue rejected: {e}"))?;
        let (container, mut classic) = indexer_lib::data::optimize(raw, alloc);
        let mut features = FeatureSet::new_empty();
        for p in &container.products {
            if let Some(FeatureValue::Float(v)) = container.extra_features.get(p, "price") {
                features.add_float("price", v);
            }
            if let Some(FeatureValue::String(v)) = container.extra_features.get(p, "image_url") {
                features.add_string("image_url", v.to_string());
            }
        }
        for (name, column) in &columns {
            match column {
                Column::Int(v) => v.iter().for_each(|v| features.add_int(name, *v)),
                Column::Float(v) => v.iter().for_each(|v| features.add_float(name, *v)),
                Column::Text(v) => v.iter().for_each(|v| features.add_string(name, v.clone())),
            }
        }
        let products = container
            .products
            .iter()
            .map(|p| Product {
                description: p.description.clone(),
                title: p.title.clone(),
                vendor: p.vendor,
                id: p.id.clone(),
                serialization_id: p.serialization_id,
            })
            .collect();
        let container: &'static ProductContainer<'static> =
            alloc.alloc(ProductContainer::new(products, container.vendors.clone(), features));
        for (i, c) in classic.categories.0.iter_mut().enumerate() {
            c.exclusive = exclusive >> (i % 64) & 1 == 1;
        }
        classic.order.add(container, &|p, _| (p.serialization_id as u64 + 1).wrapping_mul(salt), "Ærø 🙂".to_owned());
        classic.order.add(container, &|p, _| p.description.len(), String::new());
        let iter = container.products.iter().map(|p| IndexFeed {
            data: p,
            grams: [&p.description, &p.title, &p.vendor.name].into_iter().flat_map(|s| s.chars()).flat_map(char::to_lowercase),
        });
        let index: Idx<M> = GramIndex::<char, Product<'static>, M>::index_from(iter, nodes, container);
        Ok::<_, String>((index, classic))
    })??;
    Ok((index, classic, columns))
}

// ---------------------------------------------------------------- what to expect

fn float(v: f32) -> Value {
    json!(v.to_bits())
}

fn features(cat: &Cat, columns: &[(String, Column)]) -> Value {
    let mut out = serde_json::Map::new();
    let prices: Vec<_> = cat.prods.iter().map(|p| float(p.price_value())).collect();
    out.insert("price".into(), json!({"kind": "float", "values": prices}));
    let images: Vec<_> = cat.prods.iter().map(gen::Prod::image).collect();
    out.insert("image_url".into(), json!({"kind": "image", "values": images, "has": cat.prods.iter().map(|p| !p.media.is_empty()).collect::<Vec<_>>()}));
    for (name, c) in columns {
        let v = match c {
            Column::Int(v) => json!({"kind": "int", "values": v}),
            Column::Float(v) => json!({"kind": "float", "values": v.iter().map(|v| float(*v)).collect::<Vec<_>>()}),
            Column::Text(v) => json!({"kind": "string", "values": v}),
        };
        out.insert(name.clone(), v);
    }
    Value::Object(out)
}

fn positions<K: PartialOrd>(keys: &[K], descending: bool) -> Vec<usize> {
    let mut at: Vec<usize> = (0..keys.len()).collect();
    at.sort_by(|a, b| {
        let o = keys[*a].partial_cmp(&keys[*b]).expect("harness: keys compare");
        if descending {
            o.reverse()
        } else {
            o
        }
    });
    let mut out = vec![0; keys.len()];
    for (p, i) in at.into_iter().enumerate() {
        out[i] = p;
    }
    out
}

/// Other spellings of the query that lower-casing maps to it.
fn recased(rng: &mut Rng, text: &str) -> String {
    text.chars()
        .map(|c| {
            let mut up = c.to_uppercase();
            match (up.next(), up.next()) {
                (Some(u), None) if u.to_lowercase().eq([c]) && rng.chance(2, 3) => u,
                _ => c,
            }
        })
        .collect()
}

fn queries(rng: &mut Rng, cat: &Cat, index: &Idx<N>, count: usize) -> Result<Vec<Value>, String> {
    let texts: Vec<Vec<char>> = cat.prods.iter().map(gen::Prod::text).collect();
    let trie = Trie::new(&texts, N);
    let postings = model::postings(&texts, N);
    let mut keys: Vec<&Vec<char>> = postings.keys().collect();
    keys.sort_unstable();
    let mut out = Vec::new();
    for round in 0..count {
        let q = match round {
            0 => String::new(),
            1 | 2 if !keys.is_empty() => {
                // Something with as many results as possible
                let best = (0..12).map(|_| *rng.pick(&keys)).max_by_key(|k| postings[*k].len()).unwrap();
                best.iter().collect()
            }
            _ => {
                let max = if rng.chance(1, 10) { 120 } else { 30 };
                gen::query(rng, cat, max)
            }
        };
        let q: String = q.chars().flat_map(char::to_lowercase).collect();
        let chars: Vec<char> = q.chars().collect();
        let variant = recased(rng, &q);
        // Only what lower-casing identifies
        let variant = if variant.chars().flat_map(char::to_lowercase).eq(q.chars()) { Some(variant) } else { None };
        if !q.chars().flat_map(char::to_lowercase).eq(q.chars()) {
            continue;
        }
        let native = guard(|| index.search(chars.iter().copied()).iter().map(|(p, c)| json!([p.serialization_id, f64::from(*c)])).collect::<Vec<_>>())
            .map_err(|e| format!("searching {q:?} panicked: {e}"))?;
        let expect = model::expected_search(&trie, &postings, &chars, N, 400_000).map(|(e, ambiguous)| {
            json!({"ambiguous": ambiguous, "items": e.iter().map(|(p, e)| json!([p, e.lo, e.hi, e.must])).collect::<Vec<_>>()})
        });
        out.push(json!({"q": q, "variant": variant, "native": native, "expect": expect}));
    }
    Ok(out)
}

fn shape(rng: &mut Rng) -> Shape {
    if rng.chance(1, 25) {
        Shape { max_products: 330, max_text: 60, n: N, wide: true }
    } else {
        Shape { max_products: 40, max_text: if rng.chance(1, 8) { 400 } else { 90 }, n: N, wide: true }
    }
}

struct Made {
    cat: Cat,
    bytes: Vec<u8>,
    columns: Vec<(String, Column)>,
    augmented: bool,
}

fn make(rng: &mut Rng, leaks: &Leaks) -> Result<Made, String> {
    let shape = shape(rng);
    let mut cat = gen::catalogue(rng, &shape);
    if rng.chance(1, 150) {
        let n = rng.range(1100, 2600);
        cat.prods = gen::crowd(rng, cat.style, n, 6);
    }
    if !cat.prods.is_empty() && rng.chance(1, 12) {
        let l = rng.range(15, 300);
        let name = gen::text(rng, 8, l).replace(' ', "-");
        let at = rng.below(cat.prods.len());
        cat.prods[at].tags.push(name);
    }
    if rng.chance(2, 3) {
        // Common words keep texts searchable together, below the limit at which they are left out
        for (i, p) in cat.prods.iter_mut().enumerate() {
            if i % 3 != 0 {
                p.title = format!("kunst{} {}", if i % 2 == 0 { " plakat" } else { "" }, p.title);
            }
        }
    }
    if cat.prods.len() < 1000 && rng.chance(1, 2) {
        let (bytes, columns) = augmented(rng, &cat, leaks)?;
        Ok(Made { cat, bytes, columns, augmented: true })
    } else {
        let bytes = real::build::<N>(&cat, leaks)?;
        Ok(Made { cat, bytes, columns: Vec::new(), augmented: false })
    }
}

/// A catalogue that looks like another one: one detail differs, mostly by as little as can be.
fn sibling(rng: &mut Rng, cat: &Cat) -> Cat {
    let mut cat = Cat { prods: cat.prods.clone(), style: cat.style };
    if cat.prods.is_empty() {
        return cat;
    }
    let changed = |t: &str| -> String {
        let mut c: Vec<char> = t.chars().collect();
        match c.last_mut() {
            Some(l) if l.is_ascii_graphic() => *l = if *l == 'q' { 'w' } else { 'q' },
            _ => c.push('q'),
        }
        c.into_iter().collect()
    };
    for _ in 0..rng.range(1, 2) {
        let at = rng.below(cat.prods.len());
        let other = rng.below(cat.prods.len());
        match rng.below(7) {
            0 => {
                // the tag or option in every product that has it
                if let Some(t) = cat.prods[at].tags.first().cloned() {
                    let n = changed(&t);
                    cat.prods.iter_mut().flat_map(|p| p.tags.iter_mut()).filter(|x| **x == t).for_each(|x| *x = n.clone());
                }
            }
            1 => {
                if let Some(v) = cat.prods[at].options.first().and_then(|o| o.1.first().cloned()) {
                    let n = changed(&v);
                    cat.prods.iter_mut().flat_map(|p| p.options.iter_mut()).flat_map(|o| o.1.iter_mut()).filter(|x| **x == v).for_each(|x| *x = n.clone());
                }
            }
            2 => cat.prods[at].title = changed(&cat.prods[at].title),
            3 => cat.prods[at].description = changed(&cat.prods[at].description),
            4 => {
                let (a, b) = (cat.prods[at].price.clone(), cat.prods[other].price.clone());
                cat.prods[at].price = b;
                cat.prods[other].price = a;
            }
            5 => {
                let (a, b) = (cat.prods[at].tags.clone(), cat.prods[other].tags.clone());
                cat.prods[at].tags = b;
                cat.prods[other].tags = a;
            }
            _ => cat.prods.swap(at, other),
        }
    }
    cat
}

fn describe(rng: &mut Rng, made: &Made, leaks: &Leaks, query_count: usize) -> Result<Value, String> {
    let Made { cat, bytes, columns, augmented } = made;
    let (index, classic) = real::load::<N>(bytes, leaks)?.ok_or("the built index does not load")?;
    let container = index.product_container;
    let products: Vec<Value> = cat
        .prods
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let stored = container.products.get(i).map(|p| p.description.clone());
            json!({"id": p.id, "title": p.title, "description": p.description, "stored": stored, "vendor": p.vendor,
                   "tags": p.tags, "options": p.options})
        })
        .collect();
    let mut orders = serde_json::Map::new();
    let titles: Vec<&str> = cat.prods.iter().map(|p| p.title.as_str()).collect();
    let prices: Vec<f32> = cat.prods.iter().map(gen::Prod::price_value).collect();
    orders.insert("Alphabetical".into(), json!(positions(&titles, false)));
    orders.insert("Price low to high".into(), json!(positions(&prices, false)));
    orders.insert("Price high to low".into(), json!(positions(&prices, true)));
    if *augmented {
        for name in ["Ærø 🙂", ""] {
            orders.insert(name.into(), json!(classic.order.get_orders(name)));
        }
    }
    let queries = queries(rng, cat, &index, query_count)?;
    let native_tags: Vec<&str> = classic.tags.iter().map(|t| t.name.as_str()).collect();
    let native_categories: Vec<Value> = classic
        .categories
        .0
        .iter()
        .map(|c| json!([c.name, c.options.iter().map(|o| o.name.as_str()).collect::<Vec<_>>()]))
        .collect();
    Ok(json!({
        "products": products, "features": features(cat, columns), "orders": orders, "queries": queries, "augmented": augmented,
        "categories": cat.categories(), "native_categories": native_categories, "native_tags": native_tags, "bytes": base64(bytes),
    }))
}

// ---------------------------------------------------------------- the cases of each property

fn json_case(seed: u64) -> (Cat, String) {
    let mut rng = Rng::new(seed ^ 0x15);
    let shape = shape(&mut rng);
    let cat = gen::catalogue(&mut rng, &shape);
    let text = spelling::object(&mut rng, &cat);
    (cat, text)
}

/// Queries that meet something in an index of any origin.
fn probes(rng: &mut Rng, loaded: &Option<(Idx<N>, Cls)>) -> Vec<String> {
    let Some((index, _)) = loaded else { return Vec::new() };
    let mut out: Vec<String> = index.data.keys().take(6).map(|g| g.iter().collect()).collect();
    let mut roots: Vec<char> = index.roots.keys().copied().collect();
    roots.sort_unstable();
    for _ in 0..3 {
        if roots.is_empty() {
            break;
        }
        let mut node = index.roots[rng.pick(&roots)];
        let mut text = String::from(node.item);
        while text.chars().count() < 12 && !node.by_occurances.is_empty() {
            node = *rng.pick(&node.by_occurances);
            text.push(node.item);
        }
        out.push(text);
    }
    out
}

fn case(prop: &str, seed: u64) -> Result<Value, String> {
    let mut rng = Rng::new(seed);
    let leaks = Leaks::default();
    let mut out = serde_json::Map::new();
    if matches!(prop, "C17" | "C21") {
        out.insert("json".into(), json!(json_case(seed).1));
        if prop == "C17" {
            let bad: Vec<String> = (0..4).map(|_| spelling::broken(&mut rng)).collect();
            out.insert("broken".into(), json!(bad));
        }
    }
    if matches!(prop, "C13" | "C14" | "C15" | "C16" | "C21" | "C04" | "C24") {
        let count = if prop == "C04" { rng.range(2, 4) } else { 1 };
        let mut gens = Vec::new();
        for _ in 0..count {
            let made = make(&mut rng, &leaks)?;
            let queries = if prop == "C15" || prop == "C16" { 1 } else { 12 };
            gens.push(describe(&mut rng, &made, &leaks, queries)?);
            if prop == "C04" && gens.len() < count && rng.chance(2, 3) {
                let cat = sibling(&mut rng, &made.cat);
                let bytes = real::build::<N>(&cat, &leaks)?;
                gens.push(describe(&mut rng, &Made { cat, bytes, columns: Vec::new(), augmented: false }, &leaks, queries)?);
            }
            if gens.len() >= count {
                break;
            }
        }
        out.insert("catalogues".into(), json!(gens));
    }
    if matches!(prop, "C03" | "C04") {
        let mut hostile = Vec::new();
        for _ in 0..(if prop == "C03" { 12 } else { 5 }) {
            let (kind, bytes) = hostile::make(&mut rng, &leaks)?;
            let loaded = real::load::<N>(&bytes, &leaks).unwrap_or(None);
            hostile.push(json!({"kind": kind, "bytes": base64(&bytes), "loads": loaded.is_some(), "prefix": false, "probes": probes(&mut rng, &loaded)}));
        }
        for _ in 0..4 {
            let made = make(&mut rng, &leaks)?;
            let cut = if rng.chance(1, 3) { made.bytes.len() - 1 - rng.below(made.bytes.len().min(20)) } else { rng.below(made.bytes.len()) };
            hostile.push(json!({"kind": "prefix", "bytes": base64(&made.bytes[..cut]), "loads": false, "prefix": true, "probes": []}));
        }
        out.insert("hostile".into(), json!(hostile));
    }
    Ok(Value::Object(out))
}

pub fn run(args: &[String]) {
    let prop = args.get(2).cloned().unwrap_or_default();
    let (seed, worker) = (number(args, "--seed", 1), number(args, "--worker", 0));
    let limit = Duration::from_secs(number(args, "--secs", 10));
    let only: Option<u64> = option(args, "--case").map(|v| v.parse().unwrap_or_else(|_| die("bad --case")));
    let mut out = unsafe { File::from_raw_fd(3) };
    let start = Instant::now();
    let mut i = 0;
    while start.elapsed() < limit || only.is_some() {
        let seed = only.unwrap_or_else(|| case_seed(seed, worker, i));
        let line = match case(&prop, seed) {
            Ok(Value::Object(mut m)) => {
                m.insert("case".into(), json!(seed.to_string()));
                Value::Object(m)
            }
            Ok(_) => die("no case"),
            Err(e) => json!({"case": seed.to_string(), "error": e}),
        };
        if out.write_all(format!("{line}\n").as_bytes()).is_err() {
            return; // the reader has seen enough
        }
        i += 1;
        if only.is_some() {
            return;
        }
    }
}

/// Native verdicts on index files the wasm build produced from the JSON of the given cases.
pub fn verify(args: &[String]) {
    let input = option(args, "--in").unwrap_or_else(|| die("no --in"));
    let out = option(args, "--out").unwrap_or_else(|| die("no --out"));
    let mut current = option(args, "--current").map(|p| File::create(p).unwrap_or_else(|e| die(&e.to_string())));
    let mut ctx = Ctx::default();
    let lines = std::io::BufReader::new(File::open(&input).unwrap_or_else(|e| die(&e.to_string()))).lines();
    for line in lines {
        let line = line.unwrap_or_else(|e| die(&e.to_string()));
        let v: Value = serde_json::from_str(&line).unwrap_or_else(|e| die(&e.to_string()));
        let seed: u64 = v["case"].as_str().and_then(|s| s.parse().ok()).unwrap_or_else(|| die("no case"));
        if let Some(f) = &mut current {
            f.rewind().and_then(|()| f.write_all(format!("{seed:020}\n").as_bytes())).unwrap_or_else(|e| die(&e.to_string()));
        }
        ctx.case_seed = seed;
        let bytes = unbase64(v["bytes"].as_str().unwrap_or_else(|| die("no bytes")));
        let (cat, _) = json_case(seed);
        match store::same_catalogue(&cat, &bytes) {
            Ok(n) => {
                ctx.count("wasm_files_compared_natively", 1);
                ctx.count("wasm_file_products_compared", n);
                ctx.evaluated(seed ^ 0x77, n > 1);
            }
            Err(e) => ctx.violate(format!("the index the wasm build made, loaded natively: {e}"), json!({"products": cat.prods.len()})),
        }
    }
    std::fs::write(out, ctx.to_json().to_string()).unwrap_or_else(|e| die(&e.to_string()));
}
