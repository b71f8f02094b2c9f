//! C05, C06, C07, C08, C22: the gram index of a catalogue against counts over plain strings.
use crate::ctx::{hash_bytes, short, Ctx};
use crate::gen::{self, Cat, Shape};
use crate::model::{self, Trie};
use crate::prng::Rng;
use crate::real::{self, guard, Idx, Leaks};
use crate::with_n;
use indexer_lib::ngram::GramNode;
use serde_json::{json, Value};
use std::collections::HashMap;

pub fn pick_n(rng: &mut Rng) -> usize {
    *rng.pick(&[1, 2, 3, 3, 4, 5, 5, 5, 5, 6, 6, 7, 8, 9, 12, 17])
}

pub fn describe(cat: &Cat, n: usize) -> Value {
    let j = cat.json_array();
    json!({"n": n, "products": cat.prods.len(), "style": cat.style, "catalogue": if j.len() < 20_000 { j } else { short(&j) }})
}

fn texts(cat: &Cat) -> Vec<Vec<char>> {
    cat.prods.iter().map(gen::Prod::text).collect()
}

/// Half of the cases go through bytes, the other half observe the index before it is written.
fn obtain<const N: usize>(cat: &Cat, direct: bool, leaks: &Leaks) -> Result<Idx<N>, String> {
    if direct {
        real::build_direct::<N>(cat, leaks).map(|v| v.0)
    } else {
        real::build_and_load::<N>(cat, leaks).map(|v| v.0)
    }
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-5 * a.abs().max(b.abs()) + 1e-30
}

/// Occasionally a corpus in which one sequence occurs more than 2^16 times.
fn special(rng: &mut Rng, cat: &mut Cat) {
    if rng.chance(1, 60) && !cat.prods.is_empty() {
        let unit = gen::text(rng, 1, 2);
        let reps = rng.range(33_000, 70_000);
        cat.prods[0].description = unit.repeat(reps);
        cat.prods.truncate(4);
    }
}

// ---------------------------------------------------------------- C05

struct TreeStats {
    nodes: u64,
    max_siblings: u64,
    depth: u64,
}

fn compare_tree(
    trie: &Trie,
    at: usize,
    kids: &[&GramNode<'_, char>],
    path: &mut String,
    depth: usize,
    stats: &mut TreeStats,
) -> Result<(), String> {
    let model = &trie.nodes[at];
    if kids.len() != model.children.len() {
        return Err(format!(
            "after {path:?} the tree has {} continuations, the corpus {} (tree {:?}, corpus {:?})",
            kids.len(),
            model.children.len(),
            short(&kids.iter().map(|k| k.item).collect::<String>()),
            short(&model.children.keys().collect::<String>())
        ));
    }
    stats.max_siblings = stats.max_siblings.max(kids.len() as u64);
    stats.depth = stats.depth.max(depth as u64);
    let mut sum = 0.0;
    for k in kids {
        stats.nodes += 1;
        let child = match model.children.get(&k.item) {
            Some(v) => *v,
            None => return Err(format!("after {path:?} the tree continues with {:?}, the corpus never does", k.item)),
        };
        let expected = trie.weight(at, child);
        let weight = f64::from(k.weight);
        if !(weight > 0.0 && weight <= 1.0) {
            return Err(format!("weight {weight} of {path:?}+{:?} is outside (0,1]", k.item));
        }
        if !close(weight, expected) {
            return Err(format!(
                "weight of {path:?}+{:?} is {weight}, occurrences give {expected} ({}/{})",
                k.item, trie.nodes[child].count, model.count
            ));
        }
        sum += weight;
        if k.items.len() != k.by_occurances.len() {
            return Err(format!("below {path:?}+{:?} the list has {} entries, the table {}", k.item, k.by_occurances.len(), k.items.len()));
        }
        let mut last = f32::INFINITY;
        for c in &k.by_occurances {
            if c.weight > last {
                return Err(format!("below {path:?}+{:?} continuations are not listed from most to least probable", k.item));
            }
            last = c.weight;
            match k.items.get(&c.item) {
                Some(o) if o.item == c.item && o.weight.to_bits() == c.weight.to_bits() && o.by_occurances.len() == c.by_occurances.len() => {}
                _ => return Err(format!("below {path:?}+{:?} the table disagrees with the list about {:?}", k.item, c.item)),
            }
        }
        path.push(k.item);
        compare_tree(trie, child, &k.by_occurances, path, depth + 1, stats)?;
        path.pop();
    }
    if sum > 1.0 + 1e-3 {
        return Err(format!("the continuations of {path:?} have total probability {sum}"));
    }
    Ok(())
}

pub fn c05(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let n = pick_n(&mut rng);
    // Seldom, since it takes seconds
    if rng.chance(1, 800) {
        return c05_long(ctx, &mut rng);
    }
    with_n!(n, c05_n(ctx, &mut rng));
}

/// Characters that occur more often than 32-bit floats can count.
fn c05_long(ctx: &mut Ctx, rng: &mut Rng) {
    let mut prods = vec![gen::plain(0), gen::plain(1)];
    let counts = [rng.range(17_000_000, 26_000_000), rng.range(1_000_000, 9_000_000)];
    for (i, c) in ["a", "b"].iter().enumerate() {
        prods[i].title = String::new();
        prods[i].vendor = String::new();
        prods[i].description = c.repeat(counts[i]);
    }
    let cat = Cat { prods, style: 0 };
    let leaks = Leaks::default();
    let told = || json!({"n": 2, "texts": format!("a {} times; b {} times", counts[0], counts[1])});
    let index = match obtain::<2>(&cat, true, &leaks) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("building the index of a valid catalogue failed: {e}"), told()),
    };
    let total = (counts[0] + counts[1]) as f64;
    for (c, n) in [('a', counts[0] as f64), ('b', counts[1] as f64)] {
        let Some(root) = index.roots.get(&c) else { return ctx.violate(format!("{c:?} is no root"), told()) };
        if !close(f64::from(root.weight), n / total) {
            return ctx.violate(format!("the weight of {c:?} is {} instead of {}", root.weight, n / total), told());
        }
        let next: Vec<_> = root.by_occurances.iter().map(|k| (k.item, f64::from(k.weight))).collect();
        if !matches!(next[..], [(k, w)] if k == c && close(w, (n - 1.0) / n)) {
            return ctx.violate(format!("the continuations of {c:?} are {next:?}"), told());
        }
    }
    ctx.count("texts_beyond_24_bits", 1);
    ctx.max("characters", total as u64);
    ctx.evaluated(hash_bytes(format!("{counts:?}").as_bytes()), true);
}

fn c05_n<const N: usize>(ctx: &mut Ctx, rng: &mut Rng) {
    let shape = Shape { max_products: 330, max_text: 20_000, n: N, wide: true };
    let mut cat = gen::catalogue(rng, &shape);
    special(rng, &mut cat);
    let direct = rng.chance(1, 2);
    let texts = texts(&cat);
    let leaks = Leaks::default();
    let index = match obtain::<N>(&cat, direct, &leaks) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("building the index of a valid catalogue failed: {e}"), describe(&cat, N)),
    };
    let trie = Trie::new(&texts, N);
    for (k, v) in &index.roots {
        if *k != v.item {
            return ctx.violate(format!("root {:?} is filed under {k:?}", v.item), describe(&cat, N));
        }
    }
    let roots: Vec<_> = index.roots.values().copied().collect();
    let mut stats = TreeStats { nodes: 0, max_siblings: 0, depth: 0 };
    if let Err(e) = compare_tree(&trie, 0, &roots, &mut String::new(), 1, &mut stats) {
        return ctx.violate(format!("N={N}: {e}"), describe(&cat, N));
    }
    ctx.count("tree_nodes_compared", stats.nodes);
    ctx.max("siblings", stats.max_siblings);
    ctx.max("characters", trie.total);
    ctx.count(&format!("n{N}"), 1);
    ctx.count(if direct { "as_built" } else { "as_loaded" }, 1);
    ctx.evaluated(hash_bytes(format!("{N}{}", cat.json_array()).as_bytes()), stats.nodes > 10 && (N == 1 || stats.depth > 1));
    ctx.sample(|| json!({"n": N, "products": cat.prods.len(), "nodes": stats.nodes, "text0": texts.first().map(|t| short(&t.iter().take(80).collect::<String>()))}));
}

// ---------------------------------------------------------------- C06

pub fn c06(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let n = pick_n(&mut rng);
    with_n!(n, c06_n(ctx, &mut rng));
}

fn c06_n<const N: usize>(ctx: &mut Ctx, rng: &mut Rng) {
    let shape = Shape { max_products: 330, max_text: 20_000, n: N, wide: true };
    let mut cat = gen::catalogue(rng, &shape);
    special(rng, &mut cat);
    if rng.chance(1, 3) {
        // A phrase in exactly the number of products around the cutoff, repeated a different number of times in each
        let phrase = gen::text(rng, 8, N.max(3));
        let count = cat.prods.len();
        let limit = 4 * count / 5;
        let hits = (limit + rng.below(3)).saturating_sub(1).min(count);
        let mut order: Vec<usize> = (0..count).collect();
        rng.shuffle(&mut order);
        for i in order.into_iter().take(hits) {
            for _ in 0..rng.range(1, 3) {
                cat.prods[i].description.push_str(&phrase);
            }
        }
    }
    let direct = rng.chance(1, 2);
    let texts = texts(&cat);
    let leaks = Leaks::default();
    let index = match obtain::<N>(&cat, direct, &leaks) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("building the index of a valid catalogue failed: {e}"), describe(&cat, N)),
    };
    let mut all = 0u64;
    let expected = model::postings(&texts, N);
    for (gram, products) in &index.data {
        let found: Vec<usize> = products.iter().map(|p| p.serialization_id).collect();
        all += found.len() as u64;
        match expected.get(&gram[..]) {
            None => {
                return ctx.violate(
                    format!("N={N}: the run {gram:?} is listed (products {:?}) but should not be", &found[..found.len().min(20)]),
                    describe(&cat, N),
                )
            }
            Some(e) if *e != found => {
                return ctx.violate(
                    format!("N={N}: the run {gram:?} lists products {:?}, the texts give {:?}", &found[..found.len().min(20)], &e[..e.len().min(20)]),
                    describe(&cat, N),
                )
            }
            Some(_) => {}
        }
        for p in products {
            if p.id != cat.prods[p.serialization_id].id {
                return ctx.violate(format!("N={N}: a listing of {gram:?} refers to a foreign product"), describe(&cat, N));
            }
        }
    }
    if index.data.len() != expected.len() {
        let missing = expected.iter().find(|(k, _)| !index.data.iter().any(|(g, _)| g[..] == k[..])).unwrap();
        return ctx.violate(
            format!("N={N}: the run {:?} of products {:?} is not listed", missing.0, &missing.1[..missing.1.len().min(20)]),
            describe(&cat, N),
        );
    }
    let mut distinct = HashMap::new();
    for t in &texts {
        for w in model::windows(t, N) {
            distinct.insert(w, ());
        }
    }
    ctx.count("runs_compared", expected.len() as u64);
    ctx.count("runs_left_out", (distinct.len() - expected.len()) as u64);
    ctx.count("listings_compared", all);
    ctx.count("runs_with_repetition", expected.values().filter(|v| v.windows(2).any(|w| w[0] == w[1])).count() as u64);
    ctx.count(&format!("n{N}"), 1);
    ctx.evaluated(hash_bytes(format!("{N}{}", cat.json_array()).as_bytes()), expected.len() > 3);
    ctx.sample(|| json!({"n": N, "products": cat.prods.len(), "runs": expected.len(), "left_out": distinct.len() - expected.len()}));
}

// ---------------------------------------------------------------- C07

pub fn c07(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let n = *rng.pick(&[1, 2, 3, 3, 4, 5, 5, 5, 6, 6, 6, 7, 8, 9, 9]);
    with_n!(n, c07_n(ctx, &mut rng));
}

fn small_shape(n: usize) -> Shape {
    Shape { max_products: if n >= 6 { 12 } else { 60 }, max_text: if n >= 6 { 60 } else { 200 }, n, wide: n < 6 }
}

fn c07_n<const N: usize>(ctx: &mut Ctx, rng: &mut Rng) {
    let mut cat = gen::catalogue(rng, &small_shape(N));
    let skewed = if rng.chance(1, 25) { gen::skewed(rng, &mut cat, N) } else { Vec::new() };
    let direct = rng.chance(1, 2);
    let texts = texts(&cat);
    let leaks = Leaks::default();
    let index = match obtain::<N>(&cat, direct, &leaks) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("building the index of a valid catalogue failed: {e}"), describe(&cat, N)),
    };
    let trie = Trie::new(&texts, N);
    for round in 0..40 {
        let query: Vec<char> = match skewed.get(round) {
            Some(w) => w.clone(),
            None => gen::query(rng, &cat, N + 4).chars().collect(),
        };
        let mut w = vec!['\0'; N];
        let take = query.len().min(N);
        if rng.chance(1, 5) {
            w[..take].copy_from_slice(&query[..take]);
        } else {
            w[N - take..].copy_from_slice(&query[query.len() - take..]);
        }
        let m = match model::resolutions(&trie, &w, 300_000) {
            Some(v) => v,
            None => {
                ctx.count("windows_too_costly", 1);
                continue;
            }
        };
        let window: [char; N] = w.clone().try_into().unwrap();
        let got = match guard(|| index.search_gram(window)) {
            Ok(v) => v,
            Err(e) => return ctx.violate(format!("N={N}: resolving {window:?} panicked: {e}"), describe(&cat, N)),
        };
        let (grams, best) = model::allowed(&m);
        match got {
            None => {
                if !m.is_empty() {
                    return ctx.violate(
                        format!("N={N}: {window:?} resolves to nothing, but {:?} is reachable with confidence {best}", grams[0]),
                        describe(&cat, N),
                    );
                }
                ctx.count("windows_unresolvable", 1);
            }
            Some((gram, conf)) => {
                let conf64 = f64::from(conf);
                let reachable = m.get(&gram[..]).copied();
                let problem = if trie.path(&gram).is_none() {
                    Some("does not occur in the corpus".to_string())
                } else if gram[0] != window[0] {
                    Some("starts with another character".to_string())
                } else if !(conf > 0.0 && conf <= 1.0) {
                    Some("has a confidence outside (0,1]".to_string())
                } else {
                    match reachable {
                        None => Some("is not reachable within the allowed corrections".to_string()),
                        Some(r) if (conf64 - r).abs() > model::TIE * r => {
                            Some(format!("has a confidence other than the product of the weights, {r}"))
                        }
                        Some(_) if (conf64 - best).abs() > model::TIE * best => Some(format!("is less probable than {:?} with {best}", grams[0])),
                        _ => None,
                    }
                };
                if let Some(p) = problem {
                    return ctx.violate(format!("N={N}: {window:?} resolves to {gram:?} with confidence {conf}, which {p}"), describe(&cat, N));
                }
                if conf < 1e-3 {
                    ctx.count("windows_of_low_confidence", 1);
                }
                ctx.count(if gram == window { "windows_literal" } else { "windows_corrected" }, 1);
                ctx.count(if grams.len() > 1 { "windows_tied" } else { "windows_unique" }, 1);
                ctx.max("grams_reachable", m.len() as u64);
            }
        }
        ctx.count(&format!("n{N}_windows"), 1);
        ctx.evaluated(
            hash_bytes(format!("{N}{window:?}{}", ctx.case_seed).as_bytes()),
            m.len() > 1,
        );
        ctx.sample(|| json!({"n": N, "window": w.iter().collect::<String>(), "resolved": got.map(|g| g.0.iter().collect::<String>()), "confidence": got.map(|g| g.1), "reachable": m.len()}));
    }
}

// ---------------------------------------------------------------- C08

pub fn c08(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let n = *rng.pick(&[1, 2, 3, 4, 5, 5, 5, 5, 6, 7, 8, 9]);
    with_n!(n, c08_n(ctx, &mut rng));
}

fn c08_n<const N: usize>(ctx: &mut Ctx, rng: &mut Rng) {
    let mut cat = gen::catalogue(rng, &small_shape(N));
    if N < 6 && rng.chance(1, 30) {
        cat = gen::catalogue(rng, &Shape { max_products: 330, max_text: 400, n: N, wide: true });
    }
    let skewed = if rng.chance(1, 40) { gen::skewed(rng, &mut cat, N) } else { Vec::new() };
    let direct = rng.chance(1, 2);
    let texts = texts(&cat);
    let leaks = Leaks::default();
    let index = match obtain::<N>(&cat, direct, &leaks) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("building the index of a valid catalogue failed: {e}"), describe(&cat, N)),
    };
    let trie = Trie::new(&texts, N);
    let postings = model::postings(&texts, N);
    for round in 0..15 {
        let max = if rng.chance(1, 10) { 200 } else { 30 };
        let mut text = if round == 0 { String::new() } else { gen::query(rng, &cat, max) };
        if round < skewed.len() {
            text = skewed[round].iter().collect();
        } else if rng.chance(1, 60) {
            // A whole page pasted into the search field
            let many = if N < 6 { rng.range(260, 5000) } else { rng.range(260, 700) };
            while text.chars().count() < many {
                text.push_str(&gen::query(rng, &cat, 200));
                text.push(' ');
            }
            ctx.count("long_queries", 1);
        }
        let chars: Vec<char> = text.chars().collect();
        let got = match guard(|| index.search(chars.iter().copied())) {
            Ok(v) => v,
            Err(e) => return ctx.violate(format!("N={N}: searching {text:?} panicked: {e}"), describe(&cat, N)),
        };
        let mut seen: HashMap<usize, f32> = HashMap::new();
        for w in got.windows(2) {
            if !(w[0].1 >= w[1].1) {
                return ctx.violate(format!("N={N}: the results of {text:?} are not in non-increasing confidence ({} before {})", w[0].1, w[1].1), describe(&cat, N));
            }
        }
        for (p, c) in &got {
            if seen.insert(p.serialization_id, *c).is_some() {
                return ctx.violate(format!("N={N}: searching {text:?} returns product {} twice", p.serialization_id), describe(&cat, N));
            }
            if p.serialization_id >= cat.prods.len() || p.id != cat.prods[p.serialization_id].id {
                return ctx.violate(format!("N={N}: searching {text:?} returns a product that is not in the catalogue"), describe(&cat, N));
            }
        }
        if chars.len() < N && !chars.contains(&'\0') && trie.root('\0').is_none() && !got.is_empty() {
            return ctx.violate(format!("N={N}: the short query {text:?} returns results"), describe(&cat, N));
        }
        // The sums over the windows as the code itself resolves them ...
        let mut sums: HashMap<usize, f64> = HashMap::new();
        // ... to within what adding that many 32-bit floats may lose
        let mut added: HashMap<usize, u32> = HashMap::new();
        let mut resolved = 0u64;
        let mut failed = None;
        for w in model::windows(&chars, N) {
            let window: [char; N] = w.clone().try_into().unwrap();
            match guard(|| index.search_gram(window)) {
                Ok(Some((gram, conf))) => {
                    resolved += 1;
                    for p in postings.get(&gram[..]).into_iter().flatten() {
                        *sums.entry(*p).or_insert(0.0) += f64::from(conf);
                        *added.entry(*p).or_insert(0) += 1;
                    }
                }
                Ok(None) => {}
                Err(e) => failed = Some(e),
            }
        }
        if let Some(e) = failed {
            return ctx.violate(format!("N={N}: resolving a window of {text:?} panicked: {e}"), describe(&cat, N));
        }
        let slack = |p: &usize| 2e-3 + 6e-8 * f64::from(added.get(p).copied().unwrap_or(0));
        let agrees = sums.len() == seen.len()
            && sums.iter().all(|(p, s)| seen.get(p).is_some_and(|c| (f64::from(*c) - s).abs() <= slack(p) * s));
        if !agrees {
            // ... or, if ties could have been broken differently, any sums the model allows
            let verdict = match model::expected_search(&trie, &postings, &chars, N, 300_000) {
                None => None,
                Some((e, ambiguous)) => {
                    let ok = ambiguous
                        && seen.iter().all(|(p, c)| {
                            e.get(p).is_some_and(|e| {
                                let c = f64::from(*c);
                                c >= e.lo * (1.0 - slack(p)) && c <= e.hi * (1.0 + slack(p))
                            })
                        })
                        && e.iter().all(|(p, e)| !e.must || seen.contains_key(p));
                    Some(ok)
                }
            };
            if verdict != Some(true) {
                let mut diff: Vec<String> = Vec::new();
                for i in 0..cat.prods.len() {
                    let (a, b) = (sums.get(&i), seen.get(&i));
                    let same = match (a, b) {
                        (Some(a), Some(b)) => (f64::from(*b) - a).abs() <= slack(&i) * a,
                        (None, None) => true,
                        _ => false,
                    };
                    if !same {
                        diff.push(format!("product {i}: expected {a:?}, got {b:?}"));
                    }
                }
                diff.truncate(5);
                return ctx.violate(format!("N={N}: searching {text:?} scores wrongly: {}", diff.join("; ")), describe(&cat, N));
            }
            ctx.count("searches_judged_by_interval", 1);
        }
        ctx.count("searches", 1);
        ctx.count("results", got.len() as u64);
        ctx.count("windows_resolved", resolved);
        ctx.count(&format!("n{N}_searches"), 1);
        if got.is_empty() {
            ctx.count("searches_without_result", 1);
        }
        ctx.max("results", got.len() as u64);
        ctx.evaluated(hash_bytes(format!("{N}{text}{}", ctx.case_seed).as_bytes()), got.len() > 1);
        ctx.sample(|| json!({"n": N, "query": short(&text), "results": got.iter().take(3).map(|(p, c)| json!([p.serialization_id, c])).collect::<Vec<_>>()}));
    }
}

// ---------------------------------------------------------------- C22

pub fn c22(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let n = pick_n(&mut rng);
    with_n!(n, c22_n(ctx, &mut rng));
}

fn c22_n<const N: usize>(ctx: &mut Ctx, rng: &mut Rng) {
    let shape = Shape { max_products: 140, max_text: 600, n: N, wide: true };
    let cat = gen::catalogue(rng, &shape);
    let direct = rng.chance(1, 2);
    let texts = texts(&cat);
    let leaks = Leaks::default();
    let index = match obtain::<N>(&cat, direct, &leaks) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("building the index of a valid catalogue failed: {e}"), describe(&cat, N)),
    };
    let trie = Trie::new(&texts, N);
    let mut starts: Vec<char> = trie.nodes[0].children.keys().copied().collect();
    starts.extend(['\0', 'Z', '✗', 'q', 'a']);
    for start in starts {
        let chain = match guard(|| index.most_popular_chain(start)) {
            Ok(v) => v,
            Err(e) => return ctx.violate(format!("N={N}: chain from {start:?} panicked: {e}"), describe(&cat, N)),
        };
        let occurs = trie.root(start);
        let problem = match (occurs, chain.first()) {
            (None, None) => None,
            (None, Some(_)) => Some("is not empty although the character does not occur".to_string()),
            (Some(_), None) => Some("is empty although the character occurs".to_string()),
            (Some(_), Some(c)) if *c != start => Some("starts with another character".to_string()),
            (Some(root), Some(_)) => {
                let mut at = root;
                let mut problem = None;
                for c in &chain[1..] {
                    let kids = &trie.nodes[at].children;
                    let most = kids.values().map(|k| trie.nodes[*k].count).max().unwrap_or(0);
                    match kids.get(c) {
                        None => {
                            problem = Some(format!("continues with {c:?}, which never follows"));
                            break;
                        }
                        // Counts that far apart that they differ even as single-precision probabilities
                        Some(k) if (trie.nodes[*k].count as f64) < most as f64 * (1.0 - 1e-6) => {
                            problem = Some(format!("continues with {c:?} seen {} times, another was seen {most} times", trie.nodes[*k].count));
                            break;
                        }
                        Some(k) => at = *k,
                    }
                }
                if problem.is_none() && chain.len() > N {
                    problem = Some("is longer than N".into());
                }
                if problem.is_none() && chain.len() < N && !trie.nodes[at].children.is_empty() {
                    problem = Some("stops although the corpus continues".into());
                }
                problem
            }
        };
        if let Some(p) = problem {
            return ctx.violate(format!("N={N}: the chain {chain:?} from {start:?} {p}"), describe(&cat, N));
        }
        ctx.count("chains", 1);
        ctx.count("chain_steps", chain.len() as u64);
        if chain.is_empty() {
            ctx.count("empty_chains", 1);
        }
        ctx.evaluated(hash_bytes(format!("{N}{start}{}", ctx.case_seed).as_bytes()), chain.len() > 1 || (N == 1 && chain.len() == 1));
        ctx.sample(|| json!({"n": N, "start": start.to_string(), "chain": chain.iter().collect::<String>()}));
    }
}
