//! C10, C11, C12: categories, tags and orderings against the raw catalogue.
use super::gram::describe;
use crate::ctx::{hash_bytes, Ctx};
use crate::gen::{self, Cat, Shape};
use crate::prng::Rng;
use crate::real::{self, guard, Cls, Idx, Leaks};
use indexer_lib::classic_indexes::OrderIndex;
use indexer_lib::serialize::{Deserializable, Serializable};
use indexer_lib::js_interactable::{CategoryHandler, ExportCategoryOption, JSTag, TagHandler};
use serde_json::json;
use std::collections::HashSet;
use std::sync::Arc;

fn shape(rng: &mut Rng) -> Shape {
    Shape { max_products: 330, max_text: if rng.chance(1, 20) { 200 } else { 6 }, n: 2, wide: true }
}

fn both(ctx: &mut Ctx, cat: &Cat, leaks: &Leaks) -> Option<[(&'static str, Idx<2>, Cls); 2]> {
    let built = real::build_direct::<2>(cat, leaks);
    let loaded = real::build_and_load::<2>(cat, leaks);
    match (built, loaded) {
        (Ok(a), Ok(b)) => Some([("as built", a.0, a.1), ("as loaded", b.0, b.1)]),
        (Err(e), _) | (_, Err(e)) => {
            ctx.violate(format!("building or loading the index of a valid catalogue failed: {e}"), describe(cat, 2));
            None
        }
    }
}

// ---------------------------------------------------------------- C10

pub fn c10(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let shape = shape(&mut rng);
    let mut cat = gen::catalogue(&mut rng, &shape);
    if rng.chance(1, 5) && cat.prods.len() <= 40 {
        gen::share_much(&mut rng, &mut cat);
    }
    if rng.chance(1, 3) && cat.prods.len() > 2 {
        // An option of an early category that appears only after later categories
        let last = cat.prods.len() - 1;
        let name = cat.categories().first().map_or("Size".to_string(), |c| c.0.clone());
        cat.prods[last].options.push((name, vec!["late".into(), "late".into(), "later".into()]));
    }
    let expected = cat.categories();
    let leaks = Leaks::default();
    let versions = match both(ctx, &cat, &leaks) {
        Some(v) => v,
        None => return,
    };
    let mut numbers: Vec<Vec<usize>> = Vec::new();
    for (what, index, classic) in versions {
        let products = &index.product_container.products;
        let cats = &classic.categories.0;
        let names: Vec<&str> = cats.iter().map(|c| c.name.as_str()).collect();
        let exp: Vec<&str> = expected.iter().map(|c| c.0.as_str()).collect();
        if names != exp {
            return ctx.violate(format!("{what}: the categories are {names:?} instead of {exp:?}"), describe(&cat, 2));
        }
        let mut ids = HashSet::new();
        let mut list = Vec::new();
        for (c, (name, options)) in cats.iter().zip(&expected) {
            let found: Vec<&str> = c.options.iter().map(|o| o.name.as_str()).collect();
            if found != options.iter().map(String::as_str).collect::<Vec<_>>() {
                return ctx.violate(format!("{what}: the options of {name:?} are {found:?} instead of {options:?}"), describe(&cat, 2));
            }
            for o in &c.options {
                if !ids.insert(o.serialization_id) {
                    return ctx.violate(format!("{what}: two options are numbered {}", o.serialization_id), describe(&cat, 2));
                }
                list.push(o.serialization_id);
                for (p, raw) in products.iter().zip(&cat.prods) {
                    let truth = raw.has_option(name, &o.name);
                    if o.contains(p) != truth {
                        return ctx.violate(
                            format!("{what}: option {:?} of {name:?} {} product {} although it {}", o.name, if truth { "lacks" } else { "contains" }, p.id, if truth { "has it" } else { "does not have it" }),
                            describe(&cat, 2),
                        );
                    }
                    ctx.count("memberships_compared", 1);
                }
            }
        }
        numbers.push(list);
        // Toggle histories, on two handles of the same index
        let total: usize = expected.iter().map(|c| c.1.len()).sum();
        let classic = Arc::new(classic);
        let mut histories = 0u64;
        let mut most = 0;
        let result = guard(|| -> Option<String> {
            let mut handles: Vec<(CategoryHandler, Vec<bool>)> = (0..2).map(|_| (CategoryHandler::new(classic.clone()), vec![false; total])).collect();
            let mut exported: Vec<(usize, usize, ExportCategoryOption)> = Vec::new();
            let mut cats = handles[0].0.iter();
            let mut ci = 0;
            while let Some(mut options) = cats.next_item() {
                if ci >= expected.len() || options.name() != expected[ci].0 {
                    return Some(format!("category {ci} is iterated as {:?}", options.name()));
                }
                let mut oi = 0;
                while let Some(o) = options.next_item() {
                    if expected[ci].1.get(oi) != Some(&o.get_name()) {
                        return Some(format!("option {oi} of category {ci} is iterated as {:?}", o.get_name()));
                    }
                    exported.push((ci, oi, o));
                    oi += 1;
                }
                if options.next_item().is_some() || oi != expected[ci].1.len() {
                    return Some(format!("category {ci} iterates {oi} options"));
                }
                ci += 1;
            }
            if ci != expected.len() || cats.next_item().is_some() {
                return Some(format!("{ci} categories are iterated instead of {}", expected.len()));
            }
            if exported.is_empty() {
                return None;
            }
            // Few options are toggled often, and often options that share products
            let together: Vec<usize> = match cat.prods.len() {
                0 => Vec::new(),
                n => {
                    let raw = &cat.prods[rng.below(n)];
                    (0..exported.len()).filter(|k| raw.has_option(&expected[exported[*k].0].0, &expected[exported[*k].0].1[exported[*k].1])).collect()
                }
            };
            let one = rng.chance(1, 2);
            let limit = if cat.prods.len() * exported.len() > 20_000 { 14 } else { 80 };
            for (step, k) in gen::toggles(&mut rng, exported.len(), &together, limit).into_iter().enumerate() {
                let h = if one { 0 } else { rng.below(2) };
                handles[h].0.toggle(&exported[k].2);
                handles[h].1[k] = !handles[h].1[k];
                most = most.max(handles[h].1.iter().filter(|v| **v).count());
                for (hi, (handle, model)) in handles.iter().enumerate() {
                    for (i, (c, o, e)) in exported.iter().enumerate() {
                        if handle.get_status(e) != model[i] {
                            return Some(format!("after step {step} handle {hi} reports status {} for option {o} of category {c}", !model[i]));
                        }
                    }
                    for (p, raw) in products.iter().zip(&cat.prods) {
                        let truth = exported.iter().enumerate().all(|(i, (c, o, _))| !model[i] || raw.has_option(&expected[*c].0, &expected[*c].1[*o]));
                        if handle.is_valid(p) != truth {
                            let active: Vec<_> = exported.iter().enumerate().filter(|(i, _)| model[*i]).map(|(_, (c, o, _))| (&expected[*c].0, &expected[*c].1[*o])).collect();
                            return Some(format!("with {active:?} active, product {} {} the filter", p.id, if truth { "fails" } else { "passes" }));
                        }
                    }
                }
                histories += 1;
            }
            None
        });
        match result {
            Ok(None) => {}
            Ok(Some(e)) => return ctx.violate(format!("{what}: {e}"), describe(&cat, 2)),
            Err(e) => return ctx.violate(format!("{what}: using the category handle panicked: {e}"), describe(&cat, 2)),
        }
        ctx.count("toggles", histories);
        ctx.max("active_at_once", most as u64);
    }
    if numbers[0] != numbers[1] {
        return ctx.violate("the options are numbered differently after loading".to_string(), describe(&cat, 2));
    }
    ctx.count("categories", expected.len() as u64);
    ctx.count("options", expected.iter().map(|c| c.1.len() as u64).sum());
    ctx.count("empty_categories", expected.iter().filter(|c| c.1.is_empty()).count() as u64);
    ctx.max("options_of_a_category", expected.iter().map(|c| c.1.len() as u64).max().unwrap_or(0));
    ctx.evaluated(hash_bytes(cat.json_array().as_bytes()), expected.len() > 1 && cat.prods.len() > 1);
    ctx.sample(|| json!({"products": cat.prods.len(), "categories": expected.iter().map(|c| json!([c.0, c.1.len()])).collect::<Vec<_>>()}));
}

// ---------------------------------------------------------------- C11

pub fn c11(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let shape = shape(&mut rng);
    let mut cat = gen::catalogue(&mut rng, &shape);
    if rng.chance(1, 5) && cat.prods.len() <= 40 {
        gen::share_much(&mut rng, &mut cat);
    }
    let expected = cat.tags();
    let leaks = Leaks::default();
    let versions = match both(ctx, &cat, &leaks) {
        Some(v) => v,
        None => return,
    };
    for (what, index, classic) in versions {
        let products = &index.product_container.products;
        let mut seen = HashSet::new();
        for (i, t) in classic.tags.iter().enumerate() {
            if !seen.insert(t.name.clone()) {
                return ctx.violate(format!("{what}: tag {:?} is listed twice", t.name), describe(&cat, 2));
            }
            if t.get_id() != i {
                return ctx.violate(format!("{what}: tag {:?} at position {i} has id {}", t.name, t.get_id()), describe(&cat, 2));
            }
            if !expected.contains(t.name.as_str()) {
                return ctx.violate(format!("{what}: tag {:?} is listed, but no product carries it", t.name), describe(&cat, 2));
            }
            if classic.tags.get(i).map(|o| &o.name) != Some(&t.name) {
                return ctx.violate(format!("{what}: looking up tag {i} gives another one"), describe(&cat, 2));
            }
            for (p, raw) in products.iter().zip(&cat.prods) {
                let truth = raw.tags.iter().any(|x| *x == t.name);
                if t.contains(p) != truth {
                    return ctx.violate(format!("{what}: tag {:?} {} product {}", t.name, if truth { "lacks" } else { "wrongly contains" }, p.id), describe(&cat, 2));
                }
                ctx.count("memberships_compared", 1);
            }
        }
        if seen.len() != expected.len() || classic.tags.get(seen.len()).is_some() {
            return ctx.violate(format!("{what}: {} tags are listed instead of {}", seen.len(), expected.len()), describe(&cat, 2));
        }
        let names: Vec<String> = classic.tags.iter().map(|t| t.name.clone()).collect();
        let classic = Arc::new(classic);
        let mut toggles = 0u64;
        let mut most = 0;
        let result = guard(|| -> Option<String> {
            let mut handles: Vec<(TagHandler, Vec<bool>)> = (0..2).map(|_| (TagHandler::new(classic.clone()), vec![false; names.len()])).collect();
            let mut exported: Vec<JSTag> = Vec::new();
            let mut iter = handles[0].0.tags();
            while let Some(t) = iter.next_tag() {
                if names.get(exported.len()) != Some(&t.get_name()) || t.get_id() != exported.len() {
                    return Some(format!("tag {} is iterated as {:?}", exported.len(), t.get_name()));
                }
                exported.push(t);
            }
            if exported.len() != names.len() || iter.next_tag().is_some() {
                return Some(format!("{} tags are iterated instead of {}", exported.len(), names.len()));
            }
            if exported.is_empty() {
                return None;
            }
            let together: Vec<usize> = match cat.prods.len() {
                0 => Vec::new(),
                n => {
                    let raw = &cat.prods[rng.below(n)];
                    (0..names.len()).filter(|k| raw.tags.contains(&names[*k])).collect()
                }
            };
            let one = rng.chance(1, 2);
            let limit = if cat.prods.len() * exported.len() > 20_000 { 14 } else { 80 };
            for (step, k) in gen::toggles(&mut rng, exported.len(), &together, limit).into_iter().enumerate() {
                let h = if one { 0 } else { rng.below(2) };
                handles[h].0.toggle(&exported[k]);
                handles[h].1[k] = !handles[h].1[k];
                most = most.max(handles[h].1.iter().filter(|v| **v).count());
                for (hi, (handle, model)) in handles.iter().enumerate() {
                    for (i, e) in exported.iter().enumerate() {
                        if handle.get_status(e) != model[i] {
                            return Some(format!("after step {step} handle {hi} reports status {} for {:?}", !model[i], names[i]));
                        }
                    }
                    for (p, raw) in products.iter().zip(&cat.prods) {
                        let truth = names.iter().enumerate().all(|(i, n)| !model[i] || raw.tags.contains(n));
                        if handle.is_valid(p) != truth {
                            let active: Vec<_> = names.iter().enumerate().filter(|(i, _)| model[*i]).map(|v| v.1).collect();
                            return Some(format!("with {active:?} active, product {} {} the filter", p.id, if truth { "fails" } else { "passes" }));
                        }
                    }
                }
                toggles += 1;
            }
            None
        });
        match result {
            Ok(None) => {}
            Ok(Some(e)) => return ctx.violate(format!("{what}: {e}"), describe(&cat, 2)),
            Err(e) => return ctx.violate(format!("{what}: using the tag handle panicked: {e}"), describe(&cat, 2)),
        }
        ctx.count("toggles", toggles);
        ctx.max("active_at_once", most as u64);
    }
    ctx.count("tags", expected.len() as u64);
    ctx.max("tags", expected.len() as u64);
    ctx.count("products_repeating_a_tag", cat.prods.iter().filter(|p| p.tags.len() != p.tags.iter().collect::<HashSet<_>>().len()).count() as u64);
    ctx.evaluated(hash_bytes(cat.json_array().as_bytes()), expected.len() > 1 && cat.prods.len() > 1);
    ctx.sample(|| json!({"products": cat.prods.len(), "tags": expected.len()}));
}

// ---------------------------------------------------------------- C12

pub fn c12(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let shape = Shape { max_products: 330, max_text: 12, n: 2, wide: true };
    let mut cat = gen::catalogue(&mut rng, &shape);
    if rng.chance(1, 3) {
        // Long runs of equal keys
        let titles = ["Æble", "Zebra", "aeble", "z", "", "Æble "];
        let prices = ["5", "5.0", "5.00", "10", "9", "-1", "0", "-0"];
        for p in &mut cat.prods {
            p.title = (*rng.pick(&titles)).into();
            p.price = (*rng.pick(&prices)).into();
        }
    }
    let leaks = Leaks::default();
    let versions = match both(ctx, &cat, &leaks) {
        Some(v) => v,
        None => return,
    };
    let n = cat.prods.len();
    let mut by_title: Vec<usize> = (0..n).collect();
    by_title.sort_by(|a, b| cat.prods[*a].title.chars().cmp(cat.prods[*b].title.chars()));
    let key = |i: &usize| cat.prods[*i].price_value();
    let mut low: Vec<usize> = (0..n).collect();
    low.sort_by(|a, b| key(a).partial_cmp(&key(b)).unwrap());
    let mut high: Vec<usize> = (0..n).collect();
    high.sort_by(|a, b| key(b).partial_cmp(&key(a)).unwrap());
    let expected = [("Alphabetical", by_title), ("Price low to high", low), ("Price high to low", high)];
    for (what, _index, classic) in &versions {
        let mut names: Vec<&str> = classic.order.options().collect();
        names.sort_unstable();
        if names != ["Alphabetical", "Price high to low", "Price low to high"] {
            return ctx.violate(format!("{what}: the orderings are {names:?}"), describe(&cat, 2));
        }
        for (name, walk) in &expected {
            let positions = match classic.order.get_orders(name) {
                Some(v) => v,
                None => return ctx.violate(format!("{what}: {name:?} has no ordering"), describe(&cat, 2)),
            };
            let mut want = vec![0; n];
            for (position, product) in walk.iter().enumerate() {
                want[*product] = position;
            }
            if *positions != want {
                let at = (0..n.min(positions.len())).find(|i| positions[*i] != want[*i]);
                return ctx.violate(
                    format!(
                        "{what}: {name:?} puts product {at:?} at {:?} instead of {:?} ({} of {n} products placed)",
                        at.map(|i| positions[i]),
                        at.map(|i| want[i]),
                        positions.len()
                    ),
                    describe(&cat, 2),
                );
            }
            ctx.count("positions_compared", n as u64);
        }
        for unknown in ["", "alphabetical", "Price", "Alphabetical ", "Price low to high\0", "Popularity"] {
            if classic.order.get_orders(unknown).is_some() {
                return ctx.violate(format!("{what}: the unknown ordering {unknown:?} exists"), describe(&cat, 2));
            }
        }
    }
    // Further orderings of a caller's own, by a key or by a comparison, and one replaced
    let container = versions[0].1.product_container;
    let range = *rng.pick(&[1, 2, 5, 40, 1 << 20]);
    let keys: Vec<[i64; 2]> = (0..n).map(|_| [rng.below(range) as i64 - 2, rng.below(range) as i64]).collect();
    let by_float = rng.chance(1, 2);
    let mut wanted: Vec<(String, Vec<usize>)> = Vec::new();
    let added = guard(|| {
        let mut order = OrderIndex::new();
        let (first, second) = (&keys, &keys);
        if by_float {
            order.add(container, &|p, _| first[p.serialization_id][0] as f64 / 3.0, "mine".to_owned());
        } else {
            order.add(container, &|p, _| first[p.serialization_id][0], "mine".to_owned());
        }
        order.add(container, &|p, _| &p.id, "replaced".to_owned());
        order.add_custom_cmp(container, &|p, _| second[p.serialization_id], &|a, b| b[1].cmp(&a[1]), "replaced".to_owned());
        let mut bytes = Vec::new();
        order.serialize(&mut |b| bytes.push(b));
        let again = OrderIndex::deserialize(&bytes).map(|(rest, order)| (rest.len(), order));
        (order, again)
    });
    let (order, again) = match added {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("adding an ordering panicked: {e}"), describe(&cat, 2)),
    };
    let place = |walk: Vec<usize>| {
        let mut want = vec![0; n];
        walk.into_iter().enumerate().for_each(|(position, product)| want[product] = position);
        want
    };
    let mut walk: Vec<usize> = (0..n).collect();
    walk.sort_by_key(|i| keys[*i][0]);
    wanted.push(("mine".into(), place(walk)));
    let mut walk: Vec<usize> = (0..n).collect();
    walk.sort_by_key(|i| std::cmp::Reverse(keys[*i][1]));
    wanted.push(("replaced".into(), place(walk)));
    for (name, want) in &wanted {
        if order.get_orders(name) != Some(want) || order.options().count() != 2 {
            return ctx.violate(format!("the ordering {name:?} added by a {} of few values is not the stable one", if name == "mine" { "key" } else { "comparison" }), describe(&cat, 2));
        }
    }
    match again {
        Some((0, again)) if again == order && wanted.iter().all(|(name, want)| again.get_orders(name) == Some(want)) => {}
        _ => return ctx.violate("orderings that were added do not survive being stored", describe(&cat, 2)),
    }
    ctx.count("added_orderings", wanted.len() as u64);
    let ties = expected[1].1.windows(2).filter(|w| key(&w[0]) == key(&w[1])).count();
    let title_ties = expected[0].1.windows(2).filter(|w| cat.prods[w[0]].title == cat.prods[w[1]].title).count();
    ctx.count("equal_prices", ties as u64);
    ctx.count("equal_titles", title_ties as u64);
    ctx.max("products", n as u64);
    ctx.evaluated(hash_bytes(cat.json_array().as_bytes()), n > 2);
    ctx.sample(|| json!({"products": n, "equal_prices": ties, "equal_titles": title_ties}));
}
