//! C25, C26: the vendor table and the feature columns.
use super::gram::describe;
use crate::bundle::{self, Column};
use crate::ctx::{hash_bytes, Ctx};
use crate::gen::{self, Cat, Shape};
use crate::prng::Rng;
use crate::real::{self, guard, Leaks};
use indexer_lib::data::{Feature, FeatureSet, FeatureValue, Product, ProductContainer};
use indexer_lib::serialize::{Deserializable, Serializable};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- C25

/// Names no product has, some of them very much like ones that products have.
fn strangers(rng: &mut Rng, known: &BTreeSet<&str>) -> Vec<String> {
    let mut out = vec![String::new(), "v".to_string(), "no such vendor".to_string(), gen::text(rng, 8, 5)];
    let known: Vec<&str> = known.iter().copied().collect();
    for _ in 0..6 {
        if known.is_empty() {
            break;
        }
        let k: &str = rng.pick(&known);
        out.push(match rng.below(6) {
            0 => format!("{k} "),
            1 => format!(" {k}"),
            2 => k.to_uppercase(),
            3 => k.to_lowercase(),
            4 => k.chars().skip(1).collect(),
            _ => format!("{k}{k}"),
        });
    }
    out
}

fn check_vendors(cat: &Cat, container: &ProductContainer<'_>, strangers: &[String]) -> Result<(), String> {
    let names: BTreeSet<&str> = cat.prods.iter().map(|p| p.vendor.as_str()).collect();
    let table = &container.vendors;
    if table.by_id.len() != names.len() {
        return Err(format!("{} different vendors have {} entries", names.len(), table.by_id.len()));
    }
    let mut seen = BTreeSet::new();
    for (i, v) in table.by_id.iter().enumerate() {
        if v.id != i {
            return Err(format!("entry {i} of the vendors is numbered {}", v.id));
        }
        if !names.contains(v.name.as_str()) {
            return Err(format!("there is an entry for {:?}, which is nobody's vendor", v.name));
        }
        if !seen.insert(v.name.as_str()) {
            return Err(format!("vendor {:?} has two entries", v.name));
        }
    }
    for name in &names {
        match table.get(name) {
            Some(v) if v.name == *name && std::ptr::eq(v, table.by_id[v.id]) => {}
            Some(v) => return Err(format!("looking up {name:?} finds {:?} number {}", v.name, v.id)),
            None => return Err(format!("looking up {name:?} finds nothing")),
        }
    }
    for name in strangers {
        if let (false, Some(v)) = (names.contains(name.as_str()), table.get(name)) {
            return Err(format!("looking up {name:?}, which is nobody's vendor, finds {:?}", v.name));
        }
    }
    if container.products.len() != cat.prods.len() {
        return Err(format!("{} products became {}", cat.prods.len(), container.products.len()));
    }
    for (raw, p) in cat.prods.iter().zip(&container.products) {
        let ok = table.by_id.get(p.vendor.id).is_some_and(|v| std::ptr::eq(*v, p.vendor)) && p.vendor.name == raw.vendor;
        if !ok {
            return Err(format!("product {} of vendor {:?} refers to {:?} number {}", p.serialization_id, raw.vendor, p.vendor.name, p.vendor.id));
        }
    }
    Ok(())
}

/// Vendors much alike, or very many.
fn rename(rng: &mut Rng, cat: &mut Cat) {
    match rng.below(6) {
        0 | 1 => {
            let base = gen::text(rng, cat.style, 6);
            let alike = [base.clone(), base.to_uppercase(), base.to_lowercase(), format!("{base} "), format!(" {base}"), format!("{base}\u{301}"),
                base.chars().rev().collect(), String::new(), " ".into(), "\0".into(), format!("{base}\0"), base.chars().take(5).collect()];
            for p in &mut cat.prods {
                p.vendor = rng.pick(&alike).clone();
            }
        }
        2 => {
            let many = *rng.pick(&[126, 127, 128, 129, 130, 255, 256, 257, 300, 700]);
            cat.prods = (0..many + rng.below(20)).map(gen::plain).collect();
            for (i, p) in cat.prods.iter_mut().enumerate() {
                p.vendor = format!("{}", i % many);
            }
            if rng.chance(1, 2) {
                rng.shuffle(&mut cat.prods);
            }
        }
        3 => {
            let one = gen::text(rng, cat.style, 130);
            cat.prods.iter_mut().for_each(|p| p.vendor = one.clone());
        }
        _ => {}
    }
}

pub fn c25(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let shape = Shape { max_products: 200, max_text: 60, n: 2, wide: true };
    let mut cat = gen::catalogue(&mut rng, &shape);
    rename(&mut rng, &mut cat);
    let names: BTreeSet<&str> = cat.prods.iter().map(|p| p.vendor.as_str()).collect();
    let strangers = strangers(&mut rng, &names);
    let leaks = Leaks::default();
    let (index, classic) = match real::build_direct::<2>(&cat, &leaks) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("building the index of a valid catalogue failed: {e}"), describe(&cat, 2)),
    };
    if let Err(d) = check_vendors(&cat, index.product_container, &strangers) {
        return ctx.violate(format!("after indexing, {d}"), describe(&cat, 2));
    }
    let built: Vec<&str> = index.product_container.vendors.by_id.iter().map(|v| v.name.as_str()).collect();
    let bytes = match guard(|| indexer_lib::serialize::serialize_all(&index, &classic)) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("serializing failed: {e}"), describe(&cat, 2)),
    };
    let (index, _classic) = match real::load::<2>(&bytes, &leaks) {
        Ok(Some(v)) => v,
        Ok(None) => return ctx.violate("the built index does not load", describe(&cat, 2)),
        Err(e) => return ctx.violate(format!("loading failed: {e}"), describe(&cat, 2)),
    };
    if let Err(d) = check_vendors(&cat, index.product_container, &strangers) {
        return ctx.violate(format!("after loading, {d}"), describe(&cat, 2));
    }
    let loaded: Vec<&str> = index.product_container.vendors.by_id.iter().map(|v| v.name.as_str()).collect();
    if built != loaded {
        return ctx.violate("loading numbers the vendors anew", describe(&cat, 2));
    }
    ctx.count("vendors_compared", 2 * names.len() as u64);
    ctx.count("strange_names_looked_up", 2 * strangers.iter().filter(|s| !names.contains(s.as_str())).count() as u64);
    ctx.count("products_of_shared_vendors", (cat.prods.len() - names.len()) as u64);
    ctx.max("vendors", names.len() as u64);
    ctx.evaluated(hash_bytes(cat.json_array().as_bytes()), names.len() > 1);
    ctx.sample(|| json!({"products": cat.prods.len(), "vendors": names.len()}));
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug, PartialEq)]
enum Value {
    Text(String),
    Float(u32),
    Int(u32),
}

fn value(v: Option<FeatureValue<'_>>) -> Option<Value> {
    v.map(|v| match v {
        FeatureValue::String(s) => Value::Text(s.to_string()),
        FeatureValue::Float(f) => Value::Float(f.to_bits()),
        FeatureValue::Integer(i) => Value::Int(i),
    })
}

fn some_value(rng: &mut Rng, kind: usize, style: usize) -> Value {
    match kind {
        0 => {
            let l = *rng.pick(&[0, 1, 2, 5, 20, 127, 128, 129]);
            Value::Text(gen::text(rng, style, l))
        }
        1 => Value::Float(match rng.below(6) {
            0 => rng.u64() as u32,
            1 => *rng.pick(&[0, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f80_0001, 0xffc1_2345, 1, 0x0080_0000]),
            _ => (rng.below(200) as f32 / 4.0 - 10.0).to_bits(),
        }),
        _ => Value::Int(match rng.below(5) {
            0 => rng.u64() as u32,
            1 => *rng.pick(&[0, u32::MAX, u32::MAX - 1, 127, 128, 16_383, 16_384, 1 << 24, (1 << 24) + 1, 1 << 31]),
            2 => rng.u64() as u32 >> rng.below(32),
            _ => rng.below(300) as u32,
        }),
    }
}

/// What the columns say, whichever way they are asked.
fn check_columns(model: &BTreeMap<String, Vec<Value>>, set: &FeatureSet, products: &[Product<'_>], names: &[String]) -> Result<u64, String> {
    let mut compared = 0;
    for name in names {
        let column = model.get(name);
        match (column, set.get_feature(name)) {
            (None, None) => {}
            (Some(_), None) => return Err(format!("feature {name:?} is not there")),
            (None, Some(_)) => return Err(format!("feature {name:?}, which nothing was added to, is there")),
            (Some(column), Some(feature)) => {
                let (kind, len) = match feature {
                    Feature::String(l) => (0, l.len()),
                    Feature::Float(l) => (1, l.len()),
                    Feature::Integer(l) => (2, l.len()),
                };
                let wanted = match column[0] {
                    Value::Text(_) => 0,
                    Value::Float(_) => 1,
                    Value::Int(_) => 2,
                };
                if kind != wanted || len != column.len() {
                    return Err(format!("feature {name:?} has {len} values of kind {kind} instead of {} of kind {wanted}", column.len()));
                }
                for i in (0..column.len() + 3).chain([usize::MAX, 1 << 32, column.len() + 256]) {
                    let (got, want) = (value(feature.get(i)), column.get(i).cloned());
                    if got != want {
                        return Err(format!("value {i} of feature {name:?} is {got:?} instead of {want:?}"));
                    }
                    compared += 1;
                }
            }
        }
        for p in products {
            let (got, want) = (value(set.get(p, name)), column.and_then(|c| c.get(p.serialization_id)).cloned());
            if got != want {
                return Err(format!("feature {name:?} of product {} is {got:?} instead of {want:?}", p.serialization_id));
            }
            compared += 1;
        }
    }
    Ok(compared)
}

/// Features added in any order to a set of their own.
fn c26_set(ctx: &mut Ctx, rng: &mut Rng) {
    let style = gen::style(rng, true);
    let shape = Shape { max_products: 40, max_text: 10, n: 2, wide: false };
    let cat = gen::catalogue(rng, &shape);
    let leaks = Leaks::default();
    let (index, _classic) = match real::build_direct::<2>(&cat, &leaks) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("building the index of a valid catalogue failed: {e}"), describe(&cat, 2)),
    };
    let products = &index.product_container.products;
    let mut names: Vec<String> = ["price", "", "Price", "price ", "pric", "æ", "\0", "image_url", "a", "b"].iter().map(|s| (*s).to_string()).collect();
    names.push(gen::text(rng, style, 130));
    let kinds: Vec<usize> = names.iter().map(|_| rng.below(3)).collect();
    let used = rng.range(1, names.len() - 1);
    let mut model: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    let steps = *rng.pick(&[0, 1, 2, 10, 60, 200, 200, 1000]);
    let mut set = FeatureSet::new_empty();
    let mut history = Vec::new();
    for _ in 0..steps {
        let which = rng.below(used);
        let v = some_value(rng, kinds[which], style);
        history.push(json!([names[which], format!("{v:?}")]));
        let r = guard(|| match &v {
            Value::Text(s) => set.add_string(&names[which], s.clone()),
            Value::Float(b) => set.add_float(&names[which], f32::from_bits(*b)),
            Value::Int(i) => set.add_int(&names[which], *i),
        });
        if let Err(e) = r {
            return ctx.violate(format!("adding a value panicked: {e}"), json!(history));
        }
        model.entry(names[which].clone()).or_default().push(v);
    }
    let mut bytes = Vec::new();
    let outcome = guard(|| {
        let mut compared = check_columns(&model, &set, products, &names)?;
        set.serialize(&mut |b| bytes.push(b));
        bytes.push(7);
        let (rest, again) = FeatureSet::deserialize(&bytes).ok_or("what was written does not load")?;
        if rest != [7] {
            return Err("loading leaves other bytes than followed".to_string());
        }
        compared += check_columns(&model, &again, products, &names).map_err(|e| format!("after loading, {e}"))?;
        Ok(compared)
    });
    match outcome {
        Ok(Ok(n)) => ctx.count("values_compared", n),
        Ok(Err(e)) | Err(e) => return ctx.violate(e, json!(history)),
    }
    for c in model.values() {
        ctx.count(match c[0] { Value::Text(_) => "text_columns", Value::Float(_) => "float_columns", Value::Int(_) => "integer_columns" }, 1);
        ctx.count("short_columns", u64::from(c.len() < products.len()));
    }
    ctx.evaluated(hash_bytes(&bytes), model.len() > 1);
}

/// Features of a whole index.
fn c26_index(ctx: &mut Ctx, rng: &mut Rng) {
    let shape = Shape { max_products: 150, max_text: 20, n: 2, wide: true };
    let cat = gen::catalogue(rng, &shape);
    let leaks = Leaks::default();
    let (index, classic, columns) = match bundle::with_more::<2>(rng, &cat, &leaks, true) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("building an index with further features failed: {e}"), describe(&cat, 2)),
    };
    let mut model: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    for (name, column) in columns {
        let values: Vec<Value> = match column {
            Column::Int(v) => v.into_iter().map(Value::Int).collect(),
            Column::Float(v) => v.into_iter().map(|f| Value::Float(f.to_bits())).collect(),
            Column::Text(v) => v.into_iter().map(Value::Text).collect(),
        };
        if !values.is_empty() {
            model.insert(name, values);
        }
    }
    if !cat.prods.is_empty() {
        model.insert("price".into(), cat.prods.iter().map(|p| Value::Float(p.price_value().to_bits())).collect());
    }
    let mut names: Vec<String> = bundle::MORE_FEATURES.iter().map(|s| (*s).to_string()).collect();
    names.extend(["price", "Price", "pric", "no such feature", "title", "id"].iter().map(|s| (*s).to_string()).filter(|s| !bundle::MORE_FEATURES.contains(&s.as_str())));
    names.dedup();
    let (built, loaded);
    let outcome = guard(|| check_columns(&model, &index.product_container.extra_features, &index.product_container.products, &names));
    match outcome {
        Ok(Ok(n)) => built = n,
        Ok(Err(e)) | Err(e) => return ctx.violate(format!("after indexing, {e}"), describe(&cat, 2)),
    }
    let bytes = match guard(|| indexer_lib::serialize::serialize_all(&index, &classic)) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("serializing failed: {e}"), describe(&cat, 2)),
    };
    let again = match real::load::<2>(&bytes, &leaks) {
        Ok(Some(v)) => v.0,
        Ok(None) => return ctx.violate("the built index does not load", describe(&cat, 2)),
        Err(e) => return ctx.violate(format!("loading failed: {e}"), describe(&cat, 2)),
    };
    match guard(|| check_columns(&model, &again.product_container.extra_features, &again.product_container.products, &names)) {
        Ok(Ok(n)) => loaded = n,
        Ok(Err(e)) | Err(e) => return ctx.violate(format!("after loading, {e}"), describe(&cat, 2)),
    }
    ctx.count("values_in_an_index", built + loaded);
    ctx.evaluated(hash_bytes(&bytes), model.len() > 1 && cat.prods.len() > 1);
    ctx.sample(|| json!({"products": cat.prods.len(), "features": model.keys().collect::<Vec<_>>()}));
}

pub fn c26(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    if rng.chance(1, 3) {
        c26_index(ctx, &mut rng);
    } else {
        c26_set(ctx, &mut rng);
    }
}
