//! C01, C09, C19, C23: what is written is what is read.
use super::gram::describe;
use crate::ctx::{hash_bytes, short, Ctx};
use crate::gen::{self, Cat, Shape};
use crate::model;
use crate::prng::Rng;
use crate::real::{self, guard, Cls, Idx, Leaks};
use crate::with_n;
use indexer_lib::classic_indexes::ClassicIndexes;
use indexer_lib::data::{Feature, FeatureValue, Product, ProductContainer};
use indexer_lib::ngram::{GramIndex, GramNode};
use indexer_lib::serialize::Deserializable;
use serde_json::json;

// ---------------------------------------------------------------- C01

/// Everything observable about an index except descriptions, in a canonical form.
/// Siblings of equal weight may come in any order, which separate builds (`ordered` false) settle differently.
fn fingerprint_node(node: &GramNode<'_, char>, ordered: bool, out: &mut Vec<u64>) {
    out.push(u64::from(u32::from(node.item)) << 32 | u64::from(node.weight.to_bits()));
    out.push(node.by_occurances.len() as u64 | (node.items.len() as u64) << 32);
    let mut children: Vec<&&GramNode<'_, char>> = node.by_occurances.iter().collect();
    if !ordered {
        children.sort_by_key(|c| c.item);
    }
    for c in children {
        match node.items.get(&c.item) {
            Some(o) => out.push(u64::from(o.weight.to_bits())),
            None => out.push(u64::MAX),
        }
        fingerprint_node(c, ordered, out);
    }
}

fn first_difference<const N: usize>(a: (&Idx<N>, &Cls), b: (&Idx<N>, &Cls), ordered: bool) -> Option<String> {
    let ((ai, ac), (bi, bc)) = (a, b);
    let (pa, pb) = (&ai.product_container.products, &bi.product_container.products);
    if pa.len() != pb.len() {
        return Some(format!("{} products became {}", pa.len(), pb.len()));
    }
    for (x, y) in pa.iter().zip(pb) {
        if x.title != y.title || x.id != y.id || x.vendor.name != y.vendor.name || x.vendor.id != y.vendor.id || x.serialization_id != y.serialization_id || x.get_id_checked() != y.get_id_checked() {
            return Some(format!("product {} differs", x.serialization_id));
        }
        if !x.description.starts_with(&y.description) && !y.description.starts_with(&x.description) {
            return Some(format!("the description of product {} differs", x.serialization_id));
        }
    }
    for name in ["price", "image_url", "no such feature"].into_iter().chain(crate::bundle::MORE_FEATURES) {
        for (x, y) in pa.iter().zip(pb) {
            let (u, v) = (ai.product_container.extra_features.get(x, name), bi.product_container.extra_features.get(y, name));
            let same = match (&u, &v) {
                (None, None) => true,
                (Some(FeatureValue::String(a)), Some(FeatureValue::String(b))) => a == b,
                (Some(FeatureValue::Float(a)), Some(FeatureValue::Float(b))) => a.to_bits() == b.to_bits(),
                (Some(FeatureValue::Integer(a)), Some(FeatureValue::Integer(b))) => a == b,
                _ => false,
            };
            if !same {
                return Some(format!("feature {name:?} of product {} differs", x.serialization_id));
            }
        }
    }
    if ai.roots.len() != bi.roots.len() {
        return Some(format!("{} roots became {}", ai.roots.len(), bi.roots.len()));
    }
    for (k, r) in &ai.roots {
        let other = match bi.roots.get(k) {
            Some(v) => v,
            None => return Some(format!("root {k:?} is missing")),
        };
        let (mut x, mut y) = (Vec::new(), Vec::new());
        fingerprint_node(r, ordered, &mut x);
        fingerprint_node(other, ordered, &mut y);
        if x != y {
            return Some(format!("the tree below {k:?} differs"));
        }
    }
    if ai.data.len() != bi.data.len() {
        return Some(format!("{} runs became {}", ai.data.len(), bi.data.len()));
    }
    for (k, l) in &ai.data {
        let x: Vec<usize> = l.iter().map(|p| p.serialization_id).collect();
        let y: Option<Vec<usize>> = bi.data.get(k).map(|l| l.iter().map(|p| p.serialization_id).collect());
        if y.as_ref() != Some(&x) {
            return Some(format!("the listing of {k:?} differs: {x:?} became {y:?}"));
        }
    }
    if ac.categories.0.len() != bc.categories.0.len() {
        return Some("the number of categories differs".into());
    }
    for (c, d) in ac.categories.0.iter().zip(&bc.categories.0) {
        if c.name != d.name || c.exclusive != d.exclusive || c.options.len() != d.options.len() {
            return Some(format!("category {:?} differs", c.name));
        }
        for (o, p) in c.options.iter().zip(&d.options) {
            if o.name != p.name || o.serialization_id != p.serialization_id {
                return Some(format!("option {:?} (number {}) of {:?} became {:?} (number {})", o.name, o.serialization_id, c.name, p.name, p.serialization_id));
            }
            for (x, y) in pa.iter().zip(pb) {
                if o.contains(x) != p.contains(y) {
                    return Some(format!("membership of product {} in option {:?} differs", x.serialization_id, o.name));
                }
            }
        }
    }
    let (mut ta, mut tb): (Vec<_>, Vec<_>) = (ac.tags.iter().collect(), bc.tags.iter().collect());
    if !ordered {
        ta.sort_by_key(|t| &t.name);
        tb.sort_by_key(|t| &t.name);
    }
    if ta.len() != tb.len() {
        return Some("the number of tags differs".into());
    }
    for (t, u) in ta.iter().zip(&tb) {
        if t.name != u.name || ordered && t.get_id() != u.get_id() {
            return Some(format!("tag {:?} became {:?}", t.name, u.name));
        }
        for (x, y) in pa.iter().zip(pb) {
            if t.contains(x) != u.contains(y) {
                return Some(format!("membership of product {} in tag {:?} differs", x.serialization_id, t.name));
            }
        }
    }
    let mut keys: Vec<&str> = ac.order.options().collect();
    let mut other: Vec<&str> = bc.order.options().collect();
    keys.sort_unstable();
    other.sort_unstable();
    if keys != other {
        return Some(format!("orderings {keys:?} became {other:?}"));
    }
    for k in keys {
        if ac.order.get_orders(k) != bc.order.get_orders(k) {
            return Some(format!("ordering {k:?} differs"));
        }
    }
    None
}

trait GetIdChecked {
    fn get_id_checked(&self) -> Option<u64>;
}
impl GetIdChecked for Product<'_> {
    /// get_id is specified for up to 19 digits only
    fn get_id_checked(&self) -> Option<u64> {
        let digits = self.id.chars().rev().take_while(char::is_ascii_digit).count();
        (digits <= 19).then(|| self.get_id())
    }
}

pub fn c01(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    // Comparing two indexes takes time exponential in N
    let n = match super::gram::pick_n(&mut rng) {
        10.. => 5,
        n => n,
    };
    with_n!(n, c01_n(ctx, &mut rng));
}

fn c01_n<const N: usize>(ctx: &mut Ctx, rng: &mut Rng) {
    let big = rng.chance(1, 40);
    let shape = Shape { max_products: 330, max_text: if big { 5000 } else { 300 }, n: N, wide: true };
    let cat = gen::catalogue(rng, &shape);
    let leaks = Leaks::default();
    // The format allows more than catalogues hold today: exclusive categories, further features and orderings
    let augmented = rng.chance(1, 3);
    let built = if augmented {
        crate::bundle::with_more::<N>(rng, &cat, &leaks, false).map(|(index, classic, _)| (index, classic))
    } else {
        real::build_direct::<N>(&cat, &leaks)
    };
    let (index, classic) = match built {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("building the index of a valid catalogue failed: {e}"), describe(&cat, N)),
    };
    let original = (&index, &classic);
    let bytes = match guard(|| indexer_lib::serialize::serialize_all(&index, &classic)) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("serializing panicked: {e}"), describe(&cat, N)),
    };
    let (nodes, alloc) = (leaks.nodes(), leaks.super_alloc());
    // Decoded with further bytes behind it: the index must end where it ends
    let tail: Vec<u8> = (0..rng.below(4)).map(|_| rng.u64() as u8).collect();
    let mut with_tail = bytes.clone();
    with_tail.extend_from_slice(&tail);
    let loaded = guard(|| {
        let (rest, i) = GramIndex::<char, Product, N>::deserialize(&with_tail, nodes, alloc)?;
        let (rest, c) = ClassicIndexes::deserialize(rest, i.product_container)?;
        Some((rest.len(), rest == &tail[..], i, c))
    });
    let (rest, same_rest, i2, c2): (usize, bool, Idx<N>, Cls) = match loaded {
        Ok(Some(v)) => v,
        Ok(None) => return ctx.violate(format!("N={N}: the serialized index does not load"), describe(&cat, N)),
        Err(e) => return ctx.violate(format!("N={N}: loading the serialized index panicked: {e}"), describe(&cat, N)),
    };
    if !same_rest {
        return ctx.violate(format!("N={N}: loading left {rest} bytes instead of the {} that follow the index", tail.len()), describe(&cat, N));
    }
    let both_ways = || index == i2 && i2.product_container == index.product_container && (N > 5 || i2 == index);
    match guard(|| (both_ways(), classic == c2 && c2 == classic)) {
        Ok((true, true)) => {}
        Ok((a, b)) => return ctx.violate(format!("N={N}: the loaded indexes do not compare equal (text {a}, classic {b})"), describe(&cat, N)),
        Err(e) => return ctx.violate(format!("comparing panicked: {e}"), describe(&cat, N)),
    }
    if let Some(d) = first_difference(original, (&i2, &c2), true) {
        return ctx.violate(format!("N={N}: after loading, {d}"), describe(&cat, N));
    }
    // Queries, asked twice
    let mut queries = 0;
    for _ in 0..6 {
        let text = gen::query(rng, &cat, 25);
        let run = |i: &Idx<N>| guard(|| i.search(text.chars()).iter().map(|(p, c)| (p.serialization_id, c.to_bits())).collect::<Vec<_>>());
        match (run(&index), run(&i2)) {
            (Ok(mut a), Ok(mut b)) => {
                let (ca, cb): (Vec<u32>, Vec<u32>) = (a.iter().map(|v| v.1).collect(), b.iter().map(|v| v.1).collect());
                a.sort_unstable();
                b.sort_unstable();
                if a != b || ca != cb {
                    return ctx.violate(format!("N={N}: the loaded index answers {text:?} differently"), describe(&cat, N));
                }
                queries += 1;
            }
            (Err(e), _) | (_, Err(e)) => return ctx.violate(format!("N={N}: searching {text:?} panicked: {e}"), describe(&cat, N)),
        }
    }
    // Once more: nothing may change any further, descriptions included
    let bytes2 = match guard(|| indexer_lib::serialize::serialize_all(&i2, &c2)) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("serializing the loaded index panicked: {e}"), describe(&cat, N)),
    };
    let (i3, c3) = match real::load::<N>(&bytes2, &leaks) {
        Ok(Some(v)) => v,
        Ok(None) => return ctx.violate(format!("N={N}: the index serialized a second time does not load"), describe(&cat, N)),
        Err(e) => return ctx.violate(format!("loading panicked: {e}"), describe(&cat, N)),
    };
    if let Some(d) = first_difference((&i2, &c2), (&i3, &c3), true) {
        return ctx.violate(format!("N={N}: on the second round trip, {d}"), describe(&cat, N));
    }
    for (x, y) in i2.product_container.products.iter().zip(&i3.product_container.products) {
        if x.description != y.description {
            return ctx.violate(format!("N={N}: on the second round trip, the description of product {} changes again", x.serialization_id), describe(&cat, N));
        }
    }
    if i2 != i3 || c2 != c3 || bytes.len() != bytes2.len() {
        return ctx.violate(format!("N={N}: the second round trip changes the index ({} bytes, then {})", bytes.len(), bytes2.len()), describe(&cat, N));
    }
    ctx.count("bytes", bytes.len() as u64);
    ctx.count("queries_compared", queries);
    ctx.count("runs_compared", index.data.len() as u64);
    ctx.count("options_compared", classic.categories.0.iter().map(|c| c.options.len() as u64).sum());
    ctx.count("tags_compared", classic.tags.iter().count() as u64);
    ctx.count(if augmented { "augmented" } else { "as_built" }, 1);
    ctx.max("products", cat.prods.len() as u64);
    ctx.max("bytes", bytes.len() as u64);
    ctx.evaluated(hash_bytes(format!("{N}{}", cat.json_array()).as_bytes()), cat.prods.len() > 1 && index.data.len() > 1);
    ctx.sample(|| json!({"n": N, "products": cat.prods.len(), "bytes": bytes.len(), "runs": index.data.len(), "tags": classic.tags.iter().count()}));
}

// ---------------------------------------------------------------- C09

fn check_products(cat: &Cat, container: &ProductContainer<'_>, loaded: bool) -> Option<String> {
    if container.products.len() != cat.prods.len() {
        return Some(format!("{} products became {}", cat.prods.len(), container.products.len()));
    }
    for (i, (raw, p)) in cat.prods.iter().zip(&container.products).enumerate() {
        if p.serialization_id != i {
            return Some(format!("product {i} is numbered {}", p.serialization_id));
        }
        if p.id != raw.id {
            return Some(format!("product {i} has id {:?} instead of {:?}", p.id, raw.id));
        }
        if p.title != raw.title {
            return Some(format!("product {i} has title {:?} instead of {:?}", p.title, raw.title));
        }
        if p.vendor.name != raw.vendor {
            return Some(format!("product {i} has vendor {:?} instead of {:?}", p.vendor.name, raw.vendor));
        }
        if loaded {
            if !raw.description.starts_with(&p.description) || (p.description.is_empty() != raw.description.is_empty()) {
                return Some(format!("product {i} has description {:?} instead of a prefix of {:?}", short(&p.description), short(&raw.description)));
            }
        } else if p.description != raw.description {
            return Some(format!("product {i} has description {:?} instead of {:?}", short(&p.description), short(&raw.description)));
        }
        let price = match container.extra_features.get(p, "price") {
            Some(FeatureValue::Float(v)) => v,
            _ => return Some(format!("product {i} has no price")),
        };
        if price.to_bits() != raw.price_value().to_bits() {
            return Some(format!("product {i} costs {price} instead of {}", raw.price));
        }
        let image = match container.extra_features.get(p, "image_url") {
            Some(FeatureValue::String(v)) => Some(v),
            None => None,
            _ => return Some(format!("product {i} has an image of another type")),
        };
        let ok = match image {
            Some(v) => v == raw.image(),
            None => raw.media.is_empty(),
        };
        if !ok {
            return Some(format!("product {i} has image {image:?} instead of {:?}", raw.image()));
        }
        // The same values through the column
        match (container.extra_features.get_feature("price"), price) {
            (Some(f @ Feature::Float(_)), v) => match f.get(i) {
                Some(FeatureValue::Float(w)) if w.to_bits() == v.to_bits() => {}
                _ => return Some(format!("the price column disagrees about product {i}")),
            },
            _ => return Some("there is no price column".into()),
        }
    }
    None
}

pub fn c09(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let shape = Shape { max_products: 330, max_text: 400, n: 2, wide: true };
    let mut cat = gen::catalogue(&mut rng, &shape);
    match rng.below(6) {
        0 => cat.prods.iter_mut().for_each(|p| p.media.clear()),
        1 => {
            if let Some(p) = cat.prods.first_mut() {
                p.media.clear();
            }
        }
        2 => {
            if let Some(p) = cat.prods.last_mut() {
                p.media.clear();
            }
        }
        _ => {}
    }
    let leaks = Leaks::default();
    let (index, classic) = match real::build_direct::<2>(&cat, &leaks) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("building the index of a valid catalogue failed: {e}"), describe(&cat, 2)),
    };
    if let Some(d) = check_products(&cat, index.product_container, false) {
        return ctx.violate(format!("after indexing, {d}"), describe(&cat, 2));
    }
    drop(classic);
    let (index, _classic) = match real::build_and_load::<2>(&cat, &leaks) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("building and loading failed: {e}"), describe(&cat, 2)),
    };
    if let Some(d) = check_products(&cat, index.product_container, true) {
        return ctx.violate(format!("after loading, {d}"), describe(&cat, 2));
    }
    let without = cat.prods.iter().filter(|p| p.media.is_empty()).count();
    let vendors: std::collections::HashSet<_> = cat.prods.iter().map(|p| &p.vendor).collect();
    ctx.count("products_compared", 2 * cat.prods.len() as u64);
    ctx.count("products_without_image", without as u64);
    ctx.max("vendors", vendors.len() as u64);
    ctx.max("products", cat.prods.len() as u64);
    ctx.count(if without == 0 { "all_have_images" } else if without == cat.prods.len() { "none_have_images" } else { "some_have_images" }, 1);
    ctx.evaluated(hash_bytes(cat.json_array().as_bytes()), cat.prods.len() > 1 && vendors.len() > 1);
    ctx.sample(|| json!({"products": cat.prods.len(), "without_image": without, "vendors": vendors.len()}));
}

// ---------------------------------------------------------------- C19

pub fn c19(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    for _ in 0..200 {
        let limit = match rng.below(8) {
            0 => rng.below(4),
            1 => rng.range(120, 140),
            2 => rng.range(250, 260),
            3..=5 => 100,
            _ => rng.below(60),
        };
        let style = gen::style(&mut rng, true);
        let len = match rng.below(6) {
            0 => rng.below(5),
            1 | 2 => limit.saturating_sub(4) + rng.below(9),
            3 => limit * 2 + rng.below(40),
            _ => rng.below(limit + 30),
        };
        let mut text = gen::text(&mut rng, style, len);
        match rng.below(6) {
            0 => text = text.replace(' ', ""),
            1 => text.insert(0, ' '),
            2 => text = text.trim_end().to_string() + " ",
            3 => {
                // One space only, near the limit
                text = text.replace(' ', "_");
                let at = text.char_indices().map(|v| v.0).filter(|o| o.abs_diff(limit) < 4).last();
                if let Some(at) = at {
                    text.insert(at, ' ');
                }
            }
            _ => {}
        }
        let mut out = Vec::new();
        if let Err(e) = guard(|| indexer_lib::serialize::serialize_string_with_limit(&text, limit, &mut |b| out.push(b))) {
            return ctx.violate(format!("shortening {:?} to {limit} panicked: {e}", short(&text)), json!({"text": text, "limit": limit}));
        }
        let stored = match guard(|| String::deserialize(&out).map(|(rest, s)| (rest.len(), s))) {
            Ok(Some((0, s))) => s,
            other => return ctx.violate(format!("shortening {:?} to {limit} does not store valid text ({other:?})", short(&text)), json!({"text": text, "limit": limit})),
        };
        let expected = model::limited(&text, limit);
        if stored != expected {
            return ctx.violate(
                format!("shortening {:?} to {limit} stores {stored:?} instead of {expected:?}", short(&text)),
                json!({"text": text, "limit": limit}),
            );
        }
        let cut = expected.len() < text.len();
        ctx.count(if !cut { "stored_whole" } else if text.as_bytes()[expected.len()] == b' ' && expected.len() <= limit { "cut_at_space" } else { "cut_in_word" }, 1);
        ctx.evaluated(hash_bytes(format!("{limit}:{text}").as_bytes()), cut);
        ctx.sample(|| json!({"text": short(&text), "limit": limit, "stored": stored}));
    }
    // The same inside a whole index, where the limit is 100
    let shape = Shape { max_products: 12, max_text: 600, n: 2, wide: true };
    let cat = gen::catalogue(&mut rng, &shape);
    let leaks = Leaks::default();
    let (index, _classic) = match real::build_and_load::<2>(&cat, &leaks) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("building and loading failed: {e}"), describe(&cat, 2)),
    };
    for (raw, p) in cat.prods.iter().zip(&index.product_container.products) {
        let expected = model::limited(&raw.description, 100);
        if p.description != expected {
            return ctx.violate(
                format!("the description {:?} is stored as {:?} instead of {expected:?}", short(&raw.description), short(&p.description)),
                describe(&cat, 2),
            );
        }
        ctx.count("descriptions_in_an_index", 1);
        ctx.evaluated(hash_bytes(raw.description.as_bytes()), expected.len() < raw.description.len());
    }
}

// ---------------------------------------------------------------- C23

/// Any character but a decimal digit; often one that something might take for one.
fn no_digit(rng: &mut Rng) -> char {
    loop {
        let c = match rng.below(6) {
            0 | 1 => char::from(rng.below(128) as u8),
            2 => *rng.pick(&['a', 'A', 'b', 'f', 'F', 'o', 'O', 'l', 'z', 'Z', '-', '+', '.', ',', '_', 'e', 'E', 'x', '/', ':', ' ', '\'']),
            3 => *rng.pick(&['٠', '٣', '۵', '०', '４', '０', '９', '²', '½', 'Ⅷ', '①', '〇', '三', '𝟗', '𝟘', '🄀', '\u{660}', '\u{e33}']),
            4 => rng.range(128, 0xd7ff).try_into().ok().and_then(char::from_u32).unwrap_or('x'),
            _ => rng.range(0xe000, 0x10_ffff).try_into().ok().and_then(char::from_u32).unwrap_or('x'),
        };
        if !c.is_ascii_digit() {
            return c;
        }
    }
}

pub fn c23(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let shape = Shape { max_products: 40, max_text: 8, n: 2, wide: true };
    let mut cat = gen::catalogue(&mut rng, &shape);
    let mut seen = std::collections::HashSet::new();
    for p in &mut cat.prods {
        loop {
            let head = match rng.below(10) {
                0 => String::new(),
                7 | 8 => no_digit(&mut rng).to_string(),
                9 => format!("{}{}", rng.below(1000), no_digit(&mut rng)),
                1 => "gid://shopify/Product/".to_string(),
                2 => format!("{}x", rng.u64()),
                3 => gen::text(&mut rng, 3, 3) + "-",
                4 => "٣²½".to_string(),
                5 => format!("{}é", rng.below(100)),
                _ => gen::text(&mut rng, 4, 5) + " ",
            };
            let digits = rng.below(20);
            let mode = rng.below(5);
            let tail: String = (0..digits)
                .map(|i| match mode {
                    0 => '9',
                    1 => {
                        if i + 1 == digits {
                            '7'
                        } else {
                            '0'
                        }
                    }
                    2 if i == 0 => '1',
                    2 => '0',
                    _ => char::from(b'0' + rng.below(10) as u8),
                })
                .collect();
            // Digits of the head must not run into the tail
            let head = if head.ends_with(|c: char| c.is_ascii_digit()) { head + "/" } else { head };
            let mut id = head + &tail;
            if rng.chance(1, 8) {
                id.push(no_digit(&mut rng));
            }
            if seen.insert(id.clone()) {
                p.id = id;
                break;
            }
        }
    }
    let leaks = Leaks::default();
    let built = real::build_direct::<2>(&cat, &leaks);
    let loaded = real::build_and_load::<2>(&cat, &leaks);
    let (built, loaded) = match (built, loaded) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => return ctx.violate(format!("building or loading failed: {e}"), describe(&cat, 2)),
    };
    for (i, raw) in cat.prods.iter().enumerate() {
        let tail: String = {
            let mut t: Vec<char> = raw.id.chars().rev().take_while(char::is_ascii_digit).collect();
            t.reverse();
            t.into_iter().collect()
        };
        let expected: u64 = if tail.is_empty() { 0 } else { tail.parse().expect("harness: too many digits") };
        for (what, p) in [("built", built.0.product_container.products.get(i)), ("loaded", loaded.0.product_container.products.get(i))] {
            let p = match p {
                Some(p) => p,
                None => return ctx.violate(format!("product {i} is missing"), describe(&cat, 2)),
            };
            match guard(|| p.get_id()) {
                Ok(v) if v == expected => {}
                Ok(v) => return ctx.violate(format!("the numeric id of {:?} ({what}) is {v} instead of {expected}", raw.id), describe(&cat, 2)),
                Err(e) => return ctx.violate(format!("the numeric id of {:?} ({what}) panicked: {e}", raw.id), describe(&cat, 2)),
            }
        }
        ctx.count(&format!("digits_{:02}", tail.len()), 1);
        ctx.evaluated(hash_bytes(raw.id.as_bytes()), !tail.is_empty());
        ctx.sample(|| json!({"id": raw.id, "numeric": expected}));
    }
}

// ---------------------------------------------------------------- an index made from an unordered JSON object

/// Is this the index of exactly that catalogue, in some order of its products? Returns how many products it has.
pub fn same_catalogue(cat: &Cat, bytes: &[u8]) -> Result<u64, String> {
    let leaks = Leaks::default();
    let (index, classic) = match real::load::<5>(bytes, &leaks) {
        Ok(Some(v)) => v,
        Ok(None) => return Err("the index does not load".into()),
        Err(e) => return Err(format!("loading the index panicked: {e}")),
    };
    let loaded = &index.product_container.products;
    if loaded.len() != cat.prods.len() {
        return Err(format!("{} entries became {} products", cat.prods.len(), loaded.len()));
    }
    let mut sorted = Cat { prods: Vec::new(), style: cat.style };
    let entries: std::collections::HashMap<&str, &gen::Prod> = cat.prods.iter().map(|q| (q.id.as_str(), q)).collect();
    for p in loaded {
        match entries.get(p.id.as_str()) {
            Some(q) => sorted.prods.push((*q).clone()),
            None => return Err(format!("there is a product {:?}, which no entry describes", p.id)),
        }
    }
    let mut ids: Vec<&str> = loaded.iter().map(|p| p.id.as_str()).collect();
    ids.sort_unstable();
    ids.dedup();
    if ids.len() != cat.prods.len() {
        return Err("some entry became two products".into());
    }
    if let Some(d) = check_products(&sorted, index.product_container, true) {
        return Err(d);
    }
    for (p, q) in loaded.iter().zip(&sorted.prods) {
        for c in &classic.categories.0 {
            for o in &c.options {
                if o.contains(p) != q.has_option(&c.name, &o.name) {
                    return Err(format!("product {:?} is wrongly in or out of option {:?} of {:?}", p.id, o.name, c.name));
                }
            }
        }
        for t in classic.tags.iter() {
            if t.contains(p) != q.tags.contains(&t.name) {
                return Err(format!("product {:?} is wrongly with or without tag {:?}", p.id, t.name));
            }
        }
    }
    let found: Vec<(String, Vec<String>)> =
        classic.categories.0.iter().map(|c| (c.name.clone(), c.options.iter().map(|o| o.name.clone()).collect())).collect();
    if found != sorted.categories() {
        return Err(format!("the categories are {found:?} instead of {:?}", sorted.categories()));
    }
    let mut tags: Vec<&str> = classic.tags.iter().map(|t| t.name.as_str()).collect();
    let mut expected: Vec<&str> = cat.tags().into_iter().collect();
    tags.sort_unstable();
    expected.sort_unstable();
    if tags != expected {
        return Err(format!("the tags are {tags:?} instead of {expected:?}"));
    }
    let (bi, bc) = real::build_direct::<5>(&sorted, &leaks)?;
    if let Some(d) = first_difference((&bi, &bc), (&index, &classic), false) {
        return Err(format!("compared with indexing the products one by one, {d}"));
    }
    Ok(cat.prods.len() as u64)
}
