//! C16: tag suggestions.
use crate::ctx::{hash_bytes, short, Ctx};
use crate::gen::{self, Cat, Shape};
use crate::prng::Rng;
use crate::real::{self, guard, Leaks};
use serde_json::json;

/// Positions that agree, out of how many: the two numbers of the fraction the property compares.
fn overlap(tag: &str, word: &str) -> (u64, u64) {
    let (a, b): (Vec<char>, Vec<char>) = (tag.chars().collect(), word.chars().collect());
    let len = a.len().min(b.len());
    if len < 3 {
        return (0, 1);
    }
    let same = (0..len).filter(|i| a[*i] == b[*i]).count();
    (same as u64, len as u64)
}

/// The pairs of word and tag with the largest overlap above 0.8; empty if there is none.
pub fn best<'a>(tags: &'a [String], query: &'a str) -> Vec<(&'a str, &'a str)> {
    let mut best = (0u64, 1u64);
    let mut who = Vec::new();
    for word in query.split(' ') {
        for tag in tags {
            let o = overlap(tag, word);
            if o.0 * 10 <= o.1 * 8 {
                continue;
            }
            let (new, old) = (o.0 * best.1, best.0 * o.1);
            if new > old {
                best = o;
                who.clear();
            }
            if new >= old {
                who.push((word, tag.as_str()));
            }
        }
    }
    who
}

fn tag_names(rng: &mut Rng) -> Vec<String> {
    let style = *rng.pick(&[0, 2, 3, 3, 4, 8, 9]);
    let count = match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => rng.range(100, 200),
        _ => rng.range(2, 12),
    };
    let mut out: Vec<String> = Vec::new();
    for i in 0..count {
        let t = match rng.below(10) {
            0 => gen::text(rng, style, 2),
            1 => gen::text(rng, style, 3),
            2 => gen::text(rng, style, 5),
            3 => gen::text(rng, style, 6),
            4 if !out.is_empty() => {
                // Close to another one
                let mut c: Vec<char> = rng.pick(&out).chars().collect();
                match rng.below(3) {
                    0 => c.push('s'),
                    1 if !c.is_empty() => {
                        let at = rng.below(c.len());
                        c[at] = gen::character(rng, style);
                    }
                    _ => c.insert(0, 'x'),
                }
                c.into_iter().collect()
            }
            5 => format!("tag{i}"),
            _ => {
                let l = if rng.chance(1, 6) { *rng.pick(&[30, 33, 40, 63, 65, 100, 130, 260]) } else { rng.range(3, 25) };
                let t = gen::text(rng, style, l);
                if l >= 30 && rng.chance(2, 3) {
                    t.replace(' ', "-")
                } else {
                    t
                }
            }
        };
        if !out.contains(&t) {
            out.push(t);
        }
    }
    out
}

pub fn query(rng: &mut Rng, tags: &[String]) -> String {
    let mut words: Vec<String> = Vec::new();
    let words_wanted = if rng.chance(1, 8) { rng.range(6, 45) } else { rng.range(0, 5) };
    for _ in 0..words_wanted {
        let mut w: Vec<char> = if !tags.is_empty() && rng.chance(4, 5) {
            rng.pick(tags).chars().collect()
        } else {
            let l = rng.range(0, 9);
            gen::text(rng, 3, l).chars().collect()
        };
        // Long names stay recognizable after several substitutions
        let long = w.len() >= 30;
        let edits = if long { rng.below(w.len() / 5 + 3) } else { *rng.pick(&[0, 0, 0, 1, 1, 2]) };
        for _ in 0..edits {
            let at = rng.below(w.len() + 1);
            match if long && rng.chance(9, 10) { 0 } else { rng.below(7) } {
                // What stands between words, other than a space, belongs to them
                5 => w.push(*rng.pick(&[',', '.', '\t', '\n', '\u{a0}', '-', '?', '"'])),
                6 => w.insert(0, *rng.pick(&['(', '"', '#', '\t', '\u{3000}', '-'])),
                0 if at < w.len() => w[at] = gen::character(rng, 3),
                1 if at < w.len() => {
                    w.remove(at);
                }
                2 => w.truncate(at),
                3 => w.extend(gen::text(rng, 3, 3).chars()),
                _ => w.insert(at, gen::character(rng, 8)),
            }
        }
        words.push(w.into_iter().collect());
    }
    words.join(if rng.chance(1, 10) { "  " } else { " " })
}

pub fn c16(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let shape = Shape { max_products: 3, max_text: 6, n: 5, wide: true };
    let mut cat: Cat = gen::catalogue(&mut rng, &shape);
    let mut tags = tag_names(&mut rng);
    for p in &mut cat.prods {
        p.tags.clear();
    }
    if cat.prods.is_empty() {
        tags.clear();
    } else {
        for t in &tags {
            let at = rng.below(cat.prods.len());
            cat.prods[at].tags.push(t.clone());
        }
    }
    let leaks = Leaks::default();
    let bytes = match real::build::<5>(&cat, &leaks) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("building the index of a valid catalogue failed: {e}"), json!(null)),
    };
    match guard(|| indexer_lib::initialize(&bytes)) {
        Ok(true) => {}
        other => return ctx.violate(format!("loading the index of a valid catalogue gave {other:?}"), json!({"tags": tags})),
    }
    for round in 0..60 {
        let q = if round == 0 { String::new() } else { query(&mut rng, &tags) };
        let expected = best(&tags, &q);
        let got = guard(|| {
            indexer_lib::tag_suggestion(&q).map(|s| {
                let tag = s.get_tag();
                (s.get_input(), tag.get_name(), tag)
            })
        });
        let detail = || json!({"tags": tags.iter().take(30).collect::<Vec<_>>(), "query": short(&q), "best": expected.iter().take(5).collect::<Vec<_>>()});
        match got {
            Err(e) => return ctx.violate(format!("asking for a suggestion for {q:?} panicked: {e}"), detail()),
            Ok(None) if !expected.is_empty() => return ctx.violate(format!("no suggestion for {q:?}"), detail()),
            Ok(None) => ctx.count("no_suggestion", 1),
            Ok(Some((input, name, tag))) => {
                if !expected.contains(&(input.as_str(), name.as_str())) {
                    return ctx.violate(format!("the suggestion for {q:?} is {name:?} for {input:?}"), detail());
                }
                // It is the tag itself, not just its name
                let same = guard(|| {
                    let mut h = indexer_lib::get_tags().expect("a loaded index has tags");
                    h.toggle(&tag);
                    let mut iter = h.tags();
                    let mut ok = true;
                    while let Some(t) = iter.next_tag() {
                        ok &= h.get_status(&t) == (t.get_name() == name);
                    }
                    ok
                });
                if same != Ok(true) {
                    return ctx.violate(format!("the suggested tag {name:?} does not act as that tag: {same:?}"), detail());
                }
                ctx.count("suggestions", 1);
                if q.split(' ').skip(10).any(|w| w == input) && !q.split(' ').take(10).any(|w| w == input) {
                    ctx.count("suggestions_late_in_the_query", 1);
                }
                if input.chars().count() >= 30 {
                    ctx.count("suggestions_for_long_words", 1);
                }
                if !name.is_ascii() {
                    ctx.count("suggestions_beyond_ascii", 1);
                }
                if name != input {
                    ctx.count("inexact_suggestions", 1);
                }
            }
        }
        ctx.evaluated(hash_bytes(format!("{seed}{q}").as_bytes()), q.chars().count() > 2);
        ctx.sample(|| json!({"query": short(&q), "tags": tags.len(), "best": expected.iter().take(3).collect::<Vec<_>>()}));
    }
}
