//! C24: asking an index leaves no trace in its answers nor in memory.
use crate::alloc;
use crate::ctx::{hash_bytes, short, Ctx};
use crate::gen::{self, Cat, Shape};
use crate::prng::Rng;
use crate::props::tags;
use crate::real::{self, guard, Cls, Idx, Leaks};
use indexer_lib::data::FeatureValue;
use indexer_lib::js_interactable::{CategoryHandler, TagHandler};
use serde_json::json;
use std::sync::Arc;

const N: usize = 5;

enum Question {
    Search(Vec<char>),
    Window([char; N]),
    Chain(char),
    Suggestion(String),
    /// options and tags to toggle before asking who passes
    Passing(Vec<(usize, usize)>, Vec<usize>),
    Listings,
    Orderings,
    Features(usize),
    /// listings left unfinished
    Abandoned,
}

/// What was answered, boiled down to what does not depend on the order of ties.
#[derive(PartialEq, Debug, Default, Clone)]
struct Answer {
    text: String,
    numbers: Vec<u64>,
    confidences: Vec<f32>,
}

impl Answer {
    fn same(&self, other: &Answer) -> bool {
        self.text == other.text
            && self.numbers == other.numbers
            && self.confidences.len() == other.confidences.len()
            && self.confidences.iter().zip(&other.confidences).all(|(a, b)| a.to_bits() == b.to_bits() || (a - b).abs() <= 1e-5 * a.abs().max(b.abs()))
    }
}

fn ask(question: &Question, index: &Idx<N>, classic: &Arc<Cls>) -> Answer {
    let mut out = Answer::default();
    let products = &index.product_container.products;
    match question {
        Question::Search(q) => {
            let mut r: Vec<(usize, f32)> = index.search(q.iter().copied()).into_iter().map(|(p, c)| (p.serialization_id, c)).collect();
            r.sort_by_key(|v| v.0);
            out.numbers = r.iter().map(|v| v.0 as u64).collect();
            out.confidences = r.iter().map(|v| v.1).collect();
        }
        Question::Window(w) => {
            if let Some((gram, c)) = index.search_gram(*w) {
                out.text = gram.iter().collect();
                out.confidences.push(c);
            }
        }
        Question::Chain(c) => out.text = index.most_popular_chain(*c).into_iter().collect(),
        Question::Suggestion(q) => {
            if let Some(s) = indexer_lib::tag_suggestion(q) {
                out.text = format!("{}\n{}", s.get_input(), s.get_tag().get_name());
            }
        }
        Question::Passing(options, wanted) => {
            let mut c = CategoryHandler::new(classic.clone());
            let mut iter = c.iter();
            let mut i = 0;
            while let Some(mut list) = iter.next_item() {
                let mut j = 0;
                while let Some(o) = list.next_item() {
                    for _ in options.iter().filter(|v| **v == (i, j)) {
                        c.toggle(&o);
                    }
                    out.numbers.push(u64::from(c.get_status(&o)));
                    j += 1;
                }
                i += 1;
            }
            let mut t = TagHandler::new(classic.clone());
            let mut iter = t.tags();
            let mut i = 0;
            while let Some(tag) = iter.next_tag() {
                for _ in wanted.iter().filter(|v| **v == i) {
                    t.toggle(&tag);
                }
                out.numbers.push(u64::from(t.get_status(&tag)));
                i += 1;
            }
            out.numbers.extend(products.iter().map(|p| u64::from(c.is_valid(p)) * 2 + u64::from(t.is_valid(p))));
        }
        Question::Listings => {
            if let Some(c) = indexer_lib::get_categories() {
                let mut iter = c.iter();
                while let Some(mut list) = iter.next_item() {
                    out.text.push_str(&list.name());
                    while let Some(o) = list.next_item() {
                        out.text.push_str(&o.get_name());
                    }
                }
            }
            if let Some(t) = indexer_lib::get_tags() {
                let mut iter = t.tags();
                while let Some(tag) = iter.next_tag() {
                    out.text.push_str(&tag.get_name());
                }
            }
        }
        Question::Orderings => {
            let mut names: Vec<&str> = classic.order.options().collect();
            names.sort_unstable();
            for n in names {
                out.text.push_str(n);
                out.numbers.extend(classic.order.get_orders(n).into_iter().flatten().map(|v| *v as u64));
            }
            out.numbers.push(u64::from(classic.order.get_orders("no such ordering").is_some()));
        }
        Question::Features(at) => {
            if let Some(p) = products.get(*at) {
                for f in ["price", "image_url", "none such"] {
                    match index.product_container.extra_features.get(p, f) {
                        None => out.text.push_str("none;"),
                        Some(FeatureValue::Float(v)) => out.confidences.push(v),
                        Some(FeatureValue::Integer(v)) => out.numbers.push(v as u64),
                        Some(FeatureValue::String(v)) => out.text.push_str(v),
                    }
                }
                out.text.push_str(&p.title);
                out.text.push_str(&p.description);
            }
        }
        Question::Abandoned => {
            let c = CategoryHandler::new(classic.clone());
            let mut iter = c.iter();
            let list = iter.next_item().and_then(|mut l| l.next_item().map(|o| o.get_name()));
            let t = TagHandler::new(classic.clone());
            let tag = t.tags().next_tag().map(|t| t.get_name());
            out.text = format!("{list:?}{tag:?}");
        }
    }
    out
}

fn questions(rng: &mut Rng, cat: &Cat, tag_names: &[String], count: usize) -> Vec<Question> {
    let mut out = vec![Question::Listings, Question::Orderings, Question::Abandoned];
    for _ in 0..count {
        let q: Vec<char> = gen::query(rng, cat, 25).chars().collect();
        out.push(match rng.below(8) {
            0 | 1 => Question::Search(q),
            2 => {
                let mut w = ['\0'; N];
                w.iter_mut().zip(&q).for_each(|(a, b)| *a = *b);
                Question::Window(w)
            }
            3 => Question::Chain(q.first().copied().unwrap_or('a')),
            4 => Question::Suggestion(tags::query(rng, tag_names)),
            5 => Question::Features(rng.below(cat.prods.len().max(1))),
            _ => {
                let options = (0..rng.below(5)).map(|_| (rng.below(3), rng.below(4))).collect();
                Question::Passing(options, (0..rng.below(4)).map(|_| rng.below(5)).collect())
            }
        });
    }
    out
}

pub fn c24(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let shape = Shape { max_products: 40, max_text: 60, n: N, wide: true };
    let cat = gen::catalogue(&mut rng, &shape);
    let leaks = Leaks::default();
    let detail = json!({"catalogue": short(&cat.json_array())});
    let bytes = match real::build::<N>(&cat, &leaks) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("building the index of a valid catalogue failed: {e}"), detail),
    };
    let (index, classic) = match real::load::<N>(&bytes, &leaks) {
        Ok(Some(v)) => v,
        Ok(None) => return ctx.violate("the index of a valid catalogue does not load", detail),
        Err(e) => return ctx.violate(format!("loading the index of a valid catalogue panicked: {e}"), detail),
    };
    match guard(|| indexer_lib::initialize(&bytes)) {
        Ok(true) => {}
        other => return ctx.violate(format!("loading the index of a valid catalogue gave {other:?}"), detail),
    }
    let classic = Arc::new(classic);
    let mut tag_names: Vec<String> = cat.tags().into_iter().map(str::to_string).collect();
    tag_names.sort();
    let asked = questions(&mut rng, &cat, &tag_names, 24);
    let reference = match guard(|| asked.iter().map(|q| ask(q, &index, &classic)).collect::<Vec<_>>()) {
        Ok(v) => v,
        Err(e) => return ctx.violate(format!("a question panicked: {e}"), detail),
    };
    // Everything again, in other orders
    let mut order: Vec<usize> = (0..asked.len()).collect();
    let mut other: Option<(usize, Answer)> = None;
    let mut rounds = |rng: &mut Rng, n: usize| {
        guard(|| {
            alloc::growth(|| {
                for _ in 0..n {
                    rng.shuffle(&mut order);
                    for i in &order {
                        let answer = ask(&asked[*i], &index, &classic);
                        if !answer.same(&reference[*i]) && other.is_none() {
                            other = Some((*i, answer));
                        }
                    }
                }
            })
        })
    };
    let mut total = 0;
    // Structures that are bounded come to rest, so growth counts only if it goes on and on
    let mut growth = Vec::new();
    for n in [3, 20, 60, 200, 600] {
        match rounds(&mut rng, n) {
            Err(e) => return ctx.violate(format!("a question asked again panicked: {e}"), detail),
            Ok(v) => growth.push(v),
        }
        total += n;
        if n > 3 && growth[growth.len() - 1] <= 0 {
            break;
        }
    }
    ctx.count("questions_asked_again", (total * asked.len()) as u64);
    ctx.count("rounds_of_questions", total as u64);
    if let Some((i, answer)) = other {
        return ctx.violate(
            "the same question has another answer when asked again",
            json!({"first": short(&format!("{:?}", reference[i])), "again": short(&format!("{answer:?}")), "catalogue": short(&cat.json_array())}),
        );
    }
    if growth.len() == 5 && growth[1..].iter().all(|g| *g > 0) {
        return ctx.violate(
            format!("asking the same {} questions over and over takes ever more memory: {growth:?} bytes more after 3, 20, 60, 200 and 600 rounds", asked.len()),
            detail,
        );
    }
    // Questions never asked before
    let mut growth = Vec::new();
    for n in [20, 100, 400, 1600, 6400] {
        let r = guard(|| {
            alloc::growth(|| {
                for _ in 0..n {
                    for q in questions(&mut rng, &cat, &tag_names, 6) {
                        drop(ask(&q, &index, &classic));
                    }
                }
            })
        });
        match r {
            Err(e) => return ctx.violate(format!("a new question panicked: {e}"), detail),
            Ok(v) => growth.push(v),
        }
        ctx.count("new_questions", n * 9);
        if n > 20 && growth[growth.len() - 1] <= 0 {
            break;
        }
    }
    if growth.len() == 5 && growth[1..].iter().all(|g| *g > 0) {
        return ctx.violate(
            format!("asking new questions takes ever more memory: {growth:?} bytes more after 20, 100, 400, 1600 and 6400 rounds"),
            detail,
        );
    }
    ctx.count("searches_with_results", reference.iter().filter(|a| !a.confidences.is_empty()).count() as u64);
    ctx.evaluated(hash_bytes(&bytes) ^ seed, cat.prods.len() > 1);
    ctx.sample(|| json!({"products": cat.prods.len(), "questions": asked.len(), "rounds": total, "growth_of_memory": growth}));
}
