//! Catalogues and queries.
use crate::prng::Rng;
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub struct Prod {
    pub description: String,
    pub title: String,
    pub vendor: String,
    pub id: String,
    pub tags: Vec<String>,
    pub options: Vec<(String, Vec<String>)>,
    pub price: String,
    pub price_max: String,
    pub media: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Cat {
    pub prods: Vec<Prod>,
    pub style: usize,
}

pub fn q(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

impl Prod {
    /// The text the system promises to index.
    pub fn text(&self) -> Vec<char> {
        [&self.description, &self.title, &self.vendor]
            .into_iter()
            .flat_map(|s| s.chars())
            .flat_map(char::to_lowercase)
            .collect()
    }
    pub fn json(&self) -> String {
        let tags: Vec<_> = self.tags.iter().map(|t| q(t)).collect();
        let options: Vec<_> = self
            .options
            .iter()
            .map(|(n, v)| {
                let v: Vec<_> = v.iter().map(|v| q(v)).collect();
                format!("{{\"name\":{},\"values\":[{}]}}", q(n), v.join(","))
            })
            .collect();
        let media: Vec<_> = self.media.iter().map(|m| format!("{{\"url\":{}}}", q(m))).collect();
        format!(
            "{{\"description\":{},\"tags\":[{}],\"title\":{},\"vendor\":{},\"id\":{},\"options\":[{}],\"price\":{{\"min\":{{\"amount\":{},\"currencyCode\":\"DKK\"}},\"max\":{{\"amount\":{},\"currencyCode\":\"DKK\"}}}},\"media\":[{}]}}",
            q(&self.description), tags.join(","), q(&self.title), q(&self.vendor), q(&self.id),
            options.join(","), q(&self.price), q(&self.price_max), media.join(",")
        )
    }
    pub fn price_value(&self) -> f32 {
        self.price.parse().unwrap()
    }
    pub fn image(&self) -> &str {
        self.media.first().map_or("", |m| m.as_str())
    }
    pub fn has_option(&self, cat: &str, opt: &str) -> bool {
        self.options
            .iter()
            .any(|(n, v)| n == cat && v.iter().any(|v| v == opt))
    }
}

impl Cat {
    pub fn json_array(&self) -> String {
        let v: Vec<_> = self.prods.iter().map(Prod::json).collect();
        format!("[{}]", v.join(","))
    }
    pub fn json_object(&self) -> String {
        let v: Vec<_> = self
            .prods
            .iter()
            .enumerate()
            .map(|(i, p)| format!("{}:{}", q(&key(i, self.prods.len())), p.json()))
            .collect();
        format!("{{{}}}", v.join(","))
    }
    /// Categories and their options in order of first appearance.
    pub fn categories(&self) -> Vec<(String, Vec<String>)> {
        let mut out: Vec<(String, Vec<String>)> = Vec::new();
        for p in &self.prods {
            for (name, values) in &p.options {
                let at = match out.iter().position(|(n, _)| n == name) {
                    Some(at) => at,
                    None => {
                        out.push((name.clone(), Vec::new()));
                        out.len() - 1
                    }
                };
                for v in values {
                    if !out[at].1.contains(v) {
                        out[at].1.push(v.clone());
                    }
                }
            }
        }
        out
    }
    pub fn tags(&self) -> HashSet<&str> {
        self.prods
            .iter()
            .flat_map(|p| p.tags.iter().map(String::as_str))
            .collect()
    }
}

/// Keys mean nothing, whatever they look like.
fn key(i: usize, of: usize) -> String {
    match (i + of) % 7 {
        0 if i < 7 => String::new(),
        1 => format!("{i}"),
        2 => format!("{}{i}", SHOP[(i * 31 + of) % SHOP.len()]),
        3 => format!("_{i}"),
        _ => format!("key{i}"),
    }
}

/// How large and how wild the catalogues of a property should be.
#[derive(Clone, Copy)]
pub struct Shape {
    pub max_products: usize,
    pub max_text: usize,
    pub n: usize,
    /// allow alphabets of more than a handful of characters
    pub wide: bool,
}

const WORDS: &[&str] = &[
    "kunst", "Kunsten", "maleri", "Maleri", "plakat", "Ærø", "blå", "Blåbær", "grøn", "GRØNNE", "sort", "hvid", "stor",
    "lille", "træ", "Træramme", "ramme", "rød", "abstrakt", "landskab", "København", "a", "og", "i", "original", "print",
    "limited", "edition", "30x40", "50x70", "cm", "olie", "på", "lærred", "akryl", "foto", "Fotografi", "by", "the", "The",
];

const WILD: &[char] = &[
    'a', 'A', 'b', 'e', ' ', ' ', 'é', 'É', 'İ', 'ı', 'ẞ', 'ß', 'Σ', 'ς', 'σ', 'æ', 'Ø', 'å', '👽', '🙂', '\u{301}', '\u{308}', '\0',
    '漢', '字', 'ﬃ', 'Ǆ', 'ǅ', '\u{200d}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\n', '\t', '"', '\\', '/',
];

/// Pieces of text as shops have them, and as code likes to tidy up.
const SHOP: &[&str] = &[
    "&amp;", "&lt;b&gt;", "&#39;", "&nbsp;", "<b>", "</p>", "<br/>", "<!-- x -->", "\r\n", "\n\n", "\t", "  ", "\u{a0}", "\u{feff}", "\u{ad}", "\u{200b}",
    "\u{202e}", "\u{2028}", "\u{85}", "\u{3000}", "\u{1f}", "\u{fffd}", "%20", "+", "\\n", "\\u0041", "\\\"", "\\\\", "\u{201c}", "\u{2019}", "'", "\u{2013}", "\u{2026}", "...",
    "e\u{301}", "\u{e9}", "\u{fb01}", "\u{2122}", "\u{bd}", "\u{ff11}\u{ff12}", "null", "undefined", "NaN", "true", "0x1F", "1,000", "1.000,00", "{}", "[object Object]",
    "__proto__", "constructor", "http://", "https://www.", "//cdn.", ".jpg?v=1", "#x", "a/b", "../", "\u{1f1e9}\u{1f1f0}", "\u{1f469}\u{200d}\u{1f467}", "\u{5ea}", "\u{639}",
    "Default Title", "Title", "Size", "Color", "Farve", "Default", "N/A", "-", "None", "Unknown", "Gift Card", "test", "draft", "sale", "SALE", "_hidden", "#tag", "a,b", "a;b", "a|b",
    "vendor:x", "kr.", "$", "\u{20ac}", "50%", "A4", "50x70 cm", "\"", "`", "~", "@", "*", "\u{0}", "\u{7f}", "\u{e000}", "i\u{307}", "\u{130}", "STRASSE", "stra\u{df}e", "\u{1e9e}",
];

/// A name easily taken for this one.
pub fn lookalike(rng: &mut Rng, name: &str) -> String {
    let mut chars: Vec<char> = name.chars().collect();
    match rng.below(14) {
        0 => format!("{name} "),
        1 => format!(" {name}"),
        2 => format!("{name}\u{a0}"),
        3 => format!("{name}\0"),
        4 => name.to_uppercase(),
        5 => name.to_lowercase(),
        6 => format!("{name}\u{200b}"),
        7 => name.replace(' ', "  "),
        8 => name.replace('&', "&amp;"),
        9 => name.replace('\u{e9}', "e\u{301}"),
        10 => {
            chars.pop();
            chars.into_iter().collect()
        }
        11 => name.replace(' ', "-"),
        12 => format!("\u{feff}{name}"),
        _ => {
            chars.reverse();
            chars.into_iter().collect()
        }
    }
}

pub fn character(rng: &mut Rng, style: usize) -> char {
    match style {
        0 => *rng.pick(&['a', 'b']),
        1 => *rng.pick(&['a', 'b', 'c', ' ']),
        3 => *rng.pick(WILD),
        4 => char::from(rng.range(32, 126) as u8),
        6 => *rng.pick(&['a', 'a', 'a', 'a', 'a', 'a', 'a', 'b']),
        7 => *rng.pick(&['0', '1', '2', ' ', 'x']),
        _ => *rng.pick(&['k', 'u', 'n', 's', 't', ' ', 'æ', 'K', 'e', 'r']),
    }
}

pub fn text(rng: &mut Rng, style: usize, len: usize) -> String {
    let mut out = String::new();
    let mut chars = 0;
    if style == 9 {
        while chars < len {
            let piece: &str = if rng.chance(1, 3) { rng.pick(WORDS) } else { rng.pick(SHOP) };
            for c in piece.chars() {
                if chars < len {
                    out.push(c);
                    chars += 1;
                }
            }
            if rng.chance(1, 4) && chars < len {
                out.push(' ');
                chars += 1;
            }
        }
        return out;
    }
    if style == 2 || style == 5 {
        while chars < len {
            let word: String = if style == 5 && rng.chance(1, 3) {
                let n = rng.range(20, 140);
                (0..n).map(|_| character(rng, 8)).filter(|c| *c != ' ').collect()
            } else {
                (*rng.pick(WORDS)).to_string()
            };
            for c in word.chars().chain([' ']) {
                if chars < len {
                    out.push(c);
                    chars += 1;
                }
            }
        }
        return out;
    }
    for _ in 0..len {
        out.push(character(rng, style));
    }
    out
}

pub fn length(rng: &mut Rng, shape: &Shape) -> usize {
    let n = shape.n;
    let len = match rng.below(20) {
        0 => 0,
        1 => 1,
        2 => n.saturating_sub(1),
        3 => n,
        4 => n + 1,
        5..=9 => rng.range(1, 12),
        10..=14 => rng.range(10, 40),
        15 => rng.range(95, 105),
        16 => rng.range(40, 140),
        17 => rng.range(126, 130),
        18 => rng.range(100, 520),
        _ => {
            if rng.chance(1, 40) {
                rng.range(520, 20_000)
            } else {
                rng.range(2, 60)
            }
        }
    };
    len.min(shape.max_text)
}

pub fn product_count(rng: &mut Rng, shape: &Shape) -> usize {
    let n = match rng.below(40) {
        0 => 0,
        1..=3 => 1,
        4..=11 => rng.range(2, 4),
        12..=26 => rng.range(5, 12),
        27..=34 => rng.range(13, 40),
        35..=37 => rng.range(100, 140),
        38 => rng.range(250, 330),
        _ => rng.range(3, 20),
    };
    n.min(shape.max_products)
}

pub fn price(rng: &mut Rng) -> String {
    match rng.below(14) {
        0 => "0".into(),
        1 => "0.0".into(),
        2 => "-0.0".into(),
        3 => "19.95".into(),
        4 => "100".into(),
        5 => format!("{}.{:02}", rng.below(2000), rng.below(100)),
        6 => format!("-{}.5", rng.below(50)),
        7 => (*rng.pick(&["16777216", "16777217", "99999999999999999999999999999999999999999999", "0.00000000000000000000000000000000000000000000001", "3.4028235e38"])).into(),
        8 => (*rng.pick(&["00012.50", "12.5", "12.50", "1e3", "1000.0", "+5", ".5", "5.", "1E3", "1e-5", "9.99", "-0.01"])).into(),
        9 => format!("{}", rng.below(5)),
        10 => format!("{:.1}", rng.below(100) as f64 / 10.0),
        _ => format!("{}.0", rng.below(300)),
    }
}

pub fn id(rng: &mut Rng, i: usize, style: usize) -> String {
    if rng.chance(1, 30) {
        let l = rng.range(1, 20);
        return format!("{}{i}{}", text(rng, 9, l), if rng.chance(1, 3) { *rng.pick(SHOP) } else { "" });
    }
    match style % 6 {
        0 => format!("gid://shopify/Product/{}", 6_837_964_669_113u64 + i as u64),
        1 => format!("p{i}"),
        2 => format!("{i}"),
        3 => format!("{}é{i}", text(rng, 3, 4)),
        4 => format!("{i}-x"),
        _ => format!("a{}b{:05}", rng.below(1000), i),
    }
}

fn pool(rng: &mut Rng, style: usize, size: usize) -> Vec<String> {
    let mut out = plain_pool(rng, style, size);
    if size > 1 && rng.chance(1, 3) {
        for at in 1..size {
            if rng.chance(1, 3) {
                let of = rng.below(at);
                out[at] = lookalike(rng, &out[of].clone());
            }
        }
    }
    out
}

fn plain_pool(rng: &mut Rng, style: usize, size: usize) -> Vec<String> {
    (0..size)
        .map(|i| match rng.below(9) {
            8 => (*rng.pick(SHOP)).to_string(),
            0 => String::new(),
            1 => text(rng, style, 1),
            2 => "Size".to_string(),
            3 => "size".to_string(),
            4 => text(rng, 2, 9),
            5 => format!("v{i}"),
            6 => text(rng, 3, 5),
            _ => {
                let l = rng.range(1, 14);
                text(rng, style, l)
            }
        })
        .collect()
}

pub fn style(rng: &mut Rng, wide: bool) -> usize {
    if wide {
        *rng.pick(&[0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 8, 9, 9])
    } else {
        *rng.pick(&[0, 1, 1, 2, 6, 7, 8])
    }
}

pub fn plain(i: usize) -> Prod {
    Prod {
        description: String::new(), title: format!("t{i}"), vendor: "v".into(), id: format!("p{i}"), tags: vec![], options: vec![],
        price: format!("{}", i % 7), price_max: "9".into(), media: vec![],
    }
}

/// A length around one at which something may change its width: 2 or 3 bytes of a length, 16 bits, or simply long.
fn long_length(rng: &mut Rng) -> usize {
    *rng.pick(&[16_382, 16_383, 16_384, 16_385, 32_768, 65_534, 65_535, 65_536, 65_537, 100_000, 140_000])
}

/// Very many small products.
pub fn crowd(rng: &mut Rng, style: usize, n: usize, max_text: usize) -> Vec<Prod> {
    let own_vendors = rng.chance(1, 2);
    let tag_pool = rng.range(1, 40);
    let prices = *rng.pick(&[1, 3, 500]);
    (0..n)
        .map(|i| {
            let mut p = plain(i);
            let l = rng.below(10).min(max_text);
            p.description = text(rng, style, l);
            p.title = text(rng, style, 3);
            if own_vendors {
                p.vendor = format!("{}", i % 1500);
            }
            p.tags = (0..rng.below(3)).map(|_| format!("tag {}", rng.below(tag_pool))).collect();
            p.options = (0..rng.below(3)).map(|_| (format!("c{}", rng.below(3)), vec![format!("o{}", rng.below(9))])).collect();
            p.price = format!("{}", rng.below(prices));
            if rng.chance(1, 2) {
                p.media.push(format!("u{i}"));
            }
            p
        })
        .collect()
}

/// One text runs on a single character before anything else comes, so that what follows it is improbable.
/// The second value is windows of n characters at such places.
pub fn skewed(rng: &mut Rng, cat: &mut Cat, n: usize) -> Vec<Vec<char>> {
    if cat.prods.is_empty() {
        return Vec::new();
    }
    let run = character(rng, 1).to_string();
    let mut at = Vec::new();
    let mut t = String::new();
    for _ in 0..rng.range(1, 4) {
        t.push_str(&run.repeat(*rng.pick(&[100, 1000, 5000, 30_000])));
        at.push(t.chars().count());
        let l = rng.range(1, 6);
        t.push_str(&text(rng, 1, l));
    }
    let chars: Vec<char> = t.chars().flat_map(char::to_lowercase).collect();
    let mut windows = Vec::new();
    for _ in 0..12 {
        let end = (rng.pick(&at) + rng.range(1, n)).min(chars.len());
        let mut w: Vec<char> = chars[end.saturating_sub(n)..end].to_vec();
        if rng.chance(1, 3) {
            let i = rng.below(w.len());
            w[i] = character(rng, cat.style).to_lowercase().next().unwrap();
        }
        windows.push(w);
    }
    let which = rng.below(cat.prods.len());
    cat.prods[which].description = t;
    windows
}

/// Catalogues that are large in one respect.
pub fn large(rng: &mut Rng, shape: &Shape) -> Cat {
    let style = style(rng, shape.wide);
    let mut prods: Vec<Prod> = (0..rng.range(3, 8)).map(plain).collect();
    let kinds: &[usize] = if shape.max_text > 100 { &[0, 1, 1, 2, 3, 4] } else { &[0, 3, 4] };
    match *rng.pick(kinds) {
        0 => {
            // Products
            // once in a while more than 16 bits can number
            let n = if rng.chance(1, 12) { rng.range(65_530, 66_500) } else { rng.range(600, 2500) };
            prods = crowd(rng, style, n, if n > 60_000 { shape.max_text.min(2) } else { shape.max_text });
        }
        1 => {
            // Occurrences of a few characters, among many rare ones
            let common = text(rng, 1, 2);
            let mut t = common.repeat(rng.range(5_000, 36_000));
            for _ in 0..rng.range(1, 6) {
                let l = rng.range(1, 12);
                t.push_str(&text(rng, 3, l));
                t.push_str(&common.repeat(rng.range(1, 9)));
            }
            prods[0].description = t;
        }
        2 => {
            // Continuations
            let step = *rng.pick(&[1u32, 1, 7, 301]);
            let from = *rng.pick(&[0x100u32, 0x4e00, 0x1_0000]);
            let unit = text(rng, 8, 1);
            prods[0].description = (0..rng.range(200, 2000) as u32).filter_map(|i| char::from_u32(from + i * step)).map(|c| format!("{unit}{c}")).collect();
        }
        3 => {
            // Tags, options and categories
            let n = rng.range(300, 2500);
            for i in 0..n {
                for _ in 0..rng.range(1, 2) {
                    let at = rng.below(prods.len());
                    prods[at].tags.push(format!("tag {i}"));
                }
                let at = rng.below(prods.len());
                let category = match rng.below(3) {
                    0 => i,
                    _ => i % 5,
                };
                prods[at].options.push((format!("c{category}"), vec![format!("o{}", i / 2), "shared".into()]));
            }
        }
        _ => {
            // Strings
            for _ in 0..2 {
                let l = long_length(rng);
                let unit = character(rng, style);
                let s: String = std::iter::repeat(unit).take(l / unit.len_utf8()).collect();
                let at = rng.below(prods.len());
                let p = &mut prods[at];
                match rng.below(7) {
                    0 => p.id = s,
                    1 => p.title = s,
                    2 => p.vendor = s,
                    3 => p.tags.push(s),
                    4 => p.media.insert(0, s),
                    5 => p.options.push((s, vec!["o".into()])),
                    _ => p.options.push(("c".into(), vec![s])),
                }
            }
            let mut ids = HashSet::new();
            for p in &mut prods {
                while !ids.insert(p.id.clone()) {
                    p.id.push('x');
                }
            }
        }
    }
    Cat { prods, style }
}

/// Products that share most of many tags and options, so that filters with many of them active still let some pass.
pub fn share_much(rng: &mut Rng, cat: &mut Cat) {
    let (tags, options, categories) = (rng.range(2, 70), rng.range(2, 70), rng.range(1, 12));
    let mode = rng.below(3);
    for (i, p) in cat.prods.iter_mut().enumerate() {
        let left_out = if i == 0 { usize::MAX } else { rng.below(tags.max(options)) };
        let mut has = |rng: &mut Rng, j: usize| match mode {
            0 => j != left_out,
            1 => i == 0 || rng.chance(9, 10),
            _ => j < left_out,
        };
        for j in 0..tags {
            if has(rng, j) {
                p.tags.push(format!("shared {j}"));
            }
        }
        for c in 0..categories.min(options) {
            let values: Vec<String> = (c..options).step_by(categories).filter(|j| has(rng, *j)).map(|j| format!("shared {j}")).collect();
            p.options.push((format!("shared {c}"), values));
        }
        if rng.chance(1, 2) {
            rng.shuffle(&mut p.tags);
            rng.shuffle(&mut p.options);
        }
    }
}

/// Which of some things to toggle, in turn: often a few over and over, or all of those that belong together.
pub fn toggles(rng: &mut Rng, total: usize, together: &[usize], limit: usize) -> Vec<usize> {
    if total == 0 {
        return Vec::new();
    }
    let mut out = Vec::new();
    if !together.is_empty() && rng.chance(1, 3) {
        out = together.to_vec();
        rng.shuffle(&mut out);
        if rng.chance(1, 4) {
            out.push(rng.below(total));
        }
        for _ in 0..rng.below(4) {
            let k = *rng.pick(&out);
            out.push(k);
        }
    } else {
        let focus: Vec<usize> = (0..rng.range(1, 4)).map(|_| rng.below(total)).collect();
        for _ in 0..rng.range(1, 14) {
            out.push(if rng.chance(3, 4) { *rng.pick(&focus) } else { rng.below(total) });
        }
    }
    out.truncate(limit);
    out
}

pub fn catalogue(rng: &mut Rng, shape: &Shape) -> Cat {
    let mut cat = ordinary(rng, shape);
    if cat.prods.len() <= 40 && rng.chance(1, 15) {
        share_much(rng, &mut cat);
    }
    cat
}

fn ordinary(rng: &mut Rng, shape: &Shape) -> Cat {
    if shape.max_products >= 140 && rng.chance(1, 100) {
        return large(rng, shape);
    }
    let style = style(rng, shape.wide);
    let count = product_count(rng, shape);
    let many = rng.chance(1, 25);
    let vendor_pool = {
        let n = if rng.chance(1, 20) { 140 } else { rng.range(1, 6) };
        pool(rng, style, n)
    };
    let tag_pool = {
        let n = if many { rng.range(130, 330) } else { rng.range(1, 9) };
        let mut p = pool(rng, style, n);
        if many {
            for (i, t) in p.iter_mut().enumerate() {
                if rng.chance(4, 5) {
                    *t = format!("tag {i}");
                }
            }
        }
        p
    };
    let option_pool = {
        let n = rng.range(1, 4);
        pool(rng, style, n)
    };
    let value_pool = {
        let n = if many { rng.range(130, 300) } else { rng.range(1, 7) };
        let mut p = pool(rng, style, n);
        if many {
            for (i, t) in p.iter_mut().enumerate() {
                if rng.chance(4, 5) {
                    *t = format!("value {i}");
                }
            }
        }
        p
    };
    let boiler = if rng.chance(1, 2) {
        let l = rng.range(1, 2 * shape.n + 3);
        Some((text(rng, style, l), rng.range(60, 105), rng.below(3)))
    } else {
        None
    };
    let id_style = rng.below(6);
    let price_mode = rng.below(5);
    // Prices that differ by next to nothing
    let base = *rng.pick(&[0.0f32, 1.0, 10.0, 19.95, 4999.0, 100_000.0, 16_777_210.0]);
    let media_mode = rng.below(4);
    let title_pool = pool(rng, style, 4);
    let shared_titles = rng.chance(1, 4);
    let mut ids = HashSet::new();
    let mut prods = Vec::with_capacity(count);
    let mut budget = 60_000usize.max(shape.max_text * 2);
    for i in 0..count {
        let dl = length(rng, shape).min(budget);
        budget -= dl.min(budget);
        let mut description = text(rng, style, dl);
        let tl = length(rng, shape).min(60).min(shape.max_text);
        let mut title = if shared_titles { rng.pick(&title_pool).clone() } else { text(rng, style, tl) };
        if let Some((b, percent, place)) = &boiler {
            if rng.below(100) < *percent {
                match place {
                    0 => description = format!("{b}{description}"),
                    1 => description.push_str(b),
                    _ => title.push_str(b),
                }
            }
        }
        let mut pid = id(rng, i, id_style);
        while !ids.insert(pid.clone()) {
            pid.push('x');
        }
        let tags = {
            let n = if many { rng.below(60) } else { rng.below(5) };
            (0..n).map(|_| rng.pick(&tag_pool).clone()).collect()
        };
        let options = {
            let n = rng.below(4);
            (0..n)
                .map(|_| {
                    let name = rng.pick(&option_pool).clone();
                    let k = if many { rng.below(40) } else { rng.below(4) };
                    let values = (0..k).map(|_| rng.pick(&value_pool).clone()).collect();
                    (name, values)
                })
                .collect()
        };
        let p = match price_mode {
            0 => format!("{}", rng.below(3)),
            1 => format!("{}.{:02}", rng.below(500), rng.below(100)),
            2 => match rng.below(3) {
                0 => format!("{}", f32::from_bits(base.to_bits() + rng.below(3) as u32)),
                1 => format!("{}", base + *rng.pick(&[0.001, -0.001, 0.004, 0.01, 0.3, -0.5, 1.0])),
                _ => format!("{base}"),
            },
            _ => price(rng),
        };
        let media = {
            let n = match media_mode {
                0 => 1,
                1 => rng.below(2),
                _ => rng.below(4),
            };
            (0..n)
                .map(|k| {
                    if rng.chance(1, 12) {
                        text(rng, 3, 5)
                    } else if rng.chance(1, 12) {
                        let l = rng.range(1, 40);
                        text(rng, 9, l)
                    } else {
                        format!("https://cdn/{i}/{k}.png?v={}", rng.below(9))
                    }
                })
                .collect()
        };
        prods.push(Prod {
            description,
            title,
            vendor: rng.pick(&vendor_pool).clone(),
            id: pid,
            tags,
            options,
            price: p,
            price_max: price(rng),
            media,
        });
    }
    Cat { prods, style }
}

/// A query for a catalogue: a piece of its text, the same with mistakes, or unrelated text. Already lower-cased.
pub fn query(rng: &mut Rng, cat: &Cat, max: usize) -> String {
    let mut chars: Vec<char> = if !cat.prods.is_empty() && rng.chance(5, 6) {
        let t = rng.pick(&cat.prods).text();
        if t.is_empty() {
            Vec::new()
        } else {
            let start = if rng.chance(1, 4) { 0 } else { rng.below(t.len()) };
            let len = rng.range(1, max);
            t[start..].iter().take(len).copied().collect()
        }
    } else {
        let l = rng.below(max + 1);
        text(rng, cat.style, l).chars().flat_map(char::to_lowercase).collect()
    };
    let edits = *rng.pick(&[0, 0, 0, 1, 1, 2, 3]);
    for _ in 0..edits {
        let at = rng.below(chars.len() + 1);
        match rng.below(4) {
            0 if at < chars.len() => {
                chars.remove(at);
            }
            1 if at < chars.len() => chars[at] = character(rng, cat.style).to_lowercase().next().unwrap(),
            2 if at + 1 < chars.len() => chars.swap(at, at + 1),
            _ => chars.insert(at, character(rng, cat.style).to_lowercase().next().unwrap()),
        }
    }
    if rng.chance(1, 6) {
        chars.insert(0, '\0');
    }
    chars.into_iter().collect()
}
