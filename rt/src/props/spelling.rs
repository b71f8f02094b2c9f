//! C17: the JSON entry point, whatever the spelling; and the spellings themselves.
use super::store;
use crate::ctx::{hash_bytes, short, Ctx};
use crate::gen::{self, Cat, Prod, Shape};
use crate::prng::Rng;
use crate::real::guard;
use serde_json::json;

struct Pen<'a> {
    rng: &'a mut Rng,
    /// how often, in percent, a character is written as an escape
    escapes: usize,
    spaces: usize,
    extras: usize,
    shuffled: bool,
}

impl Pen<'_> {
    fn space(&mut self) -> String {
        if self.rng.below(100) < self.spaces {
            (0..self.rng.range(1, 3)).map(|_| *self.rng.pick(&[' ', '\n', '\t', '\r'])).collect()
        } else {
            String::new()
        }
    }
    fn string(&mut self, s: &str) -> String {
        let mut out = String::from("\"");
        for c in s.chars() {
            let simple = match c {
                '"' => Some("\\\""),
                '\\' => Some("\\\\"),
                '/' => Some("\\/"),
                '\u{8}' => Some("\\b"),
                '\u{c}' => Some("\\f"),
                '\n' => Some("\\n"),
                '\r' => Some("\\r"),
                '\t' => Some("\\t"),
                _ => None,
            };
            let must = c == '"' || c == '\\' || c < ' ';
            if must || self.rng.below(100) < self.escapes {
                match simple {
                    Some(e) if self.rng.chance(2, 3) => out.push_str(e),
                    _ => {
                        let mut units = [0u16; 2];
                        for u in c.encode_utf16(&mut units) {
                            out.push_str(&if self.rng.chance(1, 2) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") });
                        }
                    }
                }
            } else {
                out.push(c);
            }
        }
        out.push('"');
        out
    }
    fn list(&mut self, items: Vec<String>) -> String {
        let mut out = format!("[{}", self.space());
        for (i, item) in items.iter().enumerate() {
            if i > 0 {
                out.push(',');
                out.push_str(&self.space());
            }
            out.push_str(item);
            out.push_str(&self.space());
        }
        out.push(']');
        out
    }
    fn object(&mut self, mut fields: Vec<(String, String)>, extras: bool) -> String {
        if extras && self.rng.below(100) < self.extras {
            for i in 0..self.rng.range(1, 3) {
                let name = match self.rng.below(5) {
                    0 => format!("extra{i}"),
                    1 => format!("__typename{i}"),
                    2 => format!("Title{i}"),
                    3 => format!("{}é\"{i}", gen::text(self.rng, 3, 3)),
                    _ => format!("idx{i}"),
                };
                let value = self.junk(0);
                fields.push((name, value));
            }
        }
        if self.shuffled {
            self.rng.shuffle(&mut fields);
        }
        let mut out = format!("{{{}", self.space());
        for (i, (k, v)) in fields.iter().enumerate() {
            if i > 0 {
                out.push(',');
                out.push_str(&self.space());
            }
            let k = self.string(k);
            out.push_str(&format!("{k}{}:{}{v}{}", self.space(), self.space(), self.space()));
        }
        out.push('}');
        out
    }
    fn junk(&mut self, depth: usize) -> String {
        match self.rng.below(if depth > 3 { 6 } else { 9 }) {
            0 => "null".into(),
            1 => (*self.rng.pick(&["true", "false"])).into(),
            2 => (*self.rng.pick(&["0", "-1", "1.5e3", "1E-2", "12345678901234567890123", "-0.0"])).into(),
            3 | 4 => {
                let s = gen::text(self.rng, 3, 6);
                self.string(&s)
            }
            5 => "\"\"".into(),
            6 => {
                let v = (0..self.rng.below(4)).map(|_| self.junk(depth + 1)).collect();
                self.list(v)
            }
            7 => {
                let d = self.rng.range(1, 40);
                format!("{}{}", "[".repeat(d), "]".repeat(d))
            }
            _ => {
                let v = (0..self.rng.below(4)).map(|i| (format!("title{i}"), self.junk(depth + 1))).collect();
                self.object(v, false)
            }
        }
    }
    fn strings(&mut self, list: &[String]) -> String {
        let v = list.iter().map(|s| self.string(s)).collect();
        self.list(v)
    }
    fn amount(&mut self, v: &str) -> String {
        let currency = (*self.rng.pick(&["DKK", "", "kr\u{a0}\"", "€"])).to_string();
        let fields = vec![("amount".to_string(), self.string(v)), ("currencyCode".to_string(), self.string(&currency))];
        self.object(fields, true)
    }
    fn product(&mut self, p: &Prod) -> String {
        let options = p
            .options
            .iter()
            .map(|(n, v)| {
                let fields = vec![("name".to_string(), self.string(n)), ("values".to_string(), self.strings(v))];
                self.object(fields, true)
            })
            .collect();
        let media = p
            .media
            .iter()
            .map(|m| {
                let fields = vec![("url".to_string(), self.string(m))];
                self.object(fields, true)
            })
            .collect();
        let price = vec![("min".to_string(), self.amount(&p.price)), ("max".to_string(), self.amount(&p.price_max))];
        let fields = vec![
            ("description".to_string(), self.string(&p.description)),
            ("tags".to_string(), self.strings(&p.tags)),
            ("title".to_string(), self.string(&p.title)),
            ("vendor".to_string(), self.string(&p.vendor)),
            ("id".to_string(), self.string(&p.id)),
            ("options".to_string(), self.list(options)),
            ("price".to_string(), self.object(price, true)),
            ("media".to_string(), self.list(media)),
        ];
        self.object(fields, true)
    }
}

fn pen(rng: &mut Rng) -> Pen<'_> {
    let escapes = *rng.pick(&[0, 0, 5, 50, 100]);
    let spaces = *rng.pick(&[0, 10, 60]);
    let extras = *rng.pick(&[0, 20, 70]);
    let shuffled = rng.chance(2, 3);
    Pen { rng, escapes, spaces, extras, shuffled }
}

/// The catalogue as a JSON object, spelled some way.
pub fn object(rng: &mut Rng, cat: &Cat) -> String {
    let mut pen = pen(rng);
    let mut fields = Vec::new();
    for (i, p) in cat.prods.iter().enumerate() {
        let key = match pen.rng.below(4) {
            0 => format!("gid://shop/Product/{i}"),
            1 => format!("{i}"),
            2 => format!("{}\"\\é{i}", gen::text(pen.rng, 3, 3)),
            _ => format!("{}-{i}", p.title),
        };
        let value = pen.product(p);
        fields.push((key, value));
    }
    // Another product's fields are none of this one's additional fields
    let body = pen.object(fields, false);
    format!("{}{body}{}", pen.space(), pen.space())
}

/// What every product must have, and where.
const REQUIRED: &[&str] = &[
    "/description", "/tags", "/title", "/vendor", "/id", "/options", "/price", "/media", "/price/min", "/price/max",
    "/price/min/amount", "/price/min/currencyCode", "/price/max/amount", "/price/max/currencyCode", "/options/0/name",
    "/options/0/values", "/options/1/name", "/options/1/values", "/media/0/url", "/media/1/url",
];

/// Values a required field can not have, whichever it is, or one of a list of strings.
const NEVER: &[&str] = &["null", "7", "true", "-1.5", "[7]", "[null]", "[[]]", "[\"a\",{}]"];

/// A catalogue one of whose products lacks a required field, or has a value of the wrong type in it.
fn incomplete(rng: &mut Rng) -> String {
    let n = *rng.pick(&[1, 1, 2, 5]);
    let bad = rng.below(n);
    let products: Vec<String> = (0..n)
        .map(|i| {
            let mut p = gen::plain(i);
            p.tags = (0..rng.below(3)).map(|t| format!("t{t}")).collect();
            p.media = (0..rng.below(3)).map(|m| format!("m{m}")).collect();
            p.options = (0..rng.below(3)).map(|o| (format!("c{o}"), vec![format!("o{o}")])).collect();
            let mut v: serde_json::Value = serde_json::from_str(&p.json()).unwrap();
            if i == bad {
                let path = loop {
                    let path = *rng.pick(REQUIRED);
                    if v.pointer(path).is_some() {
                        break path;
                    }
                };
                let (parent, field) = path.rsplit_once('/').unwrap();
                if rng.chance(1, 2) {
                    let object = v.pointer_mut(parent).unwrap().as_object_mut().unwrap();
                    let old = object.remove(field).unwrap();
                    match rng.below(3) {
                        0 => {
                            object.insert(field.to_uppercase(), old);
                        }
                        1 => {
                            object.insert(format!("{field} "), old);
                        }
                        _ => (),
                    }
                } else {
                    *v.pointer_mut(path).unwrap() = serde_json::from_str(rng.pick(NEVER)).unwrap();
                }
            }
            format!("\"k{i}\":{v}")
        })
        .collect();
    format!("{{{}}}", products.join(","))
}

/// What some parsers let pass for JSON.
fn nearly(rng: &mut Rng, p: &str) -> String {
    match rng.below(11) {
        0 => format!("{{\"k\":{p},}}"),
        1 => format!("{{\"k\":{p}/**/}}"),
        2 => format!("//\n{{\"k\":{p}}}"),
        3 => format!("{{k:{p}}}"),
        4 => format!("\u{feff}{{\"k\":{p}}}"),
        5 => {
            let number = *rng.pick(&["01", "+1", ".5", "1.", "NaN", "Infinity", "0x10", "1e", "undefined", "True"]);
            format!("{{\"k\":{}}}", p.replacen('{', &format!("{{\"extra\":{number},"), 1))
        }
        6 => format!("{{\"k\":{}}}", p.replacen("\"title\":\"", &format!("\"title\":\"{}", rng.pick(&['\u{0}', '\u{1}', '\t', '\n', '\r', '\u{1f}'])), 1)),
        7 => format!("{{\"k\":{}}}", p.replacen("\"title\":\"", &format!("\"title\":\"{}", rng.pick(&["\\ud800", "\\udc00", "\\ud800\\u0041", "\\u12g4", "\\u12 ", "\\'", "\\v", "\\x41"])), 1)),
        8 => format!("{{\"k\":{p}}}{{\"k\":{p}}}"),
        9 => format!("{{\"k\":{p} \"l\":{p}}}"),
        _ => format!("{{\"k\"={p}}}"),
    }
}

/// Text that is no such object.
pub fn broken(rng: &mut Rng) -> String {
    let shape = Shape { max_products: 4, max_text: 20, n: 5, wide: true };
    let mut cat = gen::catalogue(rng, &shape);
    if cat.prods.is_empty() {
        cat.prods.push(Prod {
            description: "d".into(), title: "t".into(), vendor: "v".into(), id: "1".into(), tags: vec![], options: vec![],
            price: "1".into(), price_max: "2".into(), media: vec![],
        });
    }
    let good = object(rng, &cat);
    let p = cat.prods[0].json();
    let one = |p: &str| format!("{{\"k\":{p}}}");
    match rng.below(24) {
        16..=19 => incomplete(rng),
        20..=22 => nearly(rng, &p),
        0 => String::new(),
        1 | 2 => {
            // The closing brace is the last character that is not white space
            let end = good.rfind('}').unwrap();
            let mut cut = rng.below(end + 1);
            while !good.is_char_boundary(cut) {
                cut -= 1;
            }
            good[..cut].to_string()
        }
        3 => format!("[{p}]"),
        4 => format!("{good}{}", rng.pick(&["x", "}", ",", "{}", "\0"])),
        5 => one(&p.replacen("\"title\":", "\"Title\":", 1)),
        6 => {
            let bad = *rng.pick(&["", "twelve", "1,5", "12 kr", " 1", "1 ", "NaN", "nan", "-NaN", "--1", "1.2.3", "0x10", "½", "."]);
            let price = format!("{{\"amount\":{},", gen::q(&cat.prods[0].price));
            one(&p.replacen(&price, &format!("{{\"amount\":{},", gen::q(bad)), 1))
        }
        7 => one(&p.replacen("\"tags\":[", "\"tags\":[7,", 1).replacen("[7,]", "[7]", 1)),
        8 => one(&format!("{}", rng.pick(&["null", "7", "\"x\"", "true", "{}"]))),
        9 => "[".repeat(rng.range(1, 100_000)),
        10 => format!("{{\"k\":{}", "{\"k\":".repeat(rng.range(1, 100_000))),
        11 => (*rng.pick(&["null", "0", "\"\"", "true", "[]", "nan", "{", "}", "\u{feff}{}", "{]", "{\"a\"}", "{'a':1}"])).to_string(),
        12 => one(&p.replacen("\"title\":\"", "\"title\":\"\\ud800", 1)),
        13 => one(&p.replacen("\"title\":\"", "\"title\":\"\\x", 1)),
        14 => one(&p.replacen("\"media\":[", "\"media\":[{\"src\":\"x\"}", 1).replacen("\"x\"}{", "\"x\"},{", 1)),
        _ => gen::text(rng, 3, 30).replace(['{', '}'], "x"),
    }
}

pub fn c17(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let shape = Shape { max_products: if rng.chance(1, 30) { 120 } else { 25 }, max_text: 120, n: 5, wide: true };
    let cat = if rng.chance(1, 200) { gen::large(&mut rng, &shape) } else { gen::catalogue(&mut rng, &shape) };
    for _ in 0..2 {
        let text = object(&mut rng, &cat);
        let bytes = match guard(|| indexer_lib::index(&text)) {
            Ok(Some(v)) => v,
            Ok(None) => return ctx.violate("a well-formed catalogue is not indexed", json!({"json": short(&text)})),
            Err(e) => return ctx.violate(format!("indexing a well-formed catalogue panicked: {e}"), json!({"json": short(&text)})),
        };
        if let Err(e) = store::same_catalogue(&cat, &bytes) {
            return ctx.violate(e, json!({"json": short(&text)}));
        }
        ctx.count("spellings_indexed", 1);
        ctx.count("products_compared", cat.prods.len() as u64);
        ctx.count("escapes_met", text.matches('\\').count() as u64);
        ctx.evaluated(hash_bytes(text.as_bytes()), cat.prods.len() > 1);
        ctx.sample(|| json!({"json": text.chars().take(300).collect::<String>(), "bytes": bytes.len()}));
    }
    for _ in 0..6 {
        let text = broken(&mut rng);
        match guard(|| indexer_lib::index(&text)) {
            Ok(None) => ctx.count("other_texts_refused", 1),
            Ok(Some(_)) => return ctx.violate("text that is no catalogue is indexed", json!({"text": short(&text)})),
            Err(e) => return ctx.violate(format!("text that is no catalogue makes indexing panic: {e}"), json!({"text": short(&text)})),
        }
        ctx.evaluated(hash_bytes(text.as_bytes()), text.len() > 2);
    }
}
