//! Reference model: what the properties say the gram index of a corpus is, computed over plain character sequences.
use std::collections::{BTreeMap, HashMap};

pub struct TNode {
    pub ch: char,
    pub count: u64,
    pub children: BTreeMap<char, usize>,
}

/// Occurrence counts of every character sequence of length 1..=n inside one text.
pub struct Trie {
    pub nodes: Vec<TNode>,
    pub depth: usize,
    pub total: u64,
}

impl Trie {
    pub fn new(texts: &[Vec<char>], depth: usize) -> Trie {
        let mut t = Trie {
            nodes: vec![TNode { ch: '\0', count: 0, children: BTreeMap::new() }],
            depth,
            total: 0,
        };
        for text in texts {
            t.total += text.len() as u64;
            for start in 0..text.len() {
                let mut at = 0;
                for c in &text[start..(start + depth).min(text.len())] {
                    let next = match t.nodes[at].children.get(c) {
                        Some(v) => *v,
                        None => {
                            let v = t.nodes.len();
                            t.nodes.push(TNode { ch: *c, count: 0, children: BTreeMap::new() });
                            t.nodes[at].children.insert(*c, v);
                            v
                        }
                    };
                    t.nodes[next].count += 1;
                    at = next;
                }
            }
        }
        t.nodes[0].count = t.total;
        t
    }
    pub fn root(&self, c: char) -> Option<usize> {
        self.nodes[0].children.get(&c).copied()
    }
    pub fn path(&self, seq: &[char]) -> Option<usize> {
        let mut at = 0;
        for c in seq {
            at = *self.nodes[at].children.get(c)?;
        }
        Some(at)
    }
    pub fn weight(&self, parent: usize, child: usize) -> f64 {
        self.nodes[child].count as f64 / self.nodes[parent].count as f64
    }
}

/// For each gram (left-padded with the null character) the products listed under it, in order, with repetitions.
pub fn postings(texts: &[Vec<char>], n: usize) -> HashMap<Vec<char>, Vec<usize>> {
    let mut out: HashMap<Vec<char>, Vec<usize>> = HashMap::new();
    for (i, text) in texts.iter().enumerate() {
        for end in 1..=text.len() {
            let start = end.saturating_sub(n);
            let mut key = vec!['\0'; n - (end - start)];
            key.extend_from_slice(&text[start..end]);
            out.entry(key).or_default().push(i);
        }
    }
    let limit = 4 * texts.len() / 5;
    out.retain(|_, products| {
        let mut distinct = 1;
        for w in products.windows(2) {
            if w[0] != w[1] {
                distinct += 1;
            }
        }
        distinct < limit
    });
    out
}

/// Every gram reachable from a window with its highest confidence, or None if the exploration exceeds `budget` steps.
pub fn resolutions(trie: &Trie, query: &[char], budget: usize) -> Option<HashMap<Vec<char>, f64>> {
    let n = query.len();
    let mut s = Search { trie, n, limit: n / 3, best: HashMap::new(), budget };
    let root = match trie.root(query[0]) {
        Some(v) => v,
        None => return Some(s.best),
    };
    let mut path = vec![query[0]];
    if s.rec(&mut path, &query[1..], root, None, 0, 1.0) {
        Some(s.best)
    } else {
        None
    }
}

struct Search<'a> {
    trie: &'a Trie,
    n: usize,
    limit: usize,
    best: HashMap<Vec<char>, f64>,
    budget: usize,
}

impl Search<'_> {
    /// `path` is what has been accepted so far and ends at `node`; `prev` is the node before it, if the last
    /// character may be dropped.
    fn rec(&mut self, path: &mut Vec<char>, input: &[char], node: usize, prev: Option<usize>, spent: usize, w: f64) -> bool {
        if self.budget == 0 {
            return false;
        }
        self.budget -= 1;
        if path.len() == self.n {
            let e = self.best.entry(path.clone()).or_insert(0.0);
            if w > *e {
                *e = w;
            }
            return true;
        }
        let trie = self.trie;
        let typed = input.first().and_then(|c| trie.nodes[node].children.get(c)).copied();
        let rest = if input.is_empty() { input } else { &input[1..] };
        if let Some(child) = typed {
            path.push(trie.nodes[child].ch);
            let ok = self.rec(path, rest, child, Some(node), spent, w * trie.weight(node, child));
            path.pop();
            if !ok {
                return false;
            }
        }
        if spent < self.limit {
            for (c, child) in &trie.nodes[node].children {
                if Some(*child) == typed {
                    continue;
                }
                let cw = w * trie.weight(node, *child);
                path.push(*c);
                let ok = self.rec(path, rest, *child, Some(node), spent + 1, cw)
                    && self.rec(path, input, *child, Some(node), spent + 2, cw);
                path.pop();
                if !ok {
                    return false;
                }
            }
            if let (Some(c), Some(prev)) = (input.first(), prev) {
                if let Some(sibling) = trie.nodes[prev].children.get(c) {
                    let dropped = path.pop().unwrap();
                    path.push(*c);
                    let ok = self.rec(path, rest, *sibling, None, spent + 1, w);
                    path.pop();
                    path.push(dropped);
                    if !ok {
                        return false;
                    }
                }
            }
        }
        true
    }
}

pub const TIE: f64 = 1e-4;

pub fn best_of(m: &HashMap<Vec<char>, f64>) -> f64 {
    m.values().copied().fold(0.0, f64::max)
}

/// The grams a window may resolve to (several only if their confidences tie) and that confidence.
pub fn allowed(m: &HashMap<Vec<char>, f64>) -> (Vec<&Vec<char>>, f64) {
    let best = best_of(m);
    (m.iter().filter(|(_, w)| **w >= best * (1.0 - TIE)).map(|(g, _)| g).collect(), best)
}

pub fn windows(query: &[char], n: usize) -> Vec<Vec<char>> {
    let mut w = vec!['\0'; n];
    query
        .iter()
        .map(|c| {
            w.remove(0);
            w.push(*c);
            w.clone()
        })
        .collect()
}

/// What a text query may score: bounds per product, whether the product must be, or may be, among the results.
pub struct Expect {
    pub lo: f64,
    pub hi: f64,
    pub must: bool,
}

/// None if some window was too costly to resolve.
pub fn expected_search(
    trie: &Trie,
    postings: &HashMap<Vec<char>, Vec<usize>>,
    query: &[char],
    n: usize,
    budget: usize,
) -> Option<(BTreeMap<usize, Expect>, bool)> {
    let mut out: BTreeMap<usize, Expect> = BTreeMap::new();
    let mut ambiguous = false;
    for w in windows(query, n) {
        let m = resolutions(trie, &w, budget)?;
        if m.is_empty() {
            continue;
        }
        let (grams, conf) = allowed(&m);
        let lists: Vec<Option<&Vec<usize>>> = grams.iter().map(|g| postings.get(*g)).collect();
        if lists.len() > 1 {
            ambiguous = true;
        }
        let mut counts: BTreeMap<usize, (u64, u64, usize)> = BTreeMap::new();
        for list in lists.iter().flatten() {
            let mut per: BTreeMap<usize, u64> = BTreeMap::new();
            for p in *list {
                *per.entry(*p).or_insert(0) += 1;
            }
            for (p, k) in per {
                let e = counts.entry(p).or_insert((u64::MAX, 0, 0));
                e.0 = e.0.min(k);
                e.1 = e.1.max(k);
                e.2 += 1;
            }
        }
        for (p, (min, max, in_lists)) in counts {
            let always = in_lists == lists.len();
            let e = out.entry(p).or_insert(Expect { lo: 0.0, hi: 0.0, must: false });
            if always {
                e.lo += conf * min as f64;
                e.must = true;
            }
            e.hi += conf * max as f64;
        }
    }
    Some((out, ambiguous))
}

/// Stored form of a text under a byte limit.
pub fn limited(text: &str, max: usize) -> &str {
    let first_beyond = match text.char_indices().map(|(o, _)| o).find(|o| *o > max) {
        Some(v) => v,
        None => return text,
    };
    let bytes = text.as_bytes();
    let cut = (1..=max.min(bytes.len() - 1)).rev().find(|o| bytes[*o] == b' ').unwrap_or(first_beyond);
    &text[..cut]
}
