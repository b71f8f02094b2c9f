//! Driving the real code: building, loading, and telling its panics from the harness's own.
use crate::gen::Cat;
use colosseum::sync::Arena;
use indexer_lib::classic_indexes::ClassicIndexes;
use indexer_lib::data::{Product, RawProduct, SuperAlloc};
use indexer_lib::ngram::{GramIndex, GramNode};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Idx<const N: usize> = GramIndex<'static, char, Product<'static>, N>;
pub type Cls = ClassicIndexes<'static>;
pub type Nodes = Arena<GramNode<'static, char>>;

/// Arenas of one case. Declare it before anything that refers into it: it frees them when dropped.
#[derive(Default)]
pub struct Leaks {
    supers: RefCell<Vec<*mut SuperAlloc>>,
    nodes: RefCell<Vec<*mut Nodes>>,
    texts: RefCell<Vec<*mut String>>,
}

impl Leaks {
    pub fn super_alloc(&self) -> &'static SuperAlloc {
        let p = Box::into_raw(Box::new(SuperAlloc::new()));
        self.supers.borrow_mut().push(p);
        unsafe { &*p }
    }
    pub fn nodes(&self) -> &'static Nodes {
        let p = Box::into_raw(Box::new(Arena::new()));
        self.nodes.borrow_mut().push(p);
        unsafe { &*p }
    }
    pub fn text(&self, s: String) -> &'static str {
        let p = Box::into_raw(Box::new(s));
        self.texts.borrow_mut().push(p);
        unsafe { (*p).as_str() }
    }
}

impl Drop for Leaks {
    fn drop(&mut self) {
        if std::thread::panicking() {
            return;
        }
        unsafe {
            for p in self.nodes.borrow_mut().drain(..) {
                drop(Box::from_raw(p));
            }
            for p in self.supers.borrow_mut().drain(..) {
                drop(Box::from_raw(p));
            }
            for p in self.texts.borrow_mut().drain(..) {
                drop(Box::from_raw(p));
            }
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        LAST_PANIC.with(|l| *l.borrow_mut() = msg);
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

/// Runs real code; Err carries the panic message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let m = last_panic();
        if m.contains("non-wasm") {
            // The code needed JavaScript, which does not exist here: no verdict
            eprintln!("harness: {m}");
            std::process::exit(3);
        }
        m
    })
}

pub fn raw_products(text: &'static str) -> Vec<RawProduct<'static>> {
    serde_json::from_str(text).expect("harness: catalogue did not parse")
}

/// JSON to bytes through the whole build pipeline.
pub fn build<const N: usize>(cat: &Cat, leaks: &Leaks) -> Result<Vec<u8>, String> {
    let text = leaks.text(cat.json_array());
    let alloc = leaks.super_alloc();
    guard(|| {
        let raw: Vec<RawProduct<'static>> = serde_json::from_str(text).map_err(|e| format!("catalogue rejected: {e}"))?;
        indexer_lib::index_and_serialize_with_n::<N>(raw, alloc).map_err(|e| format!("indexing failed: {e}"))
    })?
}

pub fn load<const N: usize>(bytes: &[u8], leaks: &Leaks) -> Result<Option<(Idx<N>, Cls)>, String> {
    let nodes = leaks.nodes();
    let alloc = leaks.super_alloc();
    guard(|| indexer_lib::serialize::deserialize_all::<char, N>(bytes, nodes, alloc))
}

pub fn build_and_load<const N: usize>(cat: &Cat, leaks: &Leaks) -> Result<(Idx<N>, Cls), String> {
    let bytes = build::<N>(cat, leaks)?;
    load::<N>(&bytes, leaks)?.ok_or_else(|| "the built index does not load".to_string())
}

/// The index and classic indexes as built, before serialization.
pub fn build_direct<const N: usize>(cat: &Cat, leaks: &Leaks) -> Result<(Idx<N>, Cls), String> {
    let text = leaks.text(cat.json_array());
    let alloc = leaks.super_alloc();
    let nodes = leaks.nodes();
    guard(|| {
        let raw: Vec<RawProduct<'static>> = serde_json::from_str(text).map_err(|e| format!("catalogue rejected: {e}"))?;
        let (container, classic) = indexer_lib::data::optimize(raw, alloc);
        let iter = container.products.iter().map(|p| indexer_lib::ngram::IndexFeed {
            data: p,
            grams: [&p.description, &p.title, &p.vendor.name]
                .into_iter()
                .flat_map(|s| s.chars())
                .flat_map(char::to_lowercase),
        });
        let index: Idx<N> = GramIndex::<char, Product<'static>, N>::index_from(iter, nodes, container);
        Ok((index, classic))
    })?
}

#[macro_export]
macro_rules! with_n {
    ($n:expr, $f:ident ( $($a:expr),* )) => {
        match $n {
            1 => $f::<1>($($a),*),
            2 => $f::<2>($($a),*),
            3 => $f::<3>($($a),*),
            4 => $f::<4>($($a),*),
            5 => $f::<5>($($a),*),
            6 => $f::<6>($($a),*),
            7 => $f::<7>($($a),*),
            8 => $f::<8>($($a),*),
            9 => $f::<9>($($a),*),
            12 => $f::<12>($($a),*),
            17 => $f::<17>($($a),*),
            other => panic!("no N {other}"),
        }
    };
}
