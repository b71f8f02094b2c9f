//! C02: every encoding decodes to its value, leaves what follows, and none of its strict prefixes decodes.
use crate::ctx::{hash_bytes, Ctx};
use crate::gen;
use crate::prng::Rng;
use crate::real::guard;
use ahash::AHashMap;
use indexer_lib::serialize::{sequential_array, Deserializable, Serializable};
use serde_json::json;

fn tail(rng: &mut Rng) -> Vec<u8> {
    let n = *rng.pick(&[0, 0, 1, 1, 2, 9, 12]);
    let mode = rng.below(4);
    (0..n)
        .map(|_| match mode {
            0 => 0xff,
            1 => 0x80,
            2 => 0,
            _ => rng.u64() as u8,
        })
        .collect()
}

fn run<T>(
    ctx: &mut Ctx,
    rng: &mut Rng,
    kind: &str,
    shown: &dyn Fn() -> String,
    encode: &dyn Fn(&mut Vec<u8>),
    decode: &dyn Fn(&[u8]) -> Option<(usize, T)>,
    same: &dyn Fn(&T) -> bool,
) {
    if ctx.stop() {
        return;
    }
    let mut bytes = Vec::new();
    if let Err(e) = guard(|| encode(&mut bytes)) {
        return ctx.violate(format!("encoding the {kind} {} panicked: {e}", shown()), json!(null));
    }
    let len = bytes.len();
    let tail = tail(rng);
    bytes.extend_from_slice(&tail);
    match guard(|| decode(&bytes)) {
        Ok(Some((rest, v))) => {
            if rest != tail.len() {
                return ctx.violate(format!("decoding the {kind} {} followed by {tail:?} leaves {rest} bytes", shown()), json!({"bytes": bytes}));
            }
            if !same(&v) {
                return ctx.violate(format!("the {kind} {} followed by {tail:?} decodes to another value", shown()), json!({"bytes": bytes}));
            }
        }
        Ok(None) => return ctx.violate(format!("the {kind} {} followed by {tail:?} does not decode", shown()), json!({"bytes": bytes})),
        Err(e) => return ctx.violate(format!("decoding the {kind} {} panicked: {e}", shown()), json!({"bytes": bytes})),
    }
    let step = (len / 200).max(1);
    let mut cut = 0;
    while cut < len {
        match guard(|| decode(&bytes[..cut]).is_some()) {
            Ok(false) => {}
            Ok(true) => return ctx.violate(format!("the first {cut} of {len} bytes of the {kind} {} decode to a value", shown()), json!({"bytes": &bytes[..cut]})),
            Err(e) => return ctx.violate(format!("decoding the first {cut} of {len} bytes of the {kind} {} panicked: {e}", shown()), json!({"bytes": &bytes[..cut]})),
        }
        ctx.count("prefixes_tried", 1);
        cut += if cut + 20 >= len { 1 } else { step };
    }
    ctx.count(kind, 1);
    if len >= 1 << 14 {
        ctx.count("long_encodings", 1);
    }
    let nontrivial = len > 1;
    ctx.evaluated(hash_bytes(format!("{kind}{bytes:?}").as_bytes()), nontrivial);
    ctx.sample(|| json!({"type": kind, "value": crate::ctx::short(&shown()), "bytes": len, "followed_by": tail.len()}));
}

fn rest_of<T>(input: &[u8], r: Option<(&[u8], T)>) -> Option<(usize, T)> {
    r.map(|(rest, v)| {
        // The remainder must be the end of the input itself
        let ok = rest.len() <= input.len() && *rest == input[input.len() - rest.len()..];
        (if ok { rest.len() } else { usize::MAX }, v)
    })
}

fn number(rng: &mut Rng, bits: u32) -> u64 {
    let v = match rng.below(6) {
        0 => {
            let b = rng.below(bits as usize + 1) as u32;
            let base = if b >= 64 { u64::MAX } else { (1u64 << b).wrapping_sub(1) };
            base.wrapping_add(rng.below(4) as u64).wrapping_sub(1)
        }
        1 => {
            // Boundaries of the 7-bit groups
            let g = rng.below(10) as u32 * 7;
            let base = if g >= 64 { u64::MAX } else { 1u64 << g };
            base.wrapping_add(rng.below(5) as u64).wrapping_sub(2)
        }
        2 => rng.u64() >> rng.below(64),
        3 => rng.below(300) as u64,
        4 => !(rng.u64() >> rng.below(64)),
        _ => rng.u64(),
    };
    if bits >= 64 {
        v
    } else {
        v & ((1u64 << bits) - 1)
    }
}

fn character(rng: &mut Rng) -> char {
    loop {
        let v = match rng.below(6) {
            0 => rng.below(0x80) as u32,
            1 => *rng.pick(&[0x7f, 0x80, 0x7ff, 0x800, 0x3fff, 0x4000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10_ffff]),
            _ => rng.below(0x11_0000) as u32,
        };
        if let Some(c) = char::from_u32(v) {
            return c;
        }
    }
}

fn f32_bits(rng: &mut Rng) -> u32 {
    match rng.below(4) {
        0 => *rng.pick(&[0, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f80_0001, 0xffff_ffff, 1, 0x007f_ffff, 0x0080_0000, 0x3f80_0000]),
        _ => rng.u64() as u32,
    }
}

/// Around the lengths at which an encoding or a counter gets longer.
fn long(rng: &mut Rng) -> usize {
    *rng.pick(&[1 << 14, 1 << 16, 1 << 16, 255 * 257]) + rng.below(5) - 2
}

fn string(rng: &mut Rng) -> String {
    if rng.chance(1, 400) {
        let c = *rng.pick(&["a", " ", "é", "漢"]);
        let n = if rng.chance(1, 4) { 1 << 21 } else { long(rng) };
        let mut s = c.repeat(n / c.len() - 1);
        s.push_str(&"b".repeat(rng.below(6)));
        return s;
    }
    let style = gen::style(rng, true);
    let n = match rng.below(10) {
        0 => 0,
        1 => rng.range(126, 129),
        2 => rng.range(16_380, 16_390),
        3 | 4 => rng.below(200),
        _ => rng.below(12),
    };
    gen::text(rng, style, n)
}

fn ids(rng: &mut Rng, bits: u32) -> Vec<u64> {
    let n = match rng.below(8) {
        _ if rng.chance(1, 400) => long(rng),
        0 => 0,
        1 => 1,
        2 => rng.range(126, 130),
        3 => rng.range(200, 600),
        _ => rng.below(20),
    };
    let mode = rng.below(4);
    let mut v: Vec<u64> = (0..n)
        .map(|_| match mode {
            0 => rng.below(6) as u64,
            1 => rng.below(100_000) as u64 & (if bits < 64 { (1u64 << bits) - 1 } else { u64::MAX }),
            _ => number(rng, bits),
        })
        .collect();
    match rng.below(4) {
        0 => v.sort_unstable(),
        1 => v.sort_unstable_by(|a, b| b.cmp(a)),
        _ => {}
    }
    v
}

macro_rules! scalar {
    ($ctx:expr, $rng:expr, $kind:expr, $t:ty, $v:expr, $eq:expr) => {{
        let v: $t = $v;
        run(
            $ctx, $rng, $kind,
            &|| format!("{v:?}"),
            &|out| v.serialize(&mut |b| out.push(b)),
            &|i| rest_of(i, <$t as Deserializable>::deserialize(i)),
            &|d: &$t| $eq(&v, d),
        );
    }};
}

macro_rules! vector {
    ($ctx:expr, $rng:expr, $kind:expr, $t:ty, $v:expr, $eq:expr) => {{
        let v: Vec<$t> = $v;
        let by_item = $rng.chance(1, 2);
        run(
            $ctx, $rng, $kind,
            &|| format!("{v:?}"),
            &|out| {
                if by_item {
                    let refs: Vec<&$t> = v.iter().collect();
                    refs.serialize(&mut |b| out.push(b));
                } else {
                    (&v).serialize(&mut |b| out.push(b));
                }
            },
            &|i| rest_of(i, <Vec<$t> as Deserializable>::deserialize(i)),
            &|d: &Vec<$t>| d.len() == v.len() && v.iter().zip(d).all(|(a, b)| $eq(a, b)),
        );
    }};
}

macro_rules! array {
    ($ctx:expr, $rng:expr, $t:ty, $n:expr, $gen:expr) => {{
        let mut v: [$t; $n] = [<$t>::default(); $n];
        for x in v.iter_mut() {
            *x = $gen;
        }
        scalar!($ctx, $rng, "array", [$t; $n], v, |a: &[$t; $n], b: &[$t; $n]| a == b);
    }};
}

macro_rules! idlist {
    ($ctx:expr, $rng:expr, $t:ty, $bits:expr) => {{
        #[allow(clippy::cast_possible_truncation)]
        let v: Vec<$t> = ids($rng, $bits).into_iter().map(|v| v as $t).collect();
        let mut sorted = v.clone();
        sorted.sort_unstable();
        run(
            $ctx, $rng, "id_list",
            &|| format!("{v:?}"),
            &|out| sequential_array::serialize(v.iter().copied(), &mut |b| out.push(b)),
            &|i| rest_of(i, sequential_array::deserialize::<$t>(i)),
            &|d: &Vec<$t>| *d == sorted,
        );
    }};
}

fn bits_eq(a: &f32, b: &f32) -> bool {
    a.to_bits() == b.to_bits()
}
fn eq<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}

fn len(rng: &mut Rng) -> usize {
    match rng.below(8) {
        _ if rng.chance(1, 1500) => long(rng),
        0 => 0,
        1 => 1,
        2 => rng.range(126, 130),
        _ => rng.below(12),
    }
}

#[allow(clippy::cast_possible_truncation)]
pub fn c02(ctx: &mut Ctx, seed: u64) {
    let mut rng = Rng::new(seed);
    let r = &mut rng;
    for _ in 0..60 {
        scalar!(ctx, r, "u64", u64, number(r, 64), eq);
        scalar!(ctx, r, "usize", usize, number(r, 64) as usize, eq);
        scalar!(ctx, r, "u32", u32, number(r, 32) as u32, eq);
        scalar!(ctx, r, "u8", u8, r.u64() as u8, eq);
        scalar!(ctx, r, "char", char, character(r), eq);
        scalar!(ctx, r, "bool", bool, r.chance(1, 2), eq);
        scalar!(ctx, r, "f32", f32, f32::from_bits(f32_bits(r)), bits_eq);
    }
    // A run of neighbouring numbers, so that whole encoding lengths are swept over time
    let base = number(r, 64);
    for i in 0..40u64 {
        scalar!(ctx, r, "u64", u64, base.wrapping_add(i), eq);
    }
    for _ in 0..6 {
        scalar!(ctx, r, "string", String, string(r), eq);
        {
            let v = string(r);
            run(
                ctx, r, "str",
                &|| format!("{v:?}"),
                &|out| v.as_str().serialize(&mut |b| out.push(b)),
                &|i| rest_of(i, <String as Deserializable>::deserialize(i)),
                &|d: &String| *d == v,
            );
        }
        vector!(ctx, r, "list_u32", u32, (0..len(r)).map(|_| number(r, 32) as u32).collect(), eq);
        vector!(ctx, r, "list_u8", u8, (0..len(r)).map(|_| r.u64() as u8).collect(), eq);
        vector!(ctx, r, "list_f32", f32, (0..len(r)).map(|_| f32::from_bits(f32_bits(r))).collect(), bits_eq);
        vector!(ctx, r, "list_char", char, (0..len(r)).map(|_| character(r)).collect(), eq);
        vector!(ctx, r, "list_bool", bool, (0..len(r)).map(|_| r.chance(1, 2)).collect(), eq);
        vector!(ctx, r, "list_string", String, (0..len(r).min(20)).map(|_| string(r)).collect(), eq);
        {
            let v: Vec<usize> = (0..len(r)).map(|_| number(r, 64) as usize).collect();
            run(
                ctx, r, "list_usize",
                &|| format!("{v:?}"),
                &|out| v.serialize(&mut |b| out.push(b)),
                &|i| rest_of(i, <Vec<usize> as Deserializable>::deserialize(i)),
                &|d: &Vec<usize>| *d == v,
            );
        }
        {
            let n = len(r);
            let v: AHashMap<String, u32> = (0..n.min(300)).map(|_| (string(r), number(r, 32) as u32)).collect();
            scalar!(ctx, r, "map_string_u32", AHashMap<String, u32>, v, eq);
            let v: AHashMap<char, u64> = (0..n).map(|_| (character(r), number(r, 64))).collect();
            scalar!(ctx, r, "map_char_u64", AHashMap<char, u64>, v, eq);
            let v: AHashMap<String, Vec<usize>> = (0..n.min(12)).map(|_| (string(r), (0..len(r)).map(|_| number(r, 64) as usize).collect())).collect();
            scalar!(ctx, r, "map_string_list", AHashMap<String, Vec<usize>>, v, eq);
            let v: AHashMap<[char; 3], u32> = (0..n).map(|_| ([character(r), character(r), character(r)], number(r, 32) as u32)).collect();
            scalar!(ctx, r, "map_array_u32", AHashMap<[char; 3], u32>, v, eq);
        }
        array!(ctx, r, char, 1, character(r));
        array!(ctx, r, char, 5, character(r));
        array!(ctx, r, char, 8, character(r));
        array!(ctx, r, u64, 3, number(r, 64));
        array!(ctx, r, u32, 130, number(r, 32) as u32);
        array!(ctx, r, bool, 2, r.chance(1, 2));
        array!(ctx, r, u64, 0, number(r, 64));
        array!(ctx, r, f32, 2, r.below(9) as f32);
        array!(ctx, r, usize, 128, number(r, 64) as usize);
        if r.chance(1, 8) {
            array!(ctx, r, u32, 255, number(r, 32) as u32);
            array!(ctx, r, char, 256, character(r));
            array!(ctx, r, u64, 300, number(r, 64));
            array!(ctx, r, u8, 2000, number(r, 8) as u8);
            array!(ctx, r, u8, 16_390, number(r, 8) as u8);
            array!(ctx, r, u8, 65_540, number(r, 8) as u8);
        }
        idlist!(ctx, r, u32, 32);
        idlist!(ctx, r, u64, 64);
        idlist!(ctx, r, usize, 64);
        idlist!(ctx, r, usize, 16);
        idlist!(ctx, r, u8, 8);
    }
}
