//! The interpreter of operations: one match arm per operation of the specification.
#![allow(deprecated)]
use bellframe::{
    block, call::Call,
    mask::Mask,
    method::{
        class::{Class, FullClass, HuntBellClass},
        generate_title, Method,
    },
    method_lib::QueryError,
    music::{Regex, RegexElem},
    place_not::{self, InvalidPnBlockError, PnBlockParseError},
    row::{same_stage_vec, InvalidRowError, MulIntoError, RowAccumulator},
    AnnotBlock, Bell, Block, IncompatibleStages, MethodLib, Parity, PlaceNot, PnBlock, Row, RowBuf,
    SameStageVec, Stage,
};
use serde_json::{json, Value};
use std::{
    collections::{HashMap, HashSet},
    convert::TryFrom,
    hash::{Hash, Hasher},
    ops::Bound,
};

type ABlock = AnnotBlock<i64>;
type Rep = block::RepeatIter<'static, i64>;

pub struct State {
    rows: Vec<RowBuf>,
    vecs: Vec<SameStageVec>,
    blks: Vec<ABlock>,
    reps: Vec<Option<Rep>>,
    accs: Vec<RowAccumulator>,
    masks: Vec<Mask>,
    meth: Option<Method>,
    lib: Option<&'static MethodLib>,
}

impl State {
    pub fn new() -> Self {
        State {
            rows: (0..3).map(|_| RowBuf::rounds(Stage::ONE)).collect(),
            vecs: (0..3).map(|_| SameStageVec::new(Stage::ONE)).collect(),
            blks: (0..3).map(|_| ABlock::empty(Stage::ONE)).collect(),
            reps: vec![None, None],
            accs: (0..2).map(|_| RowAccumulator::rounds(Stage::ONE)).collect(),
            masks: (0..2).map(|_| Mask::empty(Stage::ONE)).collect(),
            meth: None,
            lib: None,
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Reading arguments

const BIG: i64 = 2147483647; // stands for usize::MAX
fn us(v: &Value) -> usize {
    match v.as_i64().unwrap_or_else(|| panic!("VHARNESS number expected, got {}", v)) {
        BIG => usize::MAX,
        2147483646 => usize::MAX - 1,
        2147483645 => 1 << 63,
        2147483644 => usize::MAX / 2,
        2147483643 => usize::MAX / 3,
        2147483642 => 1 << 62,
        2147483641 => 1 << 61,
        2147483640 => (1 << 60) + 1,
        x if x >= 0 => x as usize,
        _ => panic!("VHARNESS negative number"),
    }
}
/// The inverse of `us`
fn unus(x: usize) -> i64 {
    const S: [(usize, i64); 8] = [
        (usize::MAX, BIG),
        (usize::MAX - 1, 2147483646),
        (1 << 63, 2147483645),
        (usize::MAX / 2, 2147483644),
        (usize::MAX / 3, 2147483643),
        (1 << 62, 2147483642),
        (1 << 61, 2147483641),
        ((1 << 60) + 1, 2147483640),
    ];
    for (a, b) in S {
        if a == x {
            return b;
        }
    }
    if x > 2147483000 {
        2147483001
    } else {
        x as i64
    }
}
fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("VHARNESS number expected, got {}", v))
}
fn st(v: &Value) -> Stage {
    Stage::try_from(us(v)).unwrap_or_else(|_| panic!("VHARNESS zero stage"))
}
fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("VHARNESS array expected, got {}", v))
}
fn uss(v: &Value) -> Vec<usize> {
    arr(v).iter().map(us).collect()
}
fn text(v: &Value) -> String {
    arr(v)
        .iter()
        .map(|c| {
            char::from_u32(int(c) as u32).unwrap_or_else(|| panic!("VHARNESS bad char {}", c))
        })
        .collect()
}
/// A text as code points, or anything else as bytes less 256
#[cfg(feature = "cc")]
fn bytes(v: &Value) -> Vec<u8> {
    if arr(v).iter().any(|c| int(c) < 0) {
        arr(v).iter().map(|c| (int(c) + 256) as u8).collect()
    } else {
        text(v).into_bytes()
    }
}
#[cfg(feature = "cc")]
fn jbytes(d: &[u8]) -> Value {
    match std::str::from_utf8(d) {
        Ok(s) => cps(s),
        Err(_) => Value::Array(d.iter().map(|b| json!(*b as i64 - 256)).collect()),
    }
}
#[cfg(feature = "cc")]
fn strng(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("VHARNESS string expected"))
}
fn how(ev: &Value) -> &str {
    ev["how"].as_str().unwrap_or_else(|| panic!("VHARNESS how missing"))
}
fn bells(v: &Value) -> Vec<Bell> {
    uss(v).into_iter().map(Bell::from_index).collect()
}
/// A literal row (which the generators guarantee to be a permutation)
fn rowl(v: &Value) -> RowBuf {
    let b = bells(v);
    let mut seen = vec![false; b.len()];
    for x in &b {
        if x.index() >= b.len() || std::mem::replace(&mut seen[x.index()], true) {
            panic!("VHARNESS literal row is invalid");
        }
    }
    if b.is_empty() {
        panic!("VHARNESS empty literal row");
    }
    unsafe { RowBuf::from_vec_unchecked(b) }
}
fn rowsl(v: &Value) -> Vec<RowBuf> {
    arr(v).iter().map(rowl).collect()
}
fn range(v: &Value) -> (Bound<usize>, Bound<usize>) {
    let a = arr(v);
    let (lo, hi) = (us(&a[1]), us(&a[2]));
    match a[0].as_str().unwrap() {
        "full" => (Bound::Unbounded, Bound::Unbounded),
        "from" => (Bound::Included(lo), Bound::Unbounded),
        "to" => (Bound::Unbounded, Bound::Excluded(hi)),
        "toi" => (Bound::Unbounded, Bound::Included(hi)),
        "r" => (Bound::Included(lo), Bound::Excluded(hi)),
        "ri" => (Bound::Included(lo), Bound::Included(hi)),
        "x" => (Bound::Excluded(lo), Bound::Excluded(hi)),
        "xi" => (Bound::Excluded(lo), Bound::Included(hi)),
        "xf" => (Bound::Excluded(lo), Bound::Unbounded),
        k => panic!("VHARNESS range kind {}", k),
    }
}
fn pnl(v: &Value) -> PlaceNot {
    let n = st(&v["n"]);
    let places = uss(&v["pl"]);
    if places.is_empty() {
        return PlaceNot::cross(n).unwrap_or_else(|| panic!("VHARNESS odd cross"));
    }
    unsafe { PlaceNot::from_sorted_slice(&places, n) }
        .unwrap_or_else(|e| panic!("literal place notation {:?} rejected: {:?}", v, e))
}
fn pnbl(v: &Value) -> PnBlock {
    PnBlock::from_vec(arr(v).iter().map(pnl).collect()).unwrap()
}
fn svec(n: Stage, rows: &[RowBuf]) -> SameStageVec {
    let all = rows.iter().flat_map(|r| r.slice().to_vec()).collect();
    unsafe { SameStageVec::from_bell_vec_unchecked(all, n) }
}
fn maskl(v: &Value) -> Mask {
    let a = arr(v);
    if a.is_empty() {
        return Mask::parse("");
    }
    let mut m = Mask::empty(Stage::new(a.len()));
    for (i, b) in a.iter().enumerate() {
        if int(b) >= 0 {
            unsafe { m.set_bell_unchecked(Bell::from_index(us(b)), i) };
        }
    }
    m
}
fn elem(v: &Value) -> RegexElem {
    match int(v) {
        -1 => RegexElem::Any,
        -2 => RegexElem::Glob,
        _ => RegexElem::Bell(Bell::from_index(us(v))),
    }
}
fn class_of(id: i64) -> Class {
    match id {
        0 => Class::Principle,
        1 => Class::Place,
        2 => Class::Bob,
        3 => Class::TrebleBob,
        4 => Class::Delight,
        5 => Class::Surprise,
        6 => Class::TreblePlace,
        7 => Class::Alliance,
        8 => Class::Hybrid,
        _ => panic!("VHARNESS class id"),
    }
}
fn class_id(c: Class) -> i64 {
    (0..9).find(|i| class_of(*i) == c).unwrap()
}
fn full_class(v: &Value) -> FullClass {
    FullClass::new(
        v["j"].as_bool().unwrap(),
        v["l"].as_bool().unwrap(),
        v["d"].as_bool().unwrap(),
        class_of(int(&v["c"])),
    )
}

// ---------------------------------------------------------------------------------------------
// Writing results

fn ok(v: Value) -> Value {
    json!({"t": "ok", "v": v})
}
fn err() -> Value {
    json!({"t": "err"})
}
fn none() -> Value {
    json!({"t": "none"})
}
fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
fn jrow(r: &Row) -> Value {
    Value::Array(r.slice().iter().map(|b| json!(unus(b.index()))).collect())
}
fn jrows<'a>(rs: impl IntoIterator<Item = &'a Row>) -> Value {
    Value::Array(rs.into_iter().map(jrow).collect())
}
fn jbufs(rs: &[RowBuf]) -> Value {
    Value::Array(rs.iter().map(|r| jrow(r)).collect())
}
fn jbells(bs: impl Iterator<Item = Bell>) -> Value {
    Value::Array(bs.map(|b| json!(unus(b.index()))).collect())
}
fn jus(v: impl IntoIterator<Item = usize>) -> Value {
    Value::Array(v.into_iter().map(|x| json!(unus(x))).collect())
}
fn jopt(v: Option<usize>) -> Value {
    // absent is -1
    json!(v.map_or(-1, unus))
}
fn jrow_res(r: Result<RowBuf, InvalidRowError>) -> Value {
    match r {
        Ok(r) => ok(jrow(&r)),
        Err(e) => row_err(&e),
    }
}
fn row_err(e: &InvalidRowError) -> Value {
    let (k, b, s) = match e {
        InvalidRowError::NoBells => ("none", 0, 0),
        InvalidRowError::DuplicateBell(b) => ("dup", unus(b.index()), 0),
        InvalidRowError::BellOutOfStage(b, s) => ("out", unus(b.index()), unus(s.num_bells())),
        InvalidRowError::MissingBell(b) => ("miss", unus(b.index()), 0),
    };
    json!({"t": "err", "k": k, "b": b, "s": s})
}
fn jvec(v: &SameStageVec) -> Value {
    json!({"n": v.stage().num_bells(), "rows": jrows(v.iter())})
}
fn jblk(b: &ABlock) -> Value {
    json!({"n": b.stage().num_bells(), "rows": jrows(b.all_rows()),
           "an": b.annots().copied().collect::<Vec<_>>()})
}
fn stage_res(r: Result<(), IncompatibleStages>) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(_) => "err",
    }
}
fn pn_err(e: &place_not::ParseError) -> Value {
    use place_not::ParseError::*;
    match e {
        PlaceOutOfStage { place, stage } => {
            json!({"k": "out", "p": unus(*place), "q": unus(stage.num_bells())})
        }
        AmbiguousPlacesBetween { p, q } => json!({"k": "amb", "p": unus(*p), "q": unus(*q)}),
        DuplicatePlace(p) => json!({"k": "dup", "p": unus(*p), "q": 0}),
        OddStageCross(s) => json!({"k": "cross", "p": 0, "q": unus(s.num_bells())}),
        NoPlacesGiven => json!({"k": "none", "p": 0, "q": 0}),
    }
}
fn pnb_err(e: &PnBlockParseError) -> Value {
    match e {
        PnBlockParseError::PlusNotAtBlockStart(i) => {
            json!({"t": "err", "k": "plus", "lo": unus(*i), "hi": 0, "e": {"k": "", "p": 0, "q": 0}})
        }
        PnBlockParseError::PnError(r, e) => {
            json!({"t": "err", "k": "pn", "lo": unus(r.start), "hi": unus(r.end), "e": pn_err(e)})
        }
        PnBlockParseError::EmptyBlock => {
            json!({"t": "err", "k": "empty", "lo": 0, "hi": 0, "e": {"k": "", "p": 0, "q": 0}})
        }
    }
}
/// The places made, as reported by `contains`
fn places(p: &PlaceNot) -> Value {
    jus((0..p.stage().num_bells() + 3).filter(|i| p.contains(*i)))
}
fn pn_info(p: &PlaceNot) -> Value {
    json!({"n": p.stage().num_bells(), "pl": places(p), "cross": p.is_cross(),
           "int": p.has_internal_places(), "str": cps(&p.to_string())})
}
fn jmask(m: &Mask) -> Value {
    // Masks have no getter for their content: it is read through the regex made from them
    let r = Regex::from(m.clone());
    // (normalisation doesn't change regexes without globs)
    jelems(&r)
}
fn jelems(r: &Regex) -> Value {
    Value::Array(
        r.elems()
            .iter()
            .map(|e| match e {
                RegexElem::Any => json!(-1),
                RegexElem::Glob => json!(-2),
                RegexElem::Bell(b) => json!(unus(b.index())),
            })
            .collect(),
    )
}
fn jlabel(l: Option<&str>) -> Value {
    match l {
        None => none(),
        Some(s) => json!({"t": "some", "v": cps(s)}),
    }
}
fn labell(v: &Value) -> Option<String> {
    match v["t"].as_str().unwrap() {
        "none" => None,
        _ => Some(text(&v["v"])),
    }
}
fn jclass(c: FullClass) -> Value {
    json!({"j": c.is_jump(), "l": c.is_little(), "d": c.is_differential(), "c": class_id(c.class())})
}
fn meth_info(m: &Method) -> Value {
    let l = m.first_lead();
    json!({"title": cps(m.title()), "name": cps(m.name()), "n": m.stage().num_bells(),
           "len": m.lead_len(), "head": jrow(m.lead_head()), "rows": jrows(l.all_rows()),
           "labels": l.annots().map(|a| jlabel(a.as_deref())).collect::<Vec<_>>()})
}
fn limbs(mut x: usize) -> Value {
    // base 10^4, little endian, no leading zeroes (0 is the empty list)
    let mut v = Vec::new();
    while x > 0 {
        v.push(x % 10000);
        x /= 10000;
    }
    json!(v)
}
fn std_hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn jpar(p: Parity) -> i64 {
    match p {
        Parity::Even => 0,
        Parity::Odd => 1,
    }
}
// ---------------------------------------------------------------------------------------------
// Values of the same content, made in different ways

fn same<T: Eq + Hash + Clone>(a: &T, b: &T, ord: Value) -> Value {
    let c = a.clone();
    let mut d = b.clone();
    d.clone_from(a);
    let set: HashSet<T> = std::iter::once(a.clone()).collect();
    #[allow(clippy::nonminimal_bool, clippy::eq_op)]
    ok(json!({"eq": [a == b, !(a != b), b == a, !(b != a), set.contains(b)],
        "self": [a == a, b == b, c == *a, *a == c, d == *a, std_hash(&c) == std_hash(a), std_hash(&d) == std_hash(a),
                 set.contains(&d)],
        "hash": std_hash(a) == std_hash(b), "ord": ord}))
}
fn same_ord<T: Eq + Hash + Clone + Ord>(a: &T, b: &T) -> Value {
    let o = |x: std::cmp::Ordering| x as i64;
    let ord = json!([o(a.cmp(b)), o(a.partial_cmp(b).unwrap()), -o(b.cmp(a)),
        if a < b { -1 } else if a > b { 1 } else { 0 },
        if a >= b { if a <= b { 0 } else { 1 } } else { -1 }]);
    same(a, b, ord)
}
fn row_by(w: i64, v: &Value) -> RowBuf {
    let r = rowl(v);
    match w {
        1 if r.stage().num_bells() <= 33 => RowBuf::parse(&r.to_string()).unwrap(),
        2 => &RowBuf::rounds(r.stage()) * &r,
        3 => !&!&r,
        4 => {
            let mut x = RowBuf::backrounds(Stage::new(r.stage().num_bells() + 3));
            x.overwrite_from(&r);
            x
        }
        5 => RowBuf::from_vec(r.into_bell_vec()).unwrap(),
        _ => r,
    }
}
fn pn_by(w: i64, v: &Value) -> PlaceNot {
    let p = pnl(v);
    match w {
        1 if p.stage().num_bells() <= 33 => PlaceNot::parse(&p.to_string(), p.stage()).unwrap(),
        2 => PlaceNot::pn_between(&RowBuf::rounds(p.stage()), &p.transposition()).unwrap(),
        _ => p,
    }
}
fn pnb_by(w: i64, v: &Value) -> PnBlock {
    let pns: Vec<PlaceNot> = arr(v).iter().map(pnl).collect();
    match w {
        1 if pns[0].stage().num_bells() <= 33 => {
            let t: Vec<String> = pns.iter().map(|p| p.to_string()).collect();
            PnBlock::parse(&t.join("."), pns[0].stage()).unwrap()
        }
        2 => PnBlock::from_iter(pns).unwrap(),
        3 => {
            let b = PnBlock::from_vec(pns).unwrap();
            PnBlock::from_iter(b.place_nots().cloned()).unwrap()
        }
        _ => PnBlock::from_vec(pns).unwrap(),
    }
}
fn mask_by(w: i64, v: &Value) -> Mask {
    let a = arr(v);
    let full = a.iter().all(|b| int(b) >= 0);
    match w {
        1 if a.iter().all(|b| int(b) < 33) => Mask::parse(&maskl(v).to_string()),
        2 => {
            let mut m = Mask::empty(Stage::new(a.len()));
            for (i, b) in a.iter().enumerate().rev() {
                if int(b) >= 0 {
                    m.set_bell(Bell::from_index(us(b)), i).unwrap();
                }
            }
            m
        }
        3 => RowBuf::rounds(Stage::new(a.len())).as_row() * &maskl(v),
        4 => &maskl(v) * RowBuf::rounds(Stage::new(a.len())).as_row(),
        5 if full => Mask::full_row(&rowl(v)),
        _ => maskl(v),
    }
}
fn regex_by(w: i64, v: &Value) -> Regex {
    let e: Vec<RegexElem> = arr(v).iter().map(elem).collect();
    let named: Vec<usize> = e.iter().filter_map(|e| e.bell()).map(|b| b.index()).collect();
    let distinct = named.iter().collect::<HashSet<_>>().len() == named.len();
    match w {
        1 if named.iter().all(|b| *b < 33) => {
            let t: String = e.iter().map(|e| e.to_string()).collect();
            Regex::parse(&t)
        }
        2 => Regex::from_vec(e),
        3 if distinct && !e.is_empty() && !e.contains(&RegexElem::Glob) => Regex::from(maskl(v)),
        4 => {
            let mut r = Regex::from_vec(e);
            r.normalise();
            r
        }
        5 => Regex::from_elems(Regex::from_elems(e).elems().iter().copied()),
        _ => Regex::from_elems(e),
    }
}
fn vec_by(w: i64, v: &Value) -> SameStageVec {
    let n = st(&v["n"]);
    let rows = rowsl(&v["rows"]);
    let mut x = SameStageVec::new(n);
    match w {
        1 => rows.iter().for_each(|r| x.push(r).unwrap()),
        2 => {
            x = SameStageVec::with_capacity(n, 4 * rows.len() + 5);
            x.extend(&rows).unwrap();
            x.push(&RowBuf::backrounds(n)).unwrap();
            x.pop().unwrap();
        }
        3 => {
            x.push(&RowBuf::rounds(n)).unwrap();
            x.extend_from_buf(&svec(n, &rows)).unwrap();
            x = x.split(1).unwrap().1;
        }
        4 => {
            x = svec(n, &rows);
            x.pre_multiply(&RowBuf::backrounds(n)).unwrap();
            x = x.pre_multiplied(&RowBuf::backrounds(n)).unwrap();
        }
        _ => x = svec(n, &rows),
    }
    x
}
fn blk_by(w: i64, v: &Value) -> ABlock {
    let an: Vec<i64> = arr(&v["an"]).iter().map(int).collect();
    let rows = vec_by(w % 4, v);
    match w {
        1 => ABlock::with_default_annots(rows).map_annots_with_index(|i, _| an[i]),
        2 => ABlock::with_annots_from_indices(rows, |i| an[i] - 1).unwrap().map_annots(|a| a + 1),
        3 => {
            let b = ABlock::with_annots_from_indices(rows, |i| an[i]).unwrap();
            let mid = b.len() / 2;
            let (mut x, y) = b.clone().split(mid).unwrap();
            // The second part goes on from where the first ended
            let back = RowBuf::rounds(y.stage());
            let mut y = y;
            y.pre_multiply(&back).unwrap();
            let first = !x.leftover_row();
            y.pre_multiply(&first).unwrap();
            x.extend(&y).unwrap();
            x
        }
        4 => {
            let mut b = ABlock::with_default_annots(rows);
            for (i, a) in an.iter().enumerate() {
                *b.get_annot_mut(i).unwrap() = *a;
            }
            b
        }
        _ => ABlock::with_annots_from_indices(rows, |i| an[i]).unwrap(),
    }
}

fn call_info(c: &Call) -> Value {
    json!({"not": c.notation() as u32, "loc": cps(c.location()), "cov": unus(c.cover_len()),
           "len": c.len(), "n": c.stage().num_bells(), "eff": c.effective_stage().num_bells(),
           "tr": jrow(c.transposition()), "rows": jrows(c.block().all_rows())})
}
fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}
fn mparse_err(e: &same_stage_vec::ParseError) -> Value {
    use same_stage_vec::ParseError::*;
    let z = json!({"t": "err", "k": "", "b": 0, "s": 0});
    match e {
        ZeroStage => json!({"t": "err", "k": "zero", "line": 0, "e": z, "p": 0, "q": 0}),
        InvalidRow { line_num, err } => {
            json!({"t": "err", "k": "row", "line": unus(*line_num), "e": row_err(err), "p": 0, "q": 0})
        }
        IncompatibleStages { line_num, first_stage, different_stage } => {
            json!({"t": "err", "k": "stage", "line": unus(*line_num), "e": z,
                   "p": unus(first_stage.num_bells()), "q": unus(different_stage.num_bells())})
        }
    }
}
fn jsug(v: &[(&str, usize)]) -> Value {
    Value::Array(v.iter().map(|(s, d)| json!({"s": cps(s), "d": unus(*d)})).collect())
}
/// A JSON library, flattened to one record per method
struct RowIterOps;
impl RowIterOps {
    fn run(mut it: same_stage_vec::Iter, script: &Value) -> Value {
        let one = |r: Option<&Row>| r.map_or(none(), |r| json!({"t": "row", "v": jrow(r)}));
        let num = |n: usize| json!({"t": "num", "v": unus(n)});
        let mut out = Vec::new();
        for s in arr(script) {
            out.push(match int(s) {
                0 => one(it.next()),
                1 => one(it.next_back()),
                2 => num(it.len()),
                3 => {
                    let (lo, hi) = it.size_hint();
                    json!({"t": "hint", "lo": unus(lo), "hi": jopt(hi)})
                }
                4 => json!({"t": "rows", "v": jrows(it.clone())}),
                5 => json!({"t": "rows", "v": jrows(it.clone().rev())}),
                6 => num(it.clone().count()),
                7 => one(it.clone().last()),
                8 => num(it.clone().peekable().len()),
                9 => {
                    let mut p = it.clone().skip(1).step_by(2);
                    let mut v = Vec::new();
                    while let Some(r) = p.next() {
                        v.push(jrow(r));
                    }
                    json!({"t": "rows", "v": v})
                }
                k if k >= 100 => one(it.nth_back((k - 100) as usize)),
                k if k >= 10 => one(it.nth((k - 10) as usize)),
                k => panic!("VHARNESS iter op {}", k),
            });
        }
        Value::Array(out)
    }
}

// ---------------------------------------------------------------------------------------------

/// The message of an error
fn message(ev: &Value) -> String {
    let b = || Bell::from_index(us(&ev["x"]));
    let (x, y) = (us(&ev["x"]), us(&ev["y"]));
    let (n, m) = (st(&ev["n"]), st(&ev["m"]));
    let inc = || {
        IncompatibleStages::test_err(n, m).err().unwrap_or_else(|| panic!("VHARNESS equal stages"))
    };
    fn say<E: std::error::Error>(e: E) -> String {
        e.to_string()
    }
    let row = |h: &str| match h {
        "dup" => InvalidRowError::DuplicateBell(b()),
        "out" => InvalidRowError::BellOutOfStage(b(), n),
        "miss" => InvalidRowError::MissingBell(b()),
        "none" => InvalidRowError::NoBells,
        h => panic!("VHARNESS how {}", h),
    };
    let pn = |h: &str| match h {
        "out" => place_not::ParseError::PlaceOutOfStage { place: x, stage: n },
        "amb" => place_not::ParseError::AmbiguousPlacesBetween { p: x, q: y },
        "dup" => place_not::ParseError::DuplicatePlace(x),
        "cross" => place_not::ParseError::OddStageCross(n),
        "none" => place_not::ParseError::NoPlacesGiven,
        h => panic!("VHARNESS how {}", h),
    };
    let of = |h: &str| match h {
        "zero" => same_stage_vec::ParseError::ZeroStage,
        "st" => same_stage_vec::ParseError::IncompatibleStages {
            line_num: y,
            first_stage: n,
            different_stage: m,
        },
        h => same_stage_vec::ParseError::InvalidRow { line_num: y, err: row(h) },
    };
    let (what, h) = how(ev).split_once('_').unwrap_or_else(|| panic!("VHARNESS how {}", how(ev)));
    match what {
        "row" => say(row(h)),
        "stage" => match h {
            "zero" => Stage::try_from(0).unwrap_err().to_string(),
            _ => say(inc()),
        },
        "mul" => say(match h {
            "rhs" => MulIntoError::RhsStage(inc()),
            _ => MulIntoError::IntoStage(inc()),
        }),
        "pn" => pn(h).to_string(),
        "pnb" => say(match h {
            "empty" => PnBlockParseError::EmptyBlock,
            "plus" => PnBlockParseError::PlusNotAtBlockStart(us(&ev["at"])),
            h => PnBlockParseError::PnError(us(&ev["at"])..us(&ev["at"]) + 1, pn(h)),
        }),
        "pnv" => say(match h {
            "empty" => InvalidPnBlockError::EmptyBlock,
            _ => InvalidPnBlockError::IncompatibleStages(y, inc()),
        }),
        "vec" => say(of(h)),
        "blk" => say(match h {
            "empty" => block::ParseError::ZeroLengthBlock,
            h => block::ParseError::Other(of(h)),
        }),
        h => panic!("VHARNESS how {}", h),
    }
}

pub fn exec(s: &mut State, ev: &Value) -> Value {
    let i = || us(&ev["i"]);
    let j = || us(&ev["j"]);
    match ev["op"].as_str().unwrap() {
        // ---- constructing rows ----
        "row_parse" => jrow_res(RowBuf::parse(&text(&ev["s"]))),
        "row_fromstr" => jrow_res(text(&ev["s"]).parse::<RowBuf>()),
        "row_parse_st" => jrow_res(RowBuf::parse_with_stage(&text(&ev["s"]), st(&ev["n"]))),
        "row_vec" => jrow_res(RowBuf::from_vec(bells(&ev["v"]))),
        "row_iter" => jrow_res(RowBuf::from_bell_iter(bells(&ev["v"]).into_iter())),
        // (the bells are known to be a row)
        "row_raw" => {
            let mut v = bells(&ev["a"]);
            rowl(&ev["a"]);
            let r = match how(ev) {
                "vec" => unsafe { RowBuf::from_vec_unchecked(v) },
                "iter" => unsafe { RowBuf::from_bell_iter_unchecked(v.into_iter()) },
                "slice" => unsafe { Row::from_slice_unchecked(&v) }.to_owned(),
                "mut" => {
                    let r = unsafe { Row::from_mut_slice_unchecked(&mut v) };
                    r.swap(0, us(&ev["x"]));
                    r.swap(0, us(&ev["x"]));
                    r.to_owned()
                }
                h => panic!("VHARNESS how {}", h),
            };
            ok(jrow(&r))
        }
        "row_vec_st" => jrow_res(RowBuf::from_vec_with_stage(bells(&ev["v"]), st(&ev["n"]))),
        "row_std" => {
            let n = st(&ev["n"]);
            ok(jrow(&match how(ev) {
                "rounds" => RowBuf::rounds(n),
                "backrounds" => RowBuf::backrounds(n),
                "queens" => RowBuf::queens(n),
                h => panic!("VHARNESS how {}", h),
            }))
        }
        // ---- row registers ----
        "gset" => {
            s.rows[i()] = rowl(&ev["a"]);
            ok(jrow(&s.rows[i()]))
        }
        "gmul" => {
            let a = s.rows[i()].clone();
            let b = s.rows[j()].clone();
            let k = us(&ev["k"]);
            let e = match how(ev) {
                "result" => match a.mul_result(&b) {
                    Ok(r) => {
                        s.rows[k] = r;
                        ""
                    }
                    Err(_) => "rhs",
                },
                "into" => match a.mul_into(&b, &mut s.rows[k]) {
                    Ok(()) => "",
                    Err(_) => "rhs",
                },
                "into_row" => match a.mul_into_row(&b, &mut s.rows[k]) {
                    Ok(()) => "",
                    Err(MulIntoError::RhsStage(_)) => "rhs",
                    Err(MulIntoError::IntoStage(_)) => "into",
                },
                "ax" => match Row::solve_ax_equals_b(&a, &b) {
                    Ok(r) => {
                        s.rows[k] = r;
                        ""
                    }
                    Err(_) => "rhs",
                },
                "xa" => match Row::solve_xa_equals_b(&a, &b) {
                    Ok(r) => {
                        s.rows[k] = r;
                        ""
                    }
                    Err(_) => "rhs",
                },
                h => panic!("VHARNESS how {}", h),
            };
            json!({"t": if e.is_empty() { "ok" } else { "err" }, "k": e, "post": jrow(&s.rows[k])})
        }
        "ginv" => {
            let a = s.rows[i()].clone();
            let k = us(&ev["k"]);
            let t = match how(ev) {
                "inv" => {
                    s.rows[k] = a.inv();
                    "ok"
                }
                "into" => stage_res(a.inv_into(&mut s.rows[k])),
                "into_buf" => {
                    a.inv_into_buf(&mut s.rows[k]);
                    "ok"
                }
                h => panic!("VHARNESS how {}", h),
            };
            json!({"t": t, "post": jrow(&s.rows[k])})
        }
        "gcopy" => {
            let a = s.rows[i()].clone();
            let k = us(&ev["k"]);
            match how(ev) {
                "copy_into" => a.copy_into(&mut s.rows[k]),
                "overwrite" => s.rows[k].overwrite_from(&a),
                "clone" => s.rows[k] = a.clone(),
                "clone_from" => s.rows[k].clone_from(&a),
                "to_owned" => s.rows[k] = a.as_row().to_owned(),
                h => panic!("VHARNESS how {}", h),
            }
            json!({"t": "ok", "post": jrow(&s.rows[k])})
        }
        "gswap" => {
            s.rows[i()].swap(us(&ev["x"]), us(&ev["y"]));
            json!({"t": "ok", "post": jrow(&s.rows[i()])})
        }
        "gext" => {
            s.rows[i()].extend_to_stage(st(&ev["n"]));
            json!({"t": "ok", "post": jrow(&s.rows[i()])})
        }
        "gperm" => {
            let t = stage_res(pnl(&ev["pn"]).permute(&mut s.rows[i()]));
            json!({"t": t, "post": jrow(&s.rows[i()])})
        }
        // ---- row algebra on literals ----
        "mul" => {
            let (a, b) = (rowl(&ev["a"]), rowl(&ev["b"]));
            let mut o = rowl(&ev["o"]);
            let mut k = "";
            let v = match how(ev) {
                "result" => a.mul_result(&b).ok(),
                "rr" => Some(a.as_row() * b.as_row()),
                "rb" => Some(a.as_row() * &b),
                "br" => Some(&a * b.as_row()),
                "bb" => Some(&a * &b),
                "unchecked" => {
                    assert_eq!(a.stage(), b.stage());
                    Some(unsafe { a.mul_unchecked(&b) })
                }
                "into" => a.mul_into(&b, &mut o).ok().map(|()| o.clone()),
                "into_unchecked" => {
                    assert_eq!(a.stage(), b.stage());
                    unsafe { a.mul_into_unchecked(&b, &mut o) };
                    Some(o.clone())
                }
                "into_row" => match a.mul_into_row(&b, &mut o) {
                    Ok(()) => Some(o.clone()),
                    Err(e) => {
                        k = match e {
                            MulIntoError::RhsStage(_) => "rhs",
                            MulIntoError::IntoStage(_) => "into",
                        };
                        None
                    }
                },
                "into_row_unchecked" => {
                    assert!(a.stage() == b.stage() && a.stage() == o.stage());
                    unsafe { a.mul_into_row_unchecked(&b, &mut o) };
                    Some(o.clone())
                }
                h => panic!("VHARNESS how {}", h),
            };
            match v {
                Some(v) => json!({"t": "ok", "v": jrow(&v), "o": jrow(&o)}),
                None => json!({"t": "err", "k": k, "o": jrow(&o)}),
            }
        }
        "inv" => {
            let a = rowl(&ev["a"]);
            let mut o = rowl(&ev["o"]);
            let v = match how(ev) {
                "inv" => Some(a.inv()),
                "not_r" => Some(!a.as_row()),
                "not_b" => Some(!&a),
                "into" => a.inv_into(&mut o).ok().map(|()| o.clone()),
                "into_buf" => {
                    a.inv_into_buf(&mut o);
                    Some(o.clone())
                }
                h => panic!("VHARNESS how {}", h),
            };
            match v {
                Some(v) => json!({"t": "ok", "v": jrow(&v), "o": jrow(&o)}),
                None => json!({"t": "err", "k": "", "o": jrow(&o)}),
            }
        }
        "pow" => {
            let a = rowl(&ev["a"]);
            let e = int(&ev["e"]);
            ok(jrow(&match how(ev) {
                "u" => a.pow_u(e as usize),
                "i" => a.pow_i(e as isize),
                h => panic!("VHARNESS how {}", h),
            }))
        }
        "solve" => {
            let (a, b) = (rowl(&ev["a"]), rowl(&ev["b"]));
            let v = match how(ev) {
                "ax" => Row::solve_ax_equals_b(&a, &b).ok(),
                "xa" => Row::solve_xa_equals_b(&a, &b).ok(),
                "tt" => a.tranposition_to(&b).ok(),
                "ttu" => {
                    assert_eq!(a.stage(), b.stage());
                    Some(unsafe { a.tranposition_to_unchecked(&b) })
                }
                h => panic!("VHARNESS how {}", h),
            };
            v.map_or(err(), |v| ok(jrow(&v)))
        }
        // ---- families of rows ----
        "closure" => {
            let a = rowl(&ev["a"]);
            ok(jbufs(&match how(ev) {
                "self" => a.closure(),
                "rounds" => a.closure_from_rounds(),
                h => panic!("VHARNESS how {}", h),
            }))
        }
        "cart" => {
            let sets: Vec<Vec<RowBuf>> = arr(&ev["sets"]).iter().map(rowsl).collect();
            match Row::multi_cartesian_product(sets) {
                Ok(v) => ok(jbufs(&v)),
                Err(_) => err(),
            }
        }
        "lgroup" => {
            let rows = rowsl(&ev["rows"]);
            match Row::least_group_containing(rows.iter().map(|r| r.as_row())) {
                Ok(set) => {
                    let mut v: Vec<Vec<usize>> = set
                        .iter()
                        .map(|r| r.slice().iter().map(|b| b.index()).collect())
                        .collect();
                    v.sort();
                    ok(json!(v))
                }
                Err(_) => err(),
            }
        }
        "isgroup" => {
            let rows = rowsl(&ev["rows"]);
            match Row::is_group(rows.iter().map(|r| r.as_row())) {
                Ok(b) => ok(json!(b)),
                Err(_) => err(),
            }
        }
        // ---- inspecting rows ----
        "inspect" => {
            let mut a = rowl(&ev["a"]);
            let n = a.slice().len();
            let v = json!({
                "stage": a.stage().num_bells(), "rounds": a.is_rounds(), "back": a.is_backrounds(),
                "eff": a.effective_stage().num_bells(), "fixed": jbells(a.fixed_bells()),
                "slice": jbells(a.slice().iter().copied()), "iter": jbells(a.bell_iter()),
                "riter": jbells(a.bell_iter().rev()), "into": jbells((&a).into_iter()),
                "intor": jbells(a.as_row().into_iter()),
                "ilen": a.bell_iter().len(),
                "index": jbells((0..n).map(|p| a[p])),
                "unch": jbells((0..n).map(|p| unsafe { a.get_bell_unchecked(p) })),
                "places": (0..n + 2).map(|b| jopt(a.place_of(Bell::from_index(b)))).collect::<Vec<_>>(),
                "far": jopt(a.place_of(Bell::from_index(usize::MAX))),
                "owned": jrow(&a.as_row().to_owned()), "rc": jrow(&a.to_rc()), "arc": jrow(&a.to_arc()),
                "vec": jbells(a.clone().into_bell_vec().into_iter()),
                "asref": jrow(a.as_ref()), "amut": jrow(a.clone().as_mut_row()),
                "borrow": jrow(std::borrow::Borrow::<Row>::borrow(&a)),
                "par": jpar(a.parity()),
            });
            ok(v)
        }
        "row_index" => ok(json!(unus(rowl(&ev["a"])[us(&ev["p"])].index()))),
        "parity2" => {
            let (mut a, mut b) = (rowl(&ev["a"]), rowl(&ev["b"]));
            let mut ab = &a * &b;
            let (pa, pb, pab) = (a.parity(), b.parity(), ab.parity());
            ok(json!({"a": jpar(pa), "b": jpar(pb), "ab": jpar(pab), "prod": jpar(pa * pb)}))
        }
        "parity_num" => {
            let p = Parity::from_number(us(&ev["x"]));
            let q = Parity::from_is_odd(us(&ev["x"]) % 2 == 1);
            ok(json!({"p": jpar(p), "q": jpar(q), "z": p.zero_or_one(), "cast": p as u8, "c": p.plus_or_minus() as u32}))
        }
        "swap" => {
            let mut a = rowl(&ev["a"]);
            a.swap(us(&ev["x"]), us(&ev["y"]));
            let v = jrow(&a);
            ok(json!({"v": v, "par": jpar(a.parity())}))
        }
        // ---- comparing rows ----
        "rowcmp" => {
            let (a, b) = (rowl(&ev["a"]), rowl(&ev["b"]));
            let (ra, rb) = (a.as_row(), b.as_row());
            let o = |x: std::cmp::Ordering| x as i64;
            let mut m = HashMap::new();
            m.insert(a.clone(), 7);
            let mut hs: HashSet<RowBuf> = HashSet::new();
            hs.insert(a.clone());
            let hs2: HashSet<&Row> = std::iter::once(ra).collect();
            let bt: std::collections::BTreeSet<RowBuf> = std::iter::once(a.clone()).collect();
            ok(json!({"eq": [ra == rb, a == b, a == *rb, *ra == b, !(ra != rb), !(a != b)],
                "ord": [o(ra.cmp(rb)), o(a.cmp(&b)), o(ra.partial_cmp(rb).unwrap()), o(a.partial_cmp(&b).unwrap())],
                "look": [m.get(rb).is_some(), m.contains_key(&b), hs.contains(rb), hs2.contains(rb), bt.contains(rb)],
                "hash": [std_hash(ra) == std_hash(rb), std_hash(&a) == std_hash(&b),
                         std_hash(ra) == std_hash(&b), std_hash(&a) == std_hash(rb)],
                "self": [std_hash(&a) == std_hash(ra), ra.fast_hash() == a.clone().fast_hash()],
                "fast": ra.fast_hash() == rb.fast_hash()}))
        }
        "fhash_all" => {
            // The number of different fast hashes of all the rows of a stage
            let n = us(&ev["n"]);
            let mut hashes = HashSet::new();
            let mut count = 0usize;
            for p in itertools::Itertools::permutations(0..n, n) {
                let r = unsafe {
                    RowBuf::from_vec_unchecked(p.into_iter().map(Bell::from_index).collect())
                };
                hashes.insert(r.fast_hash());
                count += 1;
            }
            ok(json!({"rows": count, "hashes": hashes.len()}))
        }
        "fhash_perm" => {
            // ... of a row with the bells in some of its places in every order
            let (a, at) = (rowl(&ev["a"]), ev["at"].as_array().unwrap().iter().map(us).collect::<Vec<_>>());
            let mut hashes = HashSet::new();
            let mut count = 0usize;
            let mut b: Vec<Bell> = a.bell_iter().collect();
            for p in itertools::Itertools::permutations(0..at.len(), at.len()) {
                for (i, j) in p.into_iter().enumerate() {
                    b[at[i]] = a[at[j]];
                }
                hashes.insert(unsafe { RowBuf::from_vec_unchecked(b.clone()) }.fast_hash());
                count += 1;
            }
            ok(json!({"rows": count, "hashes": hashes.len()}))
        }
        "fhash_many" => {
            // ... of many rows in no order at all
            let (n, m, mut x) = (us(&ev["n"]), us(&ev["m"]), int(&ev["x"]) as u64 * 2 + 1);
            let (mut rows, mut hashes) = (HashSet::new(), HashSet::new());
            let mut b: Vec<u8> = (0..n as u8).collect();
            for _ in 0..m {
                for i in (1..n).rev() {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    b.swap(i, (x >> 33) as usize % (i + 1));
                }
                let r = unsafe {
                    RowBuf::from_vec_unchecked(b.iter().map(|&i| Bell::from_index(i as usize)).collect())
                };
                hashes.insert(r.fast_hash());
                rows.insert(b.iter().fold(0u64, |a, &i| a << 4 | i as u64));
            }
            ok(json!({"rows": rows.len(), "hashes": hashes.len()}))
        }
        "fhash_set" => {
            let rows = rowsl(&ev["rows"]);
            ok(json!(rows.iter().map(|r| r.fast_hash()).collect::<HashSet<_>>().len()))
        }
        "fhash" => {
            let a = rowl(&ev["a"]);
            ok(json!(a.fast_hash() == a.fast_hash()))
        }
        // ---- names ----
        "bell_char" => {
            let c = char::from_u32(int(&ev["c"]) as u32).unwrap_or_else(|| panic!("VHARNESS char"));
            match Bell::from_name(c) {
                None => none(),
                Some(b) => ok(json!({"i": unus(b.index()), "c": b.to_char().map_or(0, |c| c as u32)})),
            }
        }
        "bell_chars" => {
            // All the characters in a range which are bell names
            let (lo, hi) = (int(&ev["lo"]) as u32, int(&ev["hi"]) as u32);
            ok(Value::Array(
                (lo..hi)
                    .filter_map(char::from_u32)
                    .filter_map(|c| Bell::from_name(c).map(|b| json!([c as u32, unus(b.index())])))
                    .collect(),
            ))
        }
        "bell_idx" => {
            let b = Bell::from_index(us(&ev["x"]));
            ok(json!({"i": unus(b.index()), "num": if b.index() == usize::MAX { -2 } else { unus(b.number()) },
                "c": b.to_char().map_or(0, |c| c as u32),
                "name": if b.index() > 1 << 30 { cps("") } else { cps(&b.name()) },
                "disp": if b.index() > 1 << 30 { cps("") } else { cps(&b.to_string()) },
                "eq": b == Bell::from_index(b.index())}))
        }
        "bell_cmp" => {
            let (a, b) = (Bell::from_index(us(&ev["x"])), Bell::from_index(us(&ev["y"])));
            ok(json!({"eq": a == b, "ord": a.cmp(&b) as i64, "pord": a.partial_cmp(&b).unwrap() as i64}))
        }
        "bell_num" => match Bell::from_number(us(&ev["x"])) {
            None => none(),
            Some(b) => ok(json!(unus(b.index()))),
        },
        "bell_arith" => {
            let mut b = Bell::from_index(us(&ev["x"]));
            let d = us(&ev["d"]);
            let r = match how(ev) {
                "add" => b + d,
                "sub" => b - d,
                "add_assign" => {
                    b += d;
                    b
                }
                "sub_assign" => {
                    b -= d;
                    b
                }
                h => panic!("VHARNESS how {}", h),
            };
            ok(json!(unus(r.index())))
        }
        "stage_num" => match Stage::try_from(us(&ev["x"])) {
            Err(_) => err(),
            Ok(n) => ok(json!({"n": unus(n.num_bells()), "u": unus(n.as_usize()), "even": n.is_even(),
                "name": jlabel(n.name()), "disp": cps(&n.to_string()), "dbg": cps(&format!("{:?}", n)),
                "tenor": unus(n.tenor().index()), "tenor2": unus(Bell::tenor(n).index()),
                "bells": if n.num_bells() <= 300 { jbells(n.bells()) } else { json!([]) },
                "new": Stage::new(n.num_bells()) == n})),
        },
        "stage_new" => ok(json!(unus(Stage::new(us(&ev["x"])).num_bells()))),
        "stage_const" => ok(jus(
            [
                Stage::ONE, Stage::TWO, Stage::SINGLES, Stage::MINIMUS, Stage::DOUBLES, Stage::MINOR,
                Stage::TRIPLES, Stage::MAJOR, Stage::CATERS, Stage::ROYAL, Stage::CINQUES,
                Stage::MAXIMUS, Stage::SEXTUPLES, Stage::FOURTEEN, Stage::SEPTUPLES, Stage::SIXTEEN,
            ]
            .iter()
            .map(|s| s.num_bells()),
        )),
        "stage_cmp" => {
            let (a, b) = (st(&ev["x"]), st(&ev["y"]));
            let mut o = None;
            let first = IncompatibleStages::test_err_opt(&mut o, a).is_ok();
            let set = o.map_or(0i64, |s| unus(s.num_bells()));
            let second = IncompatibleStages::test_err_opt(&mut o, b).is_ok();
            ok(json!({"eq": a == b, "ord": a.cmp(&b) as i64,
                "test": IncompatibleStages::test_err(a, b).is_ok(),
                "opt": [first, second], "set": [set, o.map_or(0i64, |s| unus(s.num_bells()))]}))
        }
        "stage_name" => match Stage::from_lower_case_name(&text(&ev["s"])) {
            None => none(),
            Some(n) => ok(json!(unus(n.num_bells()))),
        },
        "rowstr" => {
            let a = rowl(&ev["a"]);
            let t = a.to_string();
            ok(json!({"s": cps(&t), "r": cps(&a.as_row().to_string()), "back": jrow_res(RowBuf::parse(&t))}))
        }
        // ---- SameStageVec ----
        "vnew" => {
            s.vecs[i()] = match how(ev) {
                "new" => SameStageVec::new(st(&ev["n"])),
                "cap" => SameStageVec::with_capacity(st(&ev["n"]), us(&ev["c"])),
                "buf" => SameStageVec::from_row_buf(rowl(&ev["a"])),
                "lit" => svec(st(&ev["n"]), &rowsl(&ev["rows"])),
                h => panic!("VHARNESS how {}", h),
            };
            json!({"t": "ok", "post": jvec(&s.vecs[i()])})
        }
        "vpush" => {
            let t = stage_res(s.vecs[i()].push(&rowl(&ev["a"])));
            json!({"t": t, "post": jvec(&s.vecs[i()])})
        }
        "vpop" => {
            let r = s.vecs[i()].pop();
            match r {
                None => json!({"t": "none", "post": jvec(&s.vecs[i()])}),
                Some(r) => json!({"t": "some", "v": jrow(&r), "post": jvec(&s.vecs[i()])}),
            }
        }
        "vext" => {
            let t = match how(ev) {
                "rows" => stage_res(s.vecs[i()].extend(rowsl(&ev["rows"]))),
                "vec" => {
                    let o = s.vecs[j()].clone();
                    let o: Vec<_> = o.iter().map(|r| r.to_owned()).collect();
                    stage_res(s.vecs[i()].extend(&o))
                }
                "buf" => {
                    let o = s.vecs[j()].clone();
                    stage_res(s.vecs[i()].extend_from_buf(&o))
                }
                h => panic!("VHARNESS how {}", h),
            };
            json!({"t": t, "post": jvec(&s.vecs[i()])})
        }
        "vexttr" => {
            let o = s.vecs[j()].clone();
            let a = rowl(&ev["a"]);
            let t = match how(ev) {
                "all" => stage_res(s.vecs[i()].extend_transposed(&a, &o)),
                "range" => stage_res(s.vecs[i()].extend_range_transposed(&a, &o, range(&ev["rg"]))),
                h => panic!("VHARNESS how {}", h),
            };
            json!({"t": t, "post": jvec(&s.vecs[i()])})
        }
        "vextw" => {
            let t = stage_res(
                s.vecs[i()].extend_transposed_from_within(range(&ev["rg"]), &rowl(&ev["a"])),
            );
            json!({"t": t, "post": jvec(&s.vecs[i()])})
        }
        "vpre" => {
            let a = rowl(&ev["a"]);
            let t = match how(ev) {
                "pre" => stage_res(s.vecs[i()].pre_multiply(&a)),
                "permute" => stage_res(s.vecs[i()].permute(&a)),
                h => panic!("VHARNESS how {}", h),
            };
            json!({"t": t, "post": jvec(&s.vecs[i()])})
        }
        "vpremd" => {
            // i := pre_multiplied(j)
            match s.vecs[j()].pre_multiplied(&rowl(&ev["a"])) {
                Ok(v) => {
                    s.vecs[i()] = v;
                    json!({"t": "ok", "post": jvec(&s.vecs[i()])})
                }
                Err(_) => json!({"t": "err", "post": jvec(&s.vecs[i()])}),
            }
        }
        "vsplit" => {
            // (i, j) := split of i (unchanged if it fails)
            match s.vecs[i()].clone().split(us(&ev["x"])) {
                None => json!({"t": "none"}),
                Some((a, b)) => {
                    s.vecs[i()] = a;
                    s.vecs[j()] = b;
                    json!({"t": "some", "a": jvec(&s.vecs[i()]), "b": jvec(&s.vecs[j()])})
                }
            }
        }
        "vget" => {
            let x = us(&ev["x"]);
            let v = &mut s.vecs[i()];
            let r = match how(ev) {
                "get" => v.get(x),
                "get_mut" => v.get_mut(x).map(|r| &*r),
                "first" => v.first(),
                "last" => v.last(),
                "first_mut" => v.first_mut().map(|r| &*r),
                "last_mut" => v.last_mut().map(|r| &*r),
                "index" => Some(&v[x]),
                h => panic!("VHARNESS how {}", h),
            };
            r.map_or(none(), |r| json!({"t": "some", "v": jrow(r)}))
        }
        "vedit" => {
            let x = us(&ev["x"]);
            let (p, q) = (us(&ev["p"]), us(&ev["q"]));
            let v = &mut s.vecs[i()];
            let r = match how(ev) {
                "get" => v.get_mut(x),
                "first" => v.first_mut(),
                "last" => v.last_mut(),
                h => panic!("VHARNESS how {}", h),
            };
            let t = match r {
                None => "none",
                Some(r) => {
                    r.swap(p, q);
                    "some"
                }
            };
            json!({"t": t, "post": jvec(&s.vecs[i()])})
        }
        "vobs" => {
            let v = &s.vecs[i()];
            let n = v.stage().num_bells();
            let l = v.len();
            json!({"t": "ok", "n": n, "len": l, "emp": v.is_empty(), "rows": jrows(v.iter()),
                "into": jrows(v.into_iter()),
                "get": (0..l + 2).map(|x| v.get(x).map_or(json!([]), jrow)).collect::<Vec<_>>(),
                "first": v.first().map_or(json!([]), jrow), "last": v.last().map_or(json!([]), jrow),
                "paths": (0..n + 1).map(|b| match v.path_of(Bell::from_index(b)) {
                    None => none(),
                    Some(p) => json!({"t": "some", "v": jus(p)}),
                }).collect::<Vec<_>>()})
        }
        "veq" => {
            let (a, b) = (&s.vecs[i()], &s.vecs[j()]);
            let c = a.clone();
            ok(json!({"eq": a == b, "clone": *a == c,
                      "hash": a != b || std_hash(a) == std_hash(b)}))
        }
        // ---- iterators ----
        "iter" => {
            let it = match how(ev) {
                "vec" => s.vecs[i()].iter(),
                "vinto" => (&s.vecs[i()]).into_iter(),
                "rows" => s.blks[i()].rows(),
                "all_rows" => s.blks[i()].all_rows(),
                h => panic!("VHARNESS how {}", h),
            };
            ok(RowIterOps::run(it, &ev["script"]))
        }
        "aiter" => {
            // annotations and annotated rows
            let b = &s.blks[i()];
            let ar: Vec<Value> = b
                .annot_rows()
                .map(|ar| json!({"r": jrow(ar.row()), "a": ar.annot()}))
                .collect();
            let ar2: Vec<Value> = b
                .annot_rows()
                .clone()
                .skip(1)
                .map(|ar| json!({"r": jrow(ar.row()), "a": ar.annot()}))
                .collect();
            ok(json!({"an": b.annots().copied().collect::<Vec<_>>(),
                "rev": b.annots().rev().copied().collect::<Vec<_>>(),
                "alen": b.annots().len(), "ar": ar, "ar2": ar2}))
        }
        // ---- multi-line text ----
        "mparse" => {
            let t = text(&ev["s"]);
            match how(ev) {
                "vec" => match SameStageVec::parse(&t) {
                    Ok(v) => json!({"t": "ok", "n": v.stage().num_bells(), "rows": jrows(v.iter()), "an": []}),
                    Err(e) => mparse_err(&e),
                },
                "blk" => match AnnotBlock::<i64>::parse(&t) {
                    Ok(b) => json!({"t": "ok", "n": b.stage().num_bells(), "rows": jrows(b.all_rows()),
                                    "an": b.annots().copied().collect::<Vec<_>>()}),
                    Err(block::ParseError::Other(e)) => mparse_err(&e),
                    Err(block::ParseError::ZeroLengthBlock) => {
                        json!({"t": "err", "k": "zlb", "line": 0,
                               "e": {"t": "err", "k": "", "b": 0, "s": 0}, "p": 0, "q": 0})
                    }
                },
                h => panic!("VHARNESS how {}", h),
            }
        }
        // ---- AnnotBlock ----
        "bnew" => {
            let r = match how(ev) {
                "idx" => {
                    let an: Vec<i64> = arr(&ev["an"]).iter().map(int).collect();
                    ABlock::with_annots_from_indices(svec(st(&ev["n"]), &rowsl(&ev["rows"])), |x| an[x])
                }
                "def" => Some(ABlock::with_default_annots(svec(st(&ev["n"]), &rowsl(&ev["rows"])))),
                "empty" => Some(ABlock::empty(st(&ev["n"]))),
                h => panic!("VHARNESS how {}", h),
            };
            match r {
                None => json!({"t": "none", "post": jblk(&s.blks[i()])}),
                Some(b) => {
                    s.blks[i()] = b;
                    json!({"t": "some", "post": jblk(&s.blks[i()])})
                }
            }
        }
        "bset" => {
            let t = match s.blks[i()].get_annot_mut(us(&ev["x"])) {
                None => "none",
                Some(a) => {
                    *a = int(&ev["v"]);
                    "some"
                }
            };
            json!({"t": t, "post": jblk(&s.blks[i()])})
        }
        "bget" => {
            let b = &s.blks[i()];
            let x = us(&ev["x"]);
            ok(json!({"r": b.get_row(x).map_or(json!([]), jrow),
                "a": b.get_annot(x).map_or(none(), |a| json!({"t": "some", "v": a})),
                "ar": b.get_annot_row(x).map_or(none(), |ar| json!({"t": "some", "r": jrow(ar.row()), "a": ar.annot()}))}))
        }
        "bobs" => {
            let b = &s.blks[i()];
            let n = b.stage().num_bells();
            let path = |p: usize| match b.path_of(Bell::from_index(p)) {
                None => none(),
                Some((v, l)) => json!({"t": "some", "v": jus(v), "l": unus(l)}),
            };
            let full = |p: usize| match b.full_path_of(Bell::from_index(p)) {
                None => none(),
                Some(v) => json!({"t": "some", "v": jus(v)}),
            };
            ok(json!({"n": n, "eff": b.effective_stage().num_bells(), "emp": b.is_empty(), "len": b.len(),
                "first": jrow(b.first_row()), "left": jrow(b.leftover_row()),
                "far": b.first_annot_row().map_or(none(), |ar| json!({"t": "some", "r": jrow(ar.row()), "a": ar.annot()})),
                "rows": jrows(b.rows()), "all": jrows(b.all_rows()), "an": b.annots().copied().collect::<Vec<_>>(),
                "vec": jvec(b.row_vec()), "into": jvec(&b.clone().into_row_vec()),
                "paths": (0..n + 1).map(path).collect::<Vec<_>>(),
                "full": (0..n + 1).map(full).collect::<Vec<_>>()}))
        }
        "bpre" => {
            let a = rowl(&ev["a"]);
            let t = match how(ev) {
                "pre" => stage_res(s.blks[i()].pre_multiply(&a)),
                "permute" => stage_res(s.blks[i()].permute(&a)),
                h => panic!("VHARNESS how {}", h),
            };
            json!({"t": t, "post": jblk(&s.blks[i()])})
        }
        "bext" => {
            let o = s.blks[j()].clone();
            let t = match how(ev) {
                "all" => stage_res(s.blks[i()].extend(&o)),
                "range" => stage_res(s.blks[i()].extend_range(&o, range(&ev["rg"]))),
                h => panic!("VHARNESS how {}", h),
            };
            json!({"t": t, "post": jblk(&s.blks[i()])})
        }
        "bextw" => {
            s.blks[i()].extend_from_within(range(&ev["rg"]));
            json!({"t": "ok", "post": jblk(&s.blks[i()])})
        }
        "bmap" => {
            let k = int(&ev["v"]);
            let b = s.blks[i()].clone();
            s.blks[i()] = match how(ev) {
                "map" => b.map_annots(|a| a + k),
                "mapi" => b.map_annots_with_index(|x, a| a + k + 10 * x as i64),
                "clone" => b.clone_map_annots_with_index(|x, a| a + k + 10 * x as i64),
                h => panic!("VHARNESS how {}", h),
            };
            json!({"t": "ok", "post": jblk(&s.blks[i()])})
        }
        "bsplit" => match s.blks[i()].clone().split(us(&ev["x"])) {
            None => json!({"t": "none"}),
            Some((a, b)) => {
                s.blks[i()] = a;
                s.blks[j()] = b;
                json!({"t": "some", "a": jblk(&s.blks[i()]), "b": jblk(&s.blks[j()])})
            }
        },
        "beq" => {
            let (a, b) = (&s.blks[i()], &s.blks[j()]);
            ok(json!({"eq": a == b, "clone": *a == a.clone(), "hash": a != b || std_hash(a) == std_hash(b)}))
        }
        // ---- RepeatIter ----
        "rnew" => {
            let b: &'static ABlock = leak(s.blks[j()].clone());
            match b.repeat_iter(rowl(&ev["a"])) {
                Ok(r) => {
                    s.reps[i()] = Some(r);
                    json!({"t": "ok"})
                }
                Err(_) => err(),
            }
        }
        "rnext" => match s.reps[i()].as_mut().unwrap().next() {
            None => none(),
            Some((r, x, a)) => json!({"t": "some", "v": jrow(&r), "x": unus(x), "a": a}),
        },
        "rinto" => {
            let k = us(&ev["k"]);
            let mut o = s.rows[k].clone();
            let r = s.reps[i()].as_mut().unwrap().next_into(&mut o);
            s.rows[k] = o;
            match r {
                None => json!({"t": "none", "post": jrow(&s.rows[k])}),
                Some((x, a)) => json!({"t": "some", "x": unus(x), "a": a, "post": jrow(&s.rows[k])}),
            }
        }
        "rclone" => {
            s.reps[j()] = s.reps[i()].clone();
            json!({"t": "ok"})
        }
        "rskip" => {
            // skips many items, checking nothing but termination
            let mut got = 0;
            for _ in 0..us(&ev["x"]) {
                if s.reps[i()].as_mut().unwrap().next().is_some() {
                    got += 1;
                }
            }
            ok(json!(got))
        }
        // ---- RowAccumulator ----
        "anew" => {
            s.accs[i()] = match how(ev) {
                "rounds" => RowAccumulator::rounds(st(&ev["n"])),
                "new" => RowAccumulator::new(rowl(&ev["a"])),
                h => panic!("VHARNESS how {}", h),
            };
            json!({"t": "ok", "post": jrow(s.accs[i()].total())})
        }
        "aacc" => {
            let a = rowl(&ev["a"]);
            let acc = &mut s.accs[i()];
            let t = match how(ev) {
                "acc" => stage_res(acc.accumulate(&a)),
                "pre" => stage_res(acc.pre_accumulate(&a)),
                "mulr" => {
                    *acc *= a.as_row();
                    "ok"
                }
                "mulb" => {
                    *acc *= &a;
                    "ok"
                }
                "set" => {
                    acc.set(&a);
                    "ok"
                }
                h => panic!("VHARNESS how {}", h),
            };
            json!({"t": t, "post": jrow(s.accs[i()].total())})
        }
        "aclone" => {
            let c = s.accs[i()].clone();
            s.accs[j()] = c;
            json!({"t": "ok", "post": jrow(s.accs[j()].total())})
        }
        "atot" => ok(json!({"tot": jrow(s.accs[i()].total()), "into": jrow(&s.accs[i()].clone().into_total())})),
        // ---- place notation ----
        "pn_parse" => match PlaceNot::parse(&text(&ev["s"]), st(&ev["n"])) {
            Ok(p) => ok(pn_info(&p)),
            Err(e) => json!({"t": "err", "e": pn_err(&e)}),
        },
        "pn_slice" => match unsafe { PlaceNot::from_sorted_slice(&uss(&ev["v"]), st(&ev["n"])) } {
            Ok(p) => ok(pn_info(&p)),
            Err(e) => json!({"t": "err", "e": pn_err(&e)}),
        },
        "pn_cross" => PlaceNot::cross(st(&ev["n"])).map_or(none(), |p| ok(pn_info(&p))),
        "pn_lit" => {
            let p = pnl(&ev["pn"]);
            let back = match PlaceNot::parse(&p.to_string(), p.stage()) {
                Ok(q) => json!(q == p),
                Err(_) => json!(false),
            };
            ok(json!({"info": pn_info(&p), "back": back, "tr": jrow(&p.transposition()),
                      "clone": p == p.clone() && std_hash(&p) == std_hash(&p.clone())}))
        }
        "pn_act" => {
            let p = pnl(&ev["pn"]);
            let mut a = rowl(&ev["a"]);
            let (t, v) = match how(ev) {
                "permute" => {
                    let t = stage_res(p.permute(&mut a));
                    (t, a)
                }
                "new" => match p.permute_new(&a) {
                    Ok(v) => ("ok", v),
                    Err(_) => ("err", a),
                },
                "unchecked" => {
                    assert_eq!(p.stage(), a.stage());
                    unsafe { p.permute_unchecked(&mut a) };
                    ("ok", a)
                }
                "new_unchecked" => {
                    assert_eq!(p.stage(), a.stage());
                    ("ok", unsafe { p.permute_new_unchecked(&a) })
                }
                h => panic!("VHARNESS how {}", h),
            };
            json!({"t": t, "v": jrow(&v)})
        }
        "pn_btw" => match PlaceNot::pn_between(&rowl(&ev["a"]), &rowl(&ev["b"])) {
            None => none(),
            Some(p) => ok(pn_info(&p)),
        },
        "pnb_parse" => match PnBlock::parse(&text(&ev["s"]), st(&ev["n"])) {
            Ok(b) => ok(json!({"n": b.stage().num_bells(), "len": b.len(),
                "pns": b.place_nots().map(places).collect::<Vec<_>>(),
                "sts": b.place_nots().all(|p| p.stage() == b.stage())})),
            Err(e) => pnb_err(&e),
        },
        "pnb_rows" => {
            let b = pnbl(&ev["pns"]);
            let blk = |b: Result<AnnotBlock<i64>, IncompatibleStages>| match b {
                Ok(b) => json!({"t": "ok", "n": b.stage().num_bells(), "rows": jrows(b.all_rows()),
                                "an": b.annots().copied().collect::<Vec<_>>()}),
                Err(_) => err(),
            };
            match how(ev) {
                "rows" => match b.to_rows(rowl(&ev["a"])) {
                    Ok(v) => json!({"t": "ok", "n": v.stage().num_bells(), "rows": jrows(v.iter()), "an": []}),
                    Err(_) => err(),
                },
                "block" => blk(b.to_block(rowl(&ev["a"]))),
                "rounds" => blk(Ok(b.to_block_from_rounds())),
                h => panic!("VHARNESS how {}", h),
            }
        }
        "pnb_vec" => {
            let v: Vec<PlaceNot> = arr(&ev["pns"]).iter().map(pnl).collect();
            let r = match how(ev) {
                "vec" => PnBlock::from_vec(v),
                "iter" => PnBlock::from_iter(v),
                h => panic!("VHARNESS how {}", h),
            };
            match r {
                Ok(b) => ok(json!({"n": b.stage().num_bells(), "len": b.len(),
                                   "pns": b.place_nots().map(places).collect::<Vec<_>>()})),
                Err(InvalidPnBlockError::EmptyBlock) => json!({"t": "err", "k": "empty", "x": 0}),
                Err(InvalidPnBlockError::IncompatibleStages(x, _)) => {
                    json!({"t": "err", "k": "stage", "x": unus(x)})
                }
            }
        }
        // ---- methods ----
        "mnew" => {
            let name = text(&ev["name"]);
            let lead = || {
                let rows = svec(st(&ev["n"]), &rowsl(&ev["rows"]));
                let labels = arr(&ev["labels"]);
                AnnotBlock::<Option<String>>::with_annots_from_indices(rows, |x| labell(&labels[x])).unwrap()
            };
            let m = match how(ev) {
                "pns" => match Method::from_place_not_string(name, st(&ev["n"]), &text(&ev["s"])) {
                    Ok(m) => m,
                    Err(e) => return pnb_err(&e),
                },
                "le" => Method::with_lead_end(name, &pnbl(&ev["pns"])),
                "named" => Method::with_name(name, lead()),
                "new" => Method::new(text(&ev["title"]), name, full_class(&ev["cls"]), lead()),
                h => panic!("VHARNESS how {}", h),
            };
            let r = meth_info(&m);
            s.meth = Some(m);
            ok(r)
        }
        "minfo" => ok(meth_info(s.meth.as_ref().unwrap())),
        "mrow" => ok(jrow(&s.meth.as_ref().unwrap().row_in_plain_course(us(&ev["x"])))),
        "mlrow" => ok(jrow(s.meth.as_ref().unwrap().row_in_plain_lead(us(&ev["x"])))),
        "mcourse" => {
            let c = s.meth.as_ref().unwrap().plain_course();
            ok(json!({"rows": jrows(c.all_rows()),
                "an": c.annots().map(|a| json!({"x": unus(a.sub_lead_idx()), "l": jlabel(a.label())})).collect::<Vec<_>>()}))
        }
        "mset" => {
            let m = s.meth.as_mut().unwrap();
            match how(ev) {
                "label" => m.set_label(us(&ev["x"]), labell(&ev["label"])),
                "le" => m.set_lead_end_label(),
                h => panic!("VHARNESS how {}", h),
            }
            ok(meth_info(m))
        }
        "mgetl" => {
            let m = s.meth.as_ref().unwrap();
            ok(jlabel(m.get_label(us(&ev["x"]))))
        }
        "mfind" => {
            let m = s.meth.as_ref().unwrap();
            let l = text(&ev["label"]);
            let v: Vec<usize> = m.label_indices(&l).collect();
            ok(jus(v))
        }
        "classify" => {
            let b: Block = pnbl(&ev["pns"]).to_block_from_rounds();
            ok(jclass(FullClass::classify(&b)))
        }
        "title" => ok(cps(&generate_title(&text(&ev["name"]), full_class(&ev["cls"]), st(&ev["n"])))),
        "clsdisp" => {
            let c = full_class(&ev["cls"]);
            ok(json!({"s": cps(&c.to_string()), "cls": jclass(c), "eq": c == full_class(&ev["cls"])}))
        }
        "clsinfo" => {
            let c = class_of(int(&ev["c"]));
            let h = match c.hunt_bell_class() {
                None => "none",
                Some(HuntBellClass::Plain) => "plain",
                Some(HuntBellClass::TrebleDodging) => "td",
                Some(HuntBellClass::TreblePlace) => "tp",
                Some(HuntBellClass::Alliance) => "all",
                Some(HuntBellClass::Hybrid) => "hyb",
            };
            ok(json!({"plain": c.is_plain(), "td": c.is_treble_dodging(), "sym": c.is_symmetric_hunter(),
                "hbc": h, "name": cps(c.name()), "disp": cps(&c.to_string()), "title": jlabel(c.name_in_title())}))
        }
        // ---- calls ----
        "call" => {
            let pns = || pnbl(&ev["pns"]);
            let c = match how(ev) {
                "new" => Call::new(
                    char::from_u32(int(&ev["not"]) as u32).unwrap(),
                    text(&ev["loc"]),
                    us(&ev["cov"]),
                    pns().to_block(rowl(&ev["a"])).unwrap(),
                ),
                "empty" => Call::new(
                    char::from_u32(int(&ev["not"]) as u32).unwrap(),
                    text(&ev["loc"]),
                    us(&ev["cov"]),
                    Block::empty(st(&ev["n"])),
                ),
                "bob" => Call::le_bob(pns()),
                "single" => Call::le_single(pns()),
                h => panic!("VHARNESS how {}", h),
            };
            ok(json!({"c": call_info(&c), "clone": call_info(&c.clone())}))
        }
        // ---- masks ----
        "mk_parse" => {
            let m = Mask::parse(&text(&ev["s"]));
            let t = m.to_string();
            ok(json!({"m": jmask(&m), "s": cps(&t), "back": Mask::parse(&t) == m}))
        }
        "mk_new" => {
            let m = match how(ev) {
                "full" => Mask::full_row(&rowl(&ev["a"])),
                "empty" => Mask::empty(st(&ev["n"])),
                "fix" => Mask::fix_bells(st(&ev["n"]), bells(&ev["bs"])),
                // (none of the bells is out of the stage)
                "fixu" => {
                    let mut m = Mask::empty(st(&ev["n"]));
                    for b in bells(&ev["bs"]) {
                        unsafe { m.fix_unchecked(b) };
                    }
                    m
                }
                h => panic!("VHARNESS how {}", h),
            };
            ok(jmask(&m))
        }
        "mk_match" => {
            let m = maskl(&ev["m"]);
            let a = rowl(&ev["a"]);
            ok(json!({"m": m.matches(&a), "r": Regex::from(m.clone()).matches(&a)}))
        }
        "mk_rel" => {
            let (m, p) = (maskl(&ev["m"]), maskl(&ev["p"]));
            ok(json!({"sub": m.is_subset_of(&p), "com": m.is_compatible_with(&p),
                "comb": m.combine(&p).map_or(none(), |c| json!({"t": "some", "v": jmask(&c)})),
                "eq": m == p, "hash": m != p || std_hash(&m) == std_hash(&p)}))
        }
        "mk_info" => {
            let m = maskl(&ev["m"]);
            let n = arr(&ev["m"]).len();
            ok(json!({"row": m.as_row().map_or(json!([]), |r| jrow(&r)),
                "free": jus(m.unspecified_places()), "emp": m.is_empty(),
                "stage": if n == 0 { 0 } else { m.stage().num_bells() },
                "places": (0..n + 2).map(|b| jopt(m.place_of(Bell::from_index(b)))).collect::<Vec<_>>(),
                "str": cps(&m.to_string())}))
        }
        "mk_mul" => {
            let m = maskl(&ev["m"]);
            let a = rowl(&ev["a"]);
            ok(jmask(&match how(ev) {
                "rm" => a.as_row() * &m,
                "mr" => &m * a.as_row(),
                h => panic!("VHARNESS how {}", h),
            }))
        }
        "mk_set" => {
            s.masks[i()] = maskl(&ev["m"]);
            ok(jmask(&s.masks[i()]))
        }
        "mk_edit" => {
            let m = &mut s.masks[i()];
            let b = Bell::from_index(us(&ev["b"]));
            let t = match how(ev) {
                "fix" => m.fix(b).is_ok(),
                "set" => m.set_bell(b, us(&ev["p"])).is_ok(),
                h => panic!("VHARNESS how {}", h),
            };
            json!({"t": if t { "ok" } else { "err" }, "post": jmask(&s.masks[i()])})
        }
        // ---- regexes ----
        "rx_parse" => {
            let r = Regex::parse(&text(&ev["s"]));
            ok(json!({"e": jelems(&r), "s": cps(&r.to_string()), "back": Regex::parse(&r.to_string()) == r}))
        }
        "rx_norm" => {
            let e: Vec<RegexElem> = arr(&ev["e"]).iter().map(elem).collect();
            let r = match how(ev) {
                "elems" => Regex::from_elems(e),
                "vec" => Regex::from_vec(e),
                "twice" => {
                    let mut r = Regex::from_vec(e);
                    r.normalise();
                    r
                }
                "unchecked" => {
                    let mut r = unsafe { Regex::from_elems_unchecked(e) };
                    r.normalise();
                    r
                }
                "unchecked_vec" => {
                    let mut r = unsafe { Regex::from_vec_unchecked(e) };
                    r.normalise();
                    r
                }
                h => panic!("VHARNESS how {}", h),
            };
            ok(json!({"e": jelems(&r), "s": cps(&r.to_string()),
                "bells": r.elems().iter().filter_map(|e| e.bell()).map(|b| unus(b.index())).collect::<Vec<_>>()}))
        }
        "rx_match" => {
            let r = Regex::from_elems(arr(&ev["e"]).iter().map(elem));
            let a = rowl(&ev["a"]);
            ok(json!({"m": r.matches(&a),
                "pat": r.match_pattern(&a).map_or(none(), |v| json!({"t": "some", "v": jus(v)}))}))
        }
        "runs" => {
            let (n, l) = (st(&ev["n"]), us(&ev["len"]));
            let v = match how(ev) {
                "front" => Regex::runs_front(n, l),
                "back" => Regex::runs_back(n, l),
                "all" => Regex::all_runs(n, l),
                "fb" => Regex::runs_front_or_back(n, l),
                "ext" => Regex::runs(n, l, false),
                "int" => Regex::runs(n, l, true),
                h => panic!("VHARNESS how {}", h),
            };
            ok(Value::Array(v.iter().map(jelems).collect()))
        }
        "runs_match" => {
            // How many of the regexes match a row
            let a = rowl(&ev["a"]);
            let l = us(&ev["len"]);
            let n = a.stage();
            let c = |v: Vec<Regex>| v.iter().filter(|r| r.matches(&a)).count();
            ok(json!({"front": c(Regex::runs_front(n, l)), "back": c(Regex::runs_back(n, l)),
                      "all": c(Regex::all_runs(n, l)), "ext": c(Regex::runs(n, l, false)),
                      "fb": c(Regex::runs_front_or_back(n, l)), "int": c(Regex::runs(n, l, true))}))
        }
        "runlen" => {
            let a = rowl(&ev["a"]);
            ok(json!({"f": bellframe::run_len(a.bell_iter()), "b": bellframe::run_len(a.bell_iter().rev())}))
        }
        "rx_count" => {
            let r = Regex::from_elems(arr(&ev["e"]).iter().map(elem));
            r.num_matching_rows(st(&ev["n"])).map_or(none(), |c| json!({"t": "some", "v": limbs(c)}))
        }
        // ---- method libraries ----
        "lload" => match MethodLib::from_json(&text(&ev["json"])) {
            Ok(l) => {
                s.lib = Some(leak(l));
                json!({"t": "ok"})
            }
            Err(_) => err(),
        },
        "lget" | "lmap" | "lunw" | "lsug" | "ljson" | "lreload" if s.lib.is_none() => json!({"t": "nolib"}),
        "lget" => {
            let r = s.lib.unwrap().get_by_title(&text(&ev["q"]));
            match r {
                Ok(m) => json!({"t": "ok", "v": meth_info(&m)}),
                Err(QueryError::PnParseErr { pn, error }) => {
                    json!({"t": "pn", "pn": cps(pn), "e": pnb_err(&error)})
                }
                Err(QueryError::NotFound(())) => json!({"t": "nf"}),
            }
        }
        "lmap" => {
            // the error, with what it holds replaced
            let r = s.lib.unwrap().get_by_title(&text(&ev["q"]));
            match r.map_err(|e| e.map_not_found(|()| us(&ev["k"]))) {
                Ok(m) => json!({"t": "ok", "v": meth_info(&m)}),
                Err(QueryError::PnParseErr { pn, error }) => {
                    json!({"t": "pn", "pn": cps(pn), "e": pnb_err(&error)})
                }
                Err(e) => match e.unwrap_parse_err() {
                    Ok(_) => panic!("unwrap_parse_err made a method"),
                    Err(k) => json!({"t": "nf", "v": unus(k)}),
                },
            }
        }
        "lunw" => match s.lib.unwrap().get_by_title(&text(&ev["q"])) {
            Ok(_) => json!({"t": "ok"}),
            Err(e) => match e.unwrap_parse_err() {
                Ok(_) => json!({"t": "meth"}),
                Err(()) => json!({"t": "nf"}),
            },
        },
        "lsug" => {
            let q = text(&ev["q"]);
            let r = s.lib.unwrap().get_by_title_with_suggestions(&q, us(&ev["k"]));
            let r = match r {
                Ok(m) => json!({"t": "ok", "v": meth_info(&m)}),
                Err(QueryError::PnParseErr { pn, error }) => {
                    json!({"t": "pn", "pn": cps(pn), "e": pnb_err(&error)})
                }
                Err(QueryError::NotFound(v)) => json!({"t": "nf", "v": jsug(&v)}),
            };
            r
        }
        "ljson" => match s.lib.unwrap().to_json() {
            Ok(t) => ok(json!(cps(&t))),
            Err(_) => json!({"t": "err"}),
        },
        "lreload" => {
            let t = s.lib.unwrap().to_json().unwrap();
            match MethodLib::from_json(&t) {
                Ok(l) => {
                    s.lib = Some(leak(l));
                    json!({"t": "ok"})
                }
                Err(_) => err(),
            }
        }
        // ---- the Central Council's library ----
        #[cfg(feature = "xml")]
        "xload" => {
            let l = bellframe::parse_cc_lib(&text(&ev["xml"]));
            s.lib = Some(leak(l));
            json!({"t": "ok"})
        }
        #[cfg(feature = "cc")]
        "cset" => {
            let n = crate::net::net();
            let r = n.set_cache(strng(&ev["k"]), us(&ev["m"]) as u32, &bytes(&ev["d"]));
            r
        }
        #[cfg(feature = "cc")]
        "csrv" => {
            let (m, st) = (strng(&ev["m"]), us(&ev["status"]) as u64);
            crate::net::net().set_server(m, st, bytes(&ev["d"]), us(&ev["part"]));
            json!({"t": "ok"})
        }
        #[cfg(feature = "cc")]
        "cload" => {
            let n = crate::net::net();
            n.reset_conns();
            let hs: Vec<_> = (0..us(&ev["n"]))
                .map(|_| std::thread::spawn(|| MethodLib::cc_lib()))
                .collect();
            let rs: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
            let conns = n.conns();
            let (k, d) = n.cached();
            let v: Vec<_> = rs
                .iter()
                .map(|r| match r {
                    Err(_) => json!({"t": "panic"}),
                    Ok(None) => json!({"t": "none"}),
                    Ok(Some(l)) => json!({"t": "some", "v": cps(&l.to_json().unwrap())}),
                })
                .collect();
            if let Some(Ok(Some(l))) = rs.into_iter().next() {
                s.lib = Some(leak(l));
            }
            json!({"t": "ok", "v": v, "conns": conns, "k": k, "d": jbytes(&d)})
        }
        // ---- serde ----
        "sd_ser" => {
            let x = us(&ev["x"]);
            let (txt, bin) = match how(ev) {
                "bell" => {
                    let b = Bell::from_index(x);
                    (serde_json::to_string(&b).unwrap(), bincode::serialize(&b).unwrap())
                }
                "stage" => {
                    let b = Stage::new(x);
                    (serde_json::to_string(&b).unwrap(), bincode::serialize(&b).unwrap())
                }
                h => panic!("VHARNESS how {}", h),
            };
            let back = |how: &str| -> i64 {
                match how {
                    "bell" => serde_json::from_str::<Bell>(&txt).map_or(-1, |b| unus(b.index())),
                    _ => serde_json::from_str::<Stage>(&txt).map_or(-1, |b| unus(b.num_bells())),
                }
            };
            let back_bin = |how: &str| -> i64 {
                match how {
                    "bell" => bincode::deserialize::<Bell>(&bin).map_or(-1, |b| unus(b.index())),
                    _ => bincode::deserialize::<Stage>(&bin).map_or(-1, |b| unus(b.num_bells())),
                }
            };
            ok(json!({"json": cps(&txt), "bin": bin.iter().map(|b| *b as i64).collect::<Vec<_>>(),
                      "back": back(how(ev)), "backbin": back_bin(how(ev))}))
        }
        "sd_bin" => {
            let mut bytes = Vec::new();
            for b in arr(&ev["bytes"]) {
                bytes.push(int(b) as u8);
            }
            let r = match how(ev) {
                "bell" => bincode::deserialize::<Bell>(&bytes).map(|b| b.index()).ok(),
                "stage" => bincode::deserialize::<Stage>(&bytes).map(|b| b.num_bells()).ok(),
                h => panic!("VHARNESS how {}", h),
            };
            r.map_or(err(), |x| ok(json!(unus(x))))
        }
        "sd_json" => {
            let t = text(&ev["s"]);
            let r = match how(ev) {
                "bell" => serde_json::from_str::<Bell>(&t).map(|b| b.index()).ok(),
                "stage" => serde_json::from_str::<Stage>(&t).map(|b| b.num_bells()).ok(),
                "bell_value" => serde_json::from_str::<Value>(&t)
                    .ok()
                    .and_then(|v| serde_json::from_value::<Bell>(v).map(|b| b.index()).ok()),
                "stage_value" => serde_json::from_str::<Value>(&t)
                    .ok()
                    .and_then(|v| serde_json::from_value::<Stage>(v).map(|b| b.num_bells()).ok()),
                h => panic!("VHARNESS how {}", h),
            };
            r.map_or(err(), |x| ok(json!(unus(x))))
        }
        "sd_val" => {
            use serde::de::{value::Error, Deserialize, IntoDeserializer};
            fn de<'a, T: Deserialize<'a>, I: IntoDeserializer<'a, Error>>(i: I) -> Option<T> {
                T::deserialize(i.into_deserializer()).ok()
            }
            let x = int(&ev["x"]);
            let w = ev["w"].as_str().unwrap();
            macro_rules! go {
                ($v:expr) => {
                    match how(ev) {
                        "bell" => de::<Bell, _>($v).map(|b| b.index()),
                        "stage" => de::<Stage, _>($v).map(|b| b.num_bells()),
                        h => panic!("VHARNESS how {}", h),
                    }
                };
            }
            let r = match w {
                "i8" => go!(x as i8),
                "i16" => go!(x as i16),
                "i32" => go!(x as i32),
                "i64" => go!(x),
                "u8" => go!(x as u8),
                "u16" => go!(x as u16),
                "u32" => go!(x as u32),
                "u64" => go!(x as u64),
                "usize" => go!(x as usize),
                "f32" => go!(x as f32),
                "f64" => go!(x as f64),
                "bool" => go!(x != 0),
                "char" => go!(char::from_u32(x as u32).unwrap()),
                "str" => {
                    let t = text(&ev["s"]);
                    match how(ev) {
                        "bell" => de::<Bell, _>(t.as_str()).map(|b| b.index()),
                        _ => de::<Stage, _>(t.as_str()).map(|b| b.num_bells()),
                    }
                }
                "string" => go!(text(&ev["s"])),
                w => panic!("VHARNESS w {}", w),
            };
            r.map_or(err(), |x| ok(json!(unus(x))))
        }
        // ---- messages and debug output ----
        "emsg" => ok(cps(&message(ev))),
        // the message of the error which comes of rows of two stages
        "smis" => {
            let (a, b) = (rowl(&ev["a"]), rowl(&ev["b"]));
            let va = || svec(a.stage(), &[a.clone()]);
            let vb = || svec(b.stage(), &[b.clone()]);
            let ba = || ABlock::with_default_annots(svec(a.stage(), &[a.clone(), a.clone()]));
            let bb = || ABlock::with_default_annots(svec(b.stage(), &[b.clone(), b.clone()]));
            let pa = || PlaceNot::parse("1", Stage::new(a.stage().num_bells() | 1)).unwrap();
            fn m<T, E: std::error::Error>(r: Result<T, E>) -> Option<String> {
                r.err().map(|e| e.to_string())
            }
            let t = match how(ev) {
                "mul" => m(a.mul_result(&b)),
                "mul_into" => m(a.mul_into(&b, &mut a.clone())),
                "mul_into_row" => m(a.mul_into_row(&b, &mut a.clone())),
                "mul_into_row_out" => m(a.mul_into_row(&a, &mut b.clone())),
                "inv_into" => m(a.inv_into(&mut b.clone())),
                "ax" => m(Row::solve_ax_equals_b(&a, &b)),
                "xa" => m(Row::solve_xa_equals_b(&a, &b)),
                "ttu" => m(a.tranposition_to(&b)),
                "cart" => m(Row::multi_cartesian_product([vec![a.clone()], vec![b.clone()]])),
                "group" => m(Row::least_group_containing([&*a, &*b])),
                "isgroup" => m(Row::is_group([&*a, &*b])),
                "push" => m(va().push(&b)),
                "ext" => m(va().extend([b.clone()])),
                "extbuf" => m(va().extend_from_buf(&vb())),
                "exttr" => m(va().extend_transposed(&b, &vb())),
                "extw" => m(va().extend_transposed_from_within(.., &b)),
                "vpre" => m(va().pre_multiply(&b)),
                "vpremd" => m(va().pre_multiplied(&b)),
                "bpre" => m(ba().pre_multiply(&b)),
                "bext" => m(ba().extend(&bb())),
                "bextr" => m(ba().extend_range(&bb(), ..)),
                "rep" => m(ba().repeat_iter(b.clone()).map(|_| ())),
                "acc" => m(RowAccumulator::new(a.clone()).accumulate(&b)),
                "pacc" => m(RowAccumulator::new(a.clone()).pre_accumulate(&b)),
                // (of odd stages)
                "pn" => m(pa().permute(&mut b.clone())),
                "pnn" => m(pa().permute_new(&b)),
                "rows" => m(PnBlock::from_vec(vec![pa()]).unwrap().to_rows(b.clone())),
                "block" => m(PnBlock::from_vec(vec![pa()]).unwrap().to_block::<()>(b.clone()).map(|_| ())),
                "pns" => m(PnBlock::from_vec(vec![pa(), PlaceNot::parse("1", Stage::new(b.stage().num_bells() | 1)).unwrap()])),
                h => panic!("VHARNESS how {}", h),
            };
            t.map_or(none(), |t| ok(cps(&t)))
        }
        "dbg" => {
            fn d<T: std::fmt::Debug>(v: T) -> Value {
                json!([cps(&format!("{:?}", v)), cps(&format!("{:#?}", v))])
            }
            ok(match how(ev) {
                "bell" => d(Bell::from_index(us(&ev["x"]))),
                "row" => d(rowl(&ev["a"]).as_row()),
                "rowbuf" => d(rowl(&ev["a"])),
                "pn" => d(pnl(&ev["pn"])),
                "mask" => d(maskl(&ev["m"])),
                "regex" => d(Regex::from_elems(arr(&ev["e"]).iter().map(elem))),
                "vec" => d(&s.vecs[i()]),
                "blk" => d(&s.blks[i()]),
                h => panic!("VHARNESS how {}", h),
            })
        }
        // ---- values of the same content ----
        "same" => {
            let (a, b) = (&ev["a"], &ev["b"]);
            let (wa, wb) = (int(&ev["wa"]), int(&ev["wb"]));
            let n = || json!([]);
            match how(ev) {
                "row" => same_ord(&row_by(wa, a), &row_by(wb, b)),
                "bell" => {
                    let mk = |w, v: &Value| match w {
                        1 => Bell::from_number(us(v) + 1).unwrap(),
                        2 if us(v) < 33 => Bell::from_name(Bell::from_index(us(v)).to_char().unwrap()).unwrap(),
                        _ => Bell::from_index(us(v)),
                    };
                    same_ord(&mk(wa, a), &mk(wb, b))
                }
                "stage" => {
                    let mk = |w, v: &Value| match w {
                        1 => Stage::try_from(us(v)).unwrap(),
                        2 => RowBuf::rounds(st(v)).stage(),
                        _ => st(v),
                    };
                    same_ord(&mk(wa, a), &mk(wb, b))
                }
                "hunt" => {
                    use HuntBellClass as H;
                    let mk = |v: &Value| match int(v) {
                        0 => H::Plain,
                        1 => H::TrebleDodging,
                        2 => H::TreblePlace,
                        3 => H::Alliance,
                        4 => H::Hybrid,
                        _ => panic!("VHARNESS hunt class"),
                    };
                    same_ord(&mk(a), &mk(b))
                }
                "class" => same(&full_class(a), &full_class(b), n()),
                "main" => same(&class_of(int(a)), &class_of(int(b)), n()),
                "parity" => {
                    let mk = |w, v: &Value| match w {
                        1 => Parity::from_number(us(v) + 6),
                        2 => Parity::from_is_odd(int(v) == 1) * Parity::Even,
                        _ => Parity::from_is_odd(int(v) == 1),
                    };
                    same(&mk(wa, a), &mk(wb, b), n())
                }
                "elem" => same(&elem(a), &elem(b), n()),
                "mis" => {
                    let mk = |v: &Value| IncompatibleStages::test_err(st(&v[0]), st(&v[1])).unwrap_err();
                    same(&mk(a), &mk(b), n())
                }
                "pn" => same(&pn_by(wa, a), &pn_by(wb, b), n()),
                "pnb" => same(&pnb_by(wa, a), &pnb_by(wb, b), n()),
                "mask" => same(&mask_by(wa, a), &mask_by(wb, b), n()),
                "regex" => same(&regex_by(wa, a), &regex_by(wb, b), n()),
                "vec" => same(&vec_by(wa, a), &vec_by(wb, b), n()),
                "blk" => same(&blk_by(wa, a), &blk_by(wb, b), n()),
                "arow" => {
                    let (ra, rb) = (row_by(wa, &a["r"]), row_by(wb, &b["r"]));
                    let (xa, xb) = (int(&a["a"]), int(&b["a"]));
                    same(&block::AnnotRow::new(&ra, &xa), &block::AnnotRow::new(&rb, &xb), n())
                }
                h => panic!("VHARNESS how {}", h),
            }
        }
        op => panic!("VHARNESS unknown operation {}", op),
    }
}
