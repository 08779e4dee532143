//! P17: validation against an independent reading of the schema rules.
use facet_styx::*;
use searchkit::{source::Ch, *};
use std::collections::HashMap;
use styx_tree::{Entry, Object, Payload, Scalar, ScalarKind, Sequence, Tag, Value};

const T: &[&str] = &["a", "b", "", "@", "true", "false", "5", "-3", "300", "1.5", "é", "abc", "170141183460469231731687303715884105728", "true ", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "-170141183460469231731687303715884105728", "2147483648", "+7", "007", "1e3", "9007199254740993"];
const K: &[&str] = &["a", "b", "", "c"];
const N: &[&str] = &["A", "B", "unit"];
fn doc<T>(v: T) -> Documented<T> { Documented::new(v) }
fn schema(c: &mut Ch, d: usize) -> Schema {
    let leaf = d == 0;
    match c.below(if leaf { 9 } else { 19 }) {
        0 => Schema::String(if c.one_in(3) { None } else { Some(StringConstraints { min_len: bound(c), max_len: bound(c), pattern: None }) }),
        1 => Schema::Int(if c.one_in(3) { None } else { Some(IntConstraints { min: ibound(c), max: ibound(c) }) }),
        2 => Schema::Float(if c.one_in(3) { None } else { Some(FloatConstraints { min: ibound(c).map(|x| x as f64), max: ibound(c).map(|x| x as f64) }) }),
        3 => Schema::Bool,
        4 => Schema::Unit,
        5 => Schema::Any,
        6 => Schema::Literal((c.word(T)).into()),
        7 => Schema::Type { name: None },
        8 => Schema::Type { name: Some((*c.pick(N)).into()) },
        9 => {
            let mut m = HashMap::new();
            for _ in 0..c.below(4) { let k = ObjectKey::named(c.word(K)); m.insert(doc(k), schema(c, d - 1)); }
            if c.one_in(3) { let k = if c.one_in(2) { ObjectKey::unit() } else { ObjectKey::typed("string") }; m.insert(doc(k), schema(c, d - 1)); }
            Schema::Object(ObjectSchema(m))
        }
        10 => Schema::Seq(SeqSchema((doc(Box::new(schema(c, d - 1))),))),
        11 => Schema::Tuple(TupleSchema((0..c.below(4)).map(|_| doc(schema(c, d - 1))).collect())),
        12 => Schema::Map(MapSchema((0..1 + c.below(2)).map(|_| doc(schema(c, d - 1))).collect())),
        13 => Schema::Union(UnionSchema((0..c.below(4)).map(|_| doc(schema(c, d - 1))).collect())),
        14 => Schema::Optional(OptionalSchema((doc(Box::new(schema(c, d - 1))),))),
        15 => {
            let mut m = HashMap::new();
            for _ in 0..c.below(4) { let k: String = (c.word(K)).into(); m.insert(doc(k), schema(c, d - 1)); }
            Schema::Enum(EnumSchema(m))
        }
        16 => Schema::OneOf(OneOfSchema((doc(Box::new(schema(c, d - 1))), (0..c.below(3)).map(|_| RawStyx::new(c.word(T))).collect()))),
        17 => Schema::Default(DefaultSchema((RawStyx::new("1"), doc(Box::new(schema(c, d - 1)))))),
        _ => Schema::Deprecated(DeprecatedSchema(("old".into(), doc(Box::new(schema(c, d - 1)))))),
    }
}
fn bound(c: &mut Ch) -> Option<usize> { if c.one_in(3) { None } else { Some(c.below(5)) } }
fn ibound(c: &mut Ch) -> Option<i128> { if c.one_in(3) { None } else { Some(c.number(&[-3, 0, 5, 6, 300, i128::MAX, i64::MAX as i128 + 1, i64::MIN as i128, 7])) } }
fn sc(s: &str) -> Value { Value { tag: None, payload: Some(Payload::Scalar(Scalar { text: s.into(), kind: ScalarKind::Bare, span: None })), span: None } }
fn tagged(t: &str, v: Value) -> Value { Value { tag: Some(Tag { name: t.into(), span: None }), ..v } }
fn seq(items: Vec<Value>) -> Value { Value { tag: None, payload: Some(Payload::Sequence(Sequence { items, span: None })), span: None } }
fn obj(es: Vec<(Value, Value)>) -> Value {
    Value { tag: None, payload: Some(Payload::Object(Object { entries: es.into_iter().map(|(key, value)| Entry { key, value, doc_comment: None }).collect(), span: None })), span: None }
}
fn any(c: &mut Ch, d: usize) -> Value {
    match c.below(if d == 0 { 5 } else { 7 }) {
        0 => Value::unit(),
        1 => tagged(c.word(K), Value::unit()),
        2 => { let t = c.word(K); tagged(t, if d > 0 && c.one_in(2) { any(c, d - 1) } else { sc(c.word(T)) }) }
        3 | 4 => sc(c.word(T)),
        5 => seq((0..c.below(4)).map(|_| any(c, d - 1)).collect()),
        _ => { let n = c.below(4); obj((0..n).map(|_| (key(c), any(c, d - 1))).collect()) }
    }
}
fn key(c: &mut Ch) -> Value { match c.below(8) { 0 => Value::unit(), 1 => tagged("t", Value::unit()), 2 => tagged("a", sc("a")), _ => sc(c.word(K)) } }
/// A value that is likely to fit.
fn fit(c: &mut Ch, s: &Schema, ty: &SchemaFile, d: usize) -> Value {
    if d == 0 || c.one_in(9) { return any(c, d.min(2)) }
    match s {
        Schema::String(_) | Schema::Int(_) | Schema::Float(_) | Schema::Bool => { let v = sc(c.word(T)); if c.one_in(8) { tagged("t", v) } else { v } }
        Schema::Unit | Schema::Type { name: None } => Value::unit(),
        Schema::Any => any(c, 1),
        Schema::Literal(t) => sc(t),
        Schema::Type { name: Some(n) } => match ty.schema.get(&Some(n.clone())) { Some(s) => fit(c, s, ty, d - 1), None => any(c, 1) },
        Schema::Object(o) => {
            let mut es = vec![];
            let mut ks: Vec<_> = o.0.iter().collect();
            ks.sort_by_key(|(k, _)| (k.value.value.clone(), k.value.tag.clone()));
            for (k, s) in ks {
                if c.one_in(6) { continue }
                match k.value.name() { Some(n) => es.push((sc(n), fit(c, s, ty, d - 1))), None => for _ in 0..c.below(3) { es.push((key(c), fit(c, s, ty, d - 1))) } }
            }
            if c.one_in(8) { es.push((key(c), any(c, 1))) }
            obj(es)
        }
        Schema::Seq(q) => seq((0..c.below(4)).map(|_| fit(c, &q.0.0.value, ty, d - 1)).collect()),
        Schema::Tuple(t) => {
            let mut v: Vec<Value> = t.0.iter().map(|s| fit(c, &s.value, ty, d - 1)).collect();
            if c.one_in(8) { v.pop(); }
            if c.one_in(8) { v.push(any(c, 1)) }
            seq(v)
        }
        Schema::Map(m) => {
            let n = c.below(4);
            obj((0..n).map(|_| { let k = if c.one_in(8) || m.0.len() < 2 { key(c) } else { fit(c, &m.0[0].value, ty, 1) }; (k, fit(c, &m.0[m.0.len() - 1].value, ty, d - 1)) }).collect())
        }
        Schema::Union(u) => if u.0.is_empty() { any(c, 1) } else { let i = c.below(u.0.len()); fit(c, &u.0[i].value, ty, d - 1) },
        Schema::Optional(o) => if c.one_in(4) { Value::unit() } else { fit(c, &o.0.0.value, ty, d - 1) },
        Schema::Enum(e) => {
            let mut ks: Vec<_> = e.0.iter().collect();
            ks.sort_by_key(|(k, _)| k.value.clone());
            if ks.is_empty() || c.one_in(4) { return sc(c.word(T)) }
            let (k, s) = ks[c.below(ks.len())];
            if c.one_in(4) { return tagged(&k.value, Value::unit()) }
            let mut v = fit(c, s, ty, d - 1);
            v.tag = None;
            tagged(&k.value, v)
        }
        Schema::OneOf(o) => if !o.0.1.is_empty() && c.one_in(2) { let i = c.below(o.0.1.len()); sc(o.0.1[i].as_str()) } else { fit(c, &o.0.0.value, ty, d - 1) },
        Schema::Flatten(f) => fit(c, &f.0.0.value, ty, d - 1),
        Schema::Default(x) => fit(c, &x.0.1.value, ty, d - 1),
        Schema::Deprecated(x) => fit(c, &x.0.1.value, ty, d - 1),
    }
}
fn text(v: &Value) -> Option<&str> { match &v.payload { Some(Payload::Scalar(s)) => Some(&s.text), _ => None } }
fn plain(v: &Value) -> Option<&str> { if v.tag.is_none() { text(v) } else { None } }
fn unit(v: &Value) -> bool { v.tag.is_none() && v.payload.is_none() }
fn int(t: &str) -> Option<i128> {
    let (neg, ds) = match t.as_bytes().first() { Some(b'-') => (true, &t[1..]), Some(b'+') => (false, &t[1..]), _ => (false, t) };
    if ds.is_empty() || !ds.bytes().all(|b| b.is_ascii_digit()) { return None }
    let mut n: i128 = 0;
    for b in ds.bytes() { let d = (b - b'0') as i128; n = n.checked_mul(10)?; n = if neg { n.checked_sub(d)? } else { n.checked_add(d)? } }
    Some(n)
}
fn within<T: PartialOrd>(n: T, lo: Option<T>, hi: Option<T>) -> bool { !lo.is_some_and(|m| n < m) && !hi.is_some_and(|m| n > m) }
/// None: the statement leaves it open.
fn want(v: &Value, s: &Schema, ty: &SchemaFile) -> Option<bool> {
    let all = |it: &mut dyn Iterator<Item = Option<bool>>| { let mut open = false; for x in it { match x { Some(false) => return Some(false), None => open = true, _ => {} } } if open { None } else { Some(true) } };
    let one = |it: &mut dyn Iterator<Item = Option<bool>>| { let mut open = false; for x in it { match x { Some(true) => return Some(true), None => open = true, _ => {} } } if open { None } else { Some(false) } };
    Some(match s {
        Schema::String(k) => text(v).is_some_and(|t| k.as_ref().is_none_or(|k| within(t.len(), k.min_len, k.max_len))),
        Schema::Int(k) => text(v).and_then(int).is_some_and(|n| k.as_ref().is_none_or(|k| within(n, k.min, k.max))),
        Schema::Float(k) => text(v).and_then(|t| t.parse::<f64>().ok()).is_some_and(|n| k.as_ref().is_none_or(|k| within(n, k.min, k.max))),
        Schema::Bool => matches!(text(v), Some("true" | "false")),
        Schema::Unit | Schema::Type { name: None } => unit(v),
        Schema::Any => true,
        Schema::Literal(l) => text(v) == Some(l.as_str()),
        Schema::Type { name: Some(n) } => return match ty.schema.get(&Some(n.clone())) { Some(s) => want(v, s, ty), None => Some(false) },
        Schema::Seq(q) => match &v.payload { Some(Payload::Sequence(l)) => return all(&mut l.items.iter().map(|x| want(x, &q.0.0.value, ty))), _ => false },
        Schema::Tuple(t) => match &v.payload { Some(Payload::Sequence(l)) if l.items.len() == t.0.len() => return all(&mut l.items.iter().zip(&t.0).map(|(x, s)| want(x, &s.value, ty))), _ => false },
        Schema::Map(m) => match &v.payload {
            Some(Payload::Object(o)) => return all(&mut o.entries.iter().map(|e| {
                if plain(&e.key).is_none() { return Some(false) }
                let k = if m.0.len() == 2 { want(&e.key, &m.0[0].value, ty) } else { Some(true) };
                all(&mut [k, want(&e.value, &m.0[m.0.len() - 1].value, ty)].into_iter())
            })),
            _ => false,
        },
        Schema::Union(u) => return one(&mut u.0.iter().map(|s| want(v, &s.value, ty))),
        Schema::Optional(o) => return if unit(v) { Some(true) } else { want(v, &o.0.0.value, ty) },
        Schema::Enum(e) => match &v.tag {
            None => {
                let Some(t) = text(v) else { return Some(false) };
                let fits: Vec<_> = e.0.values().filter(|s| match s { Schema::String(_) => true, Schema::Int(_) => t.parse::<i64>().is_ok(), Schema::Float(_) => t.parse::<f64>().is_ok(), Schema::Bool => t == "true" || t == "false", _ => false }).collect();
                match fits.len() { 0 => false, 1 => return want(v, fits[0], ty), _ => return None }
            }
            Some(t) => match e.0.iter().find(|(k, _)| k.value == t.name) {
                None => false,
                Some((_, s)) => match &v.payload {
                    None => matches!(s, Schema::Unit | Schema::Type { name: None }) || matches!(s, Schema::Type { name: Some(n) } if n == "unit"),
                    Some(p) => return want(&Value { tag: None, payload: Some(p.clone()), span: None }, s, ty),
                },
            },
        },
        Schema::OneOf(o) => {
            let l = o.0.1.is_empty() || text(v).is_some_and(|t| o.0.1.iter().any(|x| x.0 == t));
            return all(&mut [Some(l), want(v, &o.0.0.value, ty)].into_iter());
        }
        Schema::Flatten(f) => return want(v, &f.0.0.value, ty),
        Schema::Default(x) => return want(v, &x.0.1.value, ty),
        Schema::Deprecated(x) => return want(v, &x.0.1.value, ty),
        Schema::Object(o) => match &v.payload {
            Some(Payload::Object(ob)) => {
                let named = |n: &str| o.0.iter().find(|(k, _)| k.value.value.as_deref() == Some(n)).map(|x| x.1);
                let rest: Vec<_> = o.0.iter().filter(|(k, _)| k.value.tag.is_some()).map(|x| x.1).collect();
                let missing = o.0.iter().any(|(k, s)| k.value.value.as_deref().is_some_and(|n| !matches!(s, Schema::Optional(_) | Schema::Default(_)) && !ob.entries.iter().any(|e| plain(&e.key) == Some(n))));
                if missing { return Some(false) }
                return all(&mut ob.entries.iter().map(|e| {
                    let s = match plain(&e.key) { Some(n) => named(n).or(rest.first().copied()), None if unit(&e.key) => rest.first().copied(), None => None };
                    match s { Some(s) => want(&e.value, s, ty), None => Some(false) }
                }));
            }
            _ => false,
        },
    })
}
fn p17(c: &mut Ch) -> (String, R) {
    let mut types = HashMap::new();
    let d = c.below(3);
    types.insert(None, schema(c, d));
    // B names no further type, A may name B: no cycles
    let nb = |c: &mut Ch, bad: fn(&Schema) -> bool, d: usize| loop { let s = schema(c, d); if !bad(&s) { return s } };
    fn names(s: &Schema) -> bool { format!("{s:?}").contains("Type { name: Some") }
    fn names_a(s: &Schema) -> bool { format!("{s:?}").contains("Type { name: Some(\"A\")") }
    if c.one_in(2) { types.insert(Some("B".to_string()), nb(c, names, 1)); }
    if c.one_in(2) { types.insert(Some("A".to_string()), nb(c, names_a, 1)); }
    let ty = SchemaFile { meta: Meta { id: "t".into(), version: None, cli: None, description: None, lsp: None }, imports: None, schema: types };
    let root = ty.schema[&None].clone();
    let v = fit(c, &root, &ty, 4);
    let log = format!("schema {:?}\nvalue {v:?}", ty.schema);
    let r = (|| {
        let got = guard(|| validate(&v, &ty))?;
        let by = guard(|| Validator::new(&ty).validate_value(&v, &root, "x"))?;
        let w = want(&v, &root, &ty);
        if let Some(w) = w {
            for (how, r) in [("validate", &got), ("validate_value", &by)] {
                if r.is_valid() != w { return Err(format!("{how} says {}, the schema says {w}: {:?}", r.is_valid(), r.errors.iter().map(|e| &e.message).collect::<Vec<_>>())) }
            }
        }
        if matches!(root, Schema::Deprecated(_)) && got.warnings.is_empty() { return Err("no deprecation warning".into()) }
        for n in N {
            let w = match ty.schema.get(&Some(n.to_string())) { None => Some(false), Some(s) => want(&v, s, &ty) };
            let r = guard(|| validate_as(&v, &ty, n))?.is_valid();
            if w.is_some_and(|w| w != r) { return Err(format!("validate_as {n} says {r}, the schema says {w:?}")) }
        }
        Ok(w == Some(true))
    })();
    (log, r)
}
fn none() -> Vec<String> { vec![] }
fn main() { run(vec![Prop { id: "P17", rule: "the value satisfies the schema", text: None, exhaustive: (0, 0), extra: none, structured: Some(p17), single: None }], |_| {}) }
