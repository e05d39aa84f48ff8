//! G01: configuration.
use crate::net::Cx;
use crate::util::*;
use kompact::config::*;
use kompact::config_keys::system as keys;
use kompact::net::buffers::BufferConfig;
use kompact::prelude::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug)]
enum V {
    S(String),
    I(i64),
    F(f64),
    B(bool),
    D(&'static str),
    A(Vec<V>),
    T(BTreeMap<String, V>),
    /// set in code; how they are stored is not specified
    Bytes(u64),
    Dur(Duration),
}
type Table = BTreeMap<String, V>;

const SIZES: [(&str, u64); 18] = [
    ("7", 7),
    ("128B", 128),
    ("1KiB", 1024),
    ("1.5KiB", 1536),
    ("0.25 MiB", 262_144),
    ("10 MB", 10_000_000),
    ("2kb", 2000),
    ("1 kib", 1024),
    ("3 GiB", 3 << 30),
    ("3GB", 3_000_000_000),
    ("1TiB", 1 << 40),
    ("512KB", 512_000),
    ("64 KiB", 65_536),
    ("0B", 0),
    ("1.25 KB", 1250),
    ("999 b", 999),
    ("2 tb", 2_000_000_000_000),
    ("1 PiB", 1 << 50),
];
const TIMES: [(&str, u64); 14] = [
    // in microseconds
    ("1s", 1_000_000),
    ("250ms", 250_000),
    ("2us", 2),
    ("3m", 180_000_000),
    ("2h", 7_200_000_000),
    ("1day", 86_400_000_000),
    ("3days", 259_200_000_000),
    ("1h 30m", 5_400_000_000),
    ("2min 5sec", 125_000_000),
    ("1s 20ms 3us", 1_020_003),
    ("1week", 604_800_000_000),
    ("0s", 0),
    ("12 hours", 43_200_000_000),
    ("1000000ms", 1_000_000_000),
];
const JUNK: [&str; 8] = ["abc", "twelve", "12 parsecs", "-5KB", "KiB", "s", "true", "[1]"];
const DATES: [&str; 4] = ["1979-05-27T07:32:00Z", "1979-05-27", "07:32:00", "1979-05-27T00:32:00.5-07:00"];

const WORDS: [&str; 9] = ["a", "b", "c", "kompact", "runtime", "x-y", "throughput", "_1", "7"];
const PATHS: [&str; 14] = [
    "a", "a.b", "a.b.c", "b", "b.c", "c.a.b.x-y", "kompact.mine", "kompact.runtime.mine", "kompact.runtime.throughput", "x-y", "x-y._1", "7.a", "kompact.runtime.threads",
    "kompact.runtime.message-priority",
];

fn gen_text(g: &mut Rng) -> String {
    match g.below(6) {
        0 => g.pick(&SIZES).0.to_string(),
        1 => g.pick(&TIMES).0.to_string(),
        2 => g.pick(&JUNK).to_string(),
        3 => String::new(),
        _ => (0..g.below(12)).map(|_| *g.pick(&['x', '"', '\\', '\'', '\n', '#', '=', 'é', '漢', '5', 'K', '\t', ' ', '\u{1}', '.', ']'])).collect(),
    }
}
fn gen_int(g: &mut Rng) -> i64 {
    match g.below(8) {
        0 => 0,
        1 => i64::MAX,
        2 => i64::MIN,
        3 => -(g.below(1000) as i64),
        4 => g.next() as i64,
        _ => g.below(5000) as i64,
    }
}
fn gen_real(g: &mut Rng) -> f64 {
    match g.below(8) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::INFINITY,
        3 => f64::NAN,
        4 => f64::from_bits(g.next() & !(0x7FF << 52) | ((g.range(1, 2046) as u64) << 52)),
        5 => 1e300,
        _ => g.below(100) as f64 / 100.0,
    }
}
fn gen_scalar(g: &mut Rng) -> V {
    match g.below(6) {
        0 | 1 => V::S(gen_text(g)),
        2 => V::I(gen_int(g)),
        3 => V::F(gen_real(g)),
        4 => V::B(g.chance(1, 2)),
        _ => V::D(g.pick(&DATES)),
    }
}
fn gen_value(g: &mut Rng, depth: usize) -> V {
    match g.below(10) {
        0 | 1 | 2 if depth > 0 => V::T(gen_table(g, depth - 1)),
        3 | 4 if depth > 0 => {
            let n = g.below(4);
            if g.chance(1, 2) {
                let k = g.below(4);
                V::A((0..n)
                    .map(|_| match k {
                        0 => V::I(gen_int(g)),
                        1 => V::S(gen_text(g)),
                        2 => V::T(gen_table(g, depth - 1)),
                        _ => V::F(gen_real(g)),
                    })
                    .collect())
            } else {
                V::A((0..n).map(|_| gen_value(g, depth - 1)).collect())
            }
        }
        _ => gen_scalar(g),
    }
}
fn gen_table(g: &mut Rng, depth: usize) -> Table {
    (0..g.below(5)).map(|_| (g.pick(&WORDS).to_string(), gen_value(g, depth))).collect()
}

// ---- printing

fn p_str(g: &mut Rng, s: &str) -> String {
    if g.chance(1, 3) && !s.contains('\'') && !s.chars().any(|c| c.is_control()) {
        return format!("'{}'", s);
    }
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if c.is_control() => o.push_str(&format!("\\u{:04X}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn p_key(g: &mut Rng, k: &str) -> String {
    if g.chance(1, 4) { p_str(g, k) } else { k.to_string() }
}
fn p_val(g: &mut Rng, v: &V) -> String {
    match v {
        V::S(s) => p_str(g, s),
        V::I(i) => match g.below(5) {
            0 if *i >= 0 => format!("0x{:x}", i),
            1 if *i >= 0 => format!("0b{:b}", i),
            2 if *i > 999 && *i < 1_000_000 => format!("{}_{:03}", i / 1000, i % 1000),
            3 if *i > 0 => format!("+{}", i),
            _ => i.to_string(),
        },
        V::F(f) if f.is_nan() => "nan".into(),
        V::F(f) => format!("{:?}", f),
        V::B(b) => b.to_string(),
        V::D(d) => d.to_string(),
        V::A(a) => {
            let nl = if g.chance(1, 3) { "\n  " } else { "" };
            let mut o = format!("[{}", nl);
            for v in a {
                o.push_str(&p_val(g, v));
                o.push_str(", ");
                o.push_str(nl);
            }
            o.push(']');
            o
        }
        V::T(t) => {
            let inner: Vec<String> = t.iter().map(|(k, v)| format!("{} = {}", p_key(g, k), p_val(g, v))).collect();
            format!("{{ {} }}", inner.join(", "))
        }
        V::Bytes(_) | V::Dur(_) => unreachable!(),
    }
}
fn dotted(g: &mut Rng, prefix: &str, t: &Table, out: &mut Vec<String>) {
    for (k, v) in t {
        let key = format!("{}.{}", prefix, p_key(g, k));
        match v {
            V::T(t) if !t.is_empty() => dotted(g, &key, t, out),
            v => out.push(format!("{} = {}", key, p_val(g, v))),
        }
    }
}
fn print(g: &mut Rng, path: &str, t: &Table, out: &mut Vec<String>) {
    let mut later = vec![];
    for (k, v) in t {
        let key = p_key(g, k);
        match v {
            V::T(s) if !s.is_empty() && g.chance(1, 4) => dotted(g, &key, s, out),
            V::T(s) if g.chance(2, 3) => later.push((key, s)),
            v => out.push(format!("{} = {}{}", key, p_val(g, v), if g.chance(1, 5) { " # = [" } else { "" })),
        }
        if g.chance(1, 8) {
            out.push(String::new());
        }
    }
    g.shuffle(&mut later);
    for (k, s) in later {
        let p = if path.is_empty() { k } else { format!("{}.{}", path, k) };
        out.push(format!("[{}]", p));
        print(g, &p, s, out);
    }
}

// ---- model

fn merge(a: &mut Table, b: Table) {
    for (k, v) in b {
        match (a.get_mut(&k), v) {
            (Some(V::T(x)), V::T(y)) => merge(x, y),
            (_, v) => {
                a.insert(k, v);
            }
        }
    }
}
fn nest(path: &str, v: V) -> Table {
    let mut parts: Vec<&str> = path.split('.').collect();
    let last = parts.pop().unwrap();
    let mut t = Table::from([(last.to_string(), v)]);
    while let Some(p) = parts.pop() {
        t = Table::from([(p.to_string(), V::T(t))]);
    }
    t
}
#[derive(Debug)]
enum Found<'a> {
    Value(&'a V),
    Missing,
    NotThere,
}
fn find<'a>(t: &'a Table, path: &str) -> Found<'a> {
    let mut parts = path.split('.');
    let Some(mut v) = t.get(parts.next().unwrap()) else { return Found::Missing };
    for p in parts {
        match v {
            V::T(t) => match t.get(p) {
                Some(n) => v = n,
                None => return Found::Missing,
            },
            _ => return Found::NotThere,
        }
    }
    Found::Value(v)
}
/// None: not specified
fn as_string(v: &V) -> Option<Option<String>> {
    match v {
        V::S(s) => Some(Some(s.clone())),
        V::Bytes(_) | V::Dur(_) => None,
        _ => Some(None),
    }
}
fn as_bytes(v: &V) -> Option<Option<u64>> {
    match v {
        V::I(i) => Some(u64::try_from(*i).ok()),
        V::Bytes(b) => Some(Some(*b)),
        V::S(s) => match SIZES.iter().find(|x| x.0 == s) {
            Some(x) => Some(Some(x.1)),
            None if JUNK.contains(&s.as_str()) => Some(None),
            None => None,
        },
        V::Dur(_) => None,
        _ => Some(None),
    }
}
fn as_duration(v: &V) -> Option<Option<Duration>> {
    match v {
        V::Dur(d) => Some(Some(*d)),
        V::S(s) => match TIMES.iter().find(|x| x.0 == s) {
            Some(x) => Some(Some(Duration::from_micros(x.1))),
            None if JUNK.contains(&s.as_str()) => Some(None),
            None => None,
        },
        V::Bytes(_) => None,
        _ => Some(None),
    }
}
fn as_i64(v: &V) -> Option<i64> {
    if let V::I(i) = v { Some(*i) } else { None }
}
fn as_f64(v: &V) -> Option<f64> {
    match v {
        V::I(i) => Some(*i as f64),
        V::F(f) => Some(*f),
        _ => None,
    }
}
fn feq(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}

/// Compares a whole value with the library's.
fn same(v: &V, c: &ConfigValue) -> Result<(), String> {
    let bad = |what: &str, got: String| Err(format!("{} of {:?} gives {} (value {:?})", what, v, got, c));
    if let Some(e) = as_string(v) {
        if c.as_string() != e {
            return bad("as_string", format!("{:?}", c.as_string()));
        }
    }
    if c.as_i64() != as_i64(v) {
        return bad("as_i64", format!("{:?}", c.as_i64()));
    }
    match (c.as_f64(), as_f64(v)) {
        (None, None) => (),
        (Some(a), Some(b)) if feq(a, b) => (),
        (a, _) => return bad("as_f64", format!("{:?}", a)),
    }
    if c.as_bool() != if let V::B(b) = v { Some(*b) } else { None } {
        return bad("as_bool", format!("{:?}", c.as_bool()));
    }
    if c.as_datetime().map(|d| d.to_string()) != if let V::D(d) = v { Some(d.to_string()) } else { None } {
        return bad("as_datetime", format!("{:?}", c.as_datetime()));
    }
    if let Some(e) = as_bytes(v) {
        if c.as_bytes() != e {
            return bad("as_bytes", format!("{:?}", c.as_bytes()));
        }
    }
    if let Some(e) = as_duration(v) {
        if c.as_duration() != e {
            return bad("as_duration", format!("{:?}", c.as_duration()));
        }
    }
    match (v, c.as_array()) {
        (V::A(a), Some(b)) => {
            if a.len() != b.len() {
                return bad("as_array", format!("{} elements", b.len()));
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                same(x, y)?;
                same(x, &c[i])?;
            }
        }
        (V::A(_), None) => return bad("as_array", "nothing".into()),
        (_, Some(_)) => return bad("as_array", "an array".into()),
        _ => (),
    }
    if let V::T(t) = v {
        for (k, x) in t {
            same(x, &c[k.as_str()])?;
        }
    }
    Ok(())
}

fn entry<T: ConfigValueType>(key: &'static str, default: Option<fn() -> T::Value>, validator: Option<ValidatorFun<T>>) -> ConfigEntry<T> {
    ConfigEntry { key, doc: "", version: "", value_type: PhantomData, default, validator }
}
/// What reading an entry must give.
enum Want<T> {
    Value(T),
    Missing,
    Refused,
    Any,
}
fn judge<T: PartialEq + std::fmt::Debug>(what: &str, path: &str, want: Want<T>, got: Result<T, ConfigError>) -> Result<(), String> {
    let ok = match (&want, &got) {
        (Want::Any, _) => true,
        (Want::Value(a), Ok(b)) => a == b,
        (Want::Missing, Err(ConfigError::PathError(e))) => e.is_missing(),
        (Want::Refused, Err(ConfigError::PathError(e))) => !e.is_missing(),
        (Want::Refused, Err(_)) => true,
        _ => false,
    };
    if ok {
        return Ok(());
    }
    Err(format!(
        "{} of {} gives {:?} instead of {}",
        what,
        path,
        got,
        match want {
            Want::Value(v) => format!("{:?}", v),
            Want::Missing => "an error about a missing key".into(),
            _ => "an error".into(),
        }
    ))
}
fn typed<T>(f: &Found, conv: impl Fn(&V) -> Option<Option<T>>) -> Want<T> {
    match f {
        Found::Value(v) => match conv(v) {
            None => Want::Any,
            Some(None) => Want::Refused,
            Some(Some(x)) => Want::Value(x),
        },
        Found::Missing => Want::Missing,
        Found::NotThere => Want::Refused,
    }
}
fn or_default<T>(w: Want<T>, d: T) -> Want<T> {
    match w {
        Want::Missing => Want::Value(d),
        w => w,
    }
}
fn checked<T>(w: Want<T>, ok: impl Fn(&T) -> bool) -> Want<T> {
    match w {
        Want::Value(x) if !ok(&x) => Want::Refused,
        w => w,
    }
}
fn array_of<T>(v: &V, f: impl Fn(&V) -> Option<Option<T>>) -> Option<Option<Vec<T>>> {
    let V::A(a) = v else { return Some(None) };
    let mut out = vec![];
    let mut unknown = false;
    for x in a {
        match f(x) {
            None => unknown = true,
            Some(None) => return Some(None),
            Some(Some(x)) => out.push(x),
        }
    }
    if unknown { None } else { Some(Some(out)) }
}
fn as_usize(v: &V) -> Option<Option<usize>> {
    Some(as_i64(v).and_then(|i| usize::try_from(i).ok()))
}

fn reads(conf: &Config, model: &Table, path: &'static str) -> Result<u64, String> {
    let f = find(model, path);
    let mut n = 0;
    macro_rules! check {
        ($what:literal, $want:expr, $got:expr) => {{
            n += 1;
            judge($what, path, $want, $got)?;
        }};
    }
    // lookups
    let l = conf.select(path);
    check!("select.as_string", typed(&f, as_string), l.as_string());
    check!("select.as_i64", typed(&f, |v| Some(as_i64(v))), l.as_i64());
    check!("select.as_bool", typed(&f, |v| Some(if let V::B(b) = v { Some(*b) } else { None })), l.as_bool());
    check!("select.as_bytes", typed(&f, as_bytes), l.as_bytes());
    check!("select.as_duration", typed(&f, as_duration), l.as_duration());
    check!("select.as_f64", typed(&f, |v| Some(as_f64(v).map(|x| if x.is_nan() { 1 } else { x.to_bits() }))), l.as_f64().map(|x| if x.is_nan() { 1 } else { x.to_bits() }));
    check!("select.as_array", typed(&f, |v| Some(if let V::A(a) = v { Some(a.len()) } else { None })), l.as_array().map(|a| a.len()));
    if l.to_string() != path {
        return Err(format!("the lookup of {} calls itself {}", path, l));
    }
    if let Found::Value(v) = &f {
        same(v, l.value().map_err(|e| format!("{}: {:?}", path, e))?)?;
        if let V::A(a) = v {
            let it = l.array_entries().map_err(|e| format!("{}: {:?}", path, e))?;
            let mut seen = 0;
            for (i, e) in it {
                same(&a[i], e.value().map_err(|e| format!("{}[{}]: {:?}", path, i, e))?)?;
                if i != seen || e.to_string() != format!("{}[{}]", path, i) {
                    return Err(format!("element {} of {} comes as {} called {}", seen, path, i, e));
                }
                seen += 1;
                let ix = l.get_index(i);
                same(&a[i], ix.value().map_err(|e| format!("{}[{}]: {:?}", path, i, e))?)?;
            }
            if seen != a.len() {
                return Err(format!("{} entries of {} instead of {}", seen, path, a.len()));
            }
            let beyond = l.get_index(a.len());
            judge("get_index", path, Want::<i64>::Missing, beyond.as_i64())?;
        } else {
            judge("get_index", path, Want::<i64>::Refused, l.get_index(0).as_i64())?;
        }
    } else {
        n += 1;
        if l.array_entries().is_ok() || l.get("a").value().is_ok() || l.get_index(0).value().is_ok() {
            return Err(format!("children of the absent {} exist", path));
        }
    }
    // the same by steps
    let mut parts = path.split('.');
    let first = conf.get(parts.next().unwrap());
    let rest: Vec<&str> = parts.collect();
    let step = match rest.len() {
        0 => first.as_i64(),
        1 => first.get(rest[0]).as_i64(),
        2 => first.get(rest[0]).get(rest[1]).as_i64(),
        _ => first.get(rest[0]).get(rest[1]).get(rest[2]).as_i64(),
    };
    check!("get.get.as_i64", typed(&f, |v| Some(as_i64(v))), step);
    // entries
    check!("read<Usize>", typed(&f, as_usize), entry::<UsizeValue>(path, None, None).read(conf));
    check!("read_or_default<Usize>", or_default(typed(&f, as_usize), 4711), conf.read_or_default(&entry::<UsizeValue>(path, Some(|| 4711), None)));
    check!("read_or_default<Usize> without default", typed(&f, as_usize), conf.read_or_default(&entry::<UsizeValue>(path, None, None)));
    let odd = entry::<UsizeValue>(path, Some(|| 2), Some(|v| if v % 2 == 1 { Ok(()) } else { Err("even".into()) }));
    check!("validated read<Usize>", checked(typed(&f, as_usize), |v| v % 2 == 1), conf.read(&odd));
    check!("validated read_or_default<Usize>", or_default(checked(typed(&f, as_usize), |v| v % 2 == 1), 2), odd.read_or_default(conf));
    check!("read<Integer>", typed(&f, |v| Some(as_i64(v))), entry::<IntegerValue>(path, None, None).read(conf));
    check!("read<String>", typed(&f, as_string), entry::<StringValue>(path, None, None).read(conf));
    check!("read_or_default<String>", or_default(typed(&f, as_string), "d".into()), entry::<StringValue>(path, Some(|| "d".into()), None).read_or_default(conf));
    check!("read<Bytes>", typed(&f, as_bytes), entry::<BytesValue>(path, None, None).read(conf));
    check!("read<Duration>", typed(&f, as_duration), entry::<DurationValue>(path, None, None).read(conf));
    check!("read_or_default<Duration>", or_default(typed(&f, as_duration), Duration::from_nanos(5)), entry::<DurationValue>(path, Some(|| Duration::from_nanos(5)), None).read_or_default(conf));
    check!("read<Boolean>", typed(&f, |v| Some(if let V::B(b) = v { Some(*b) } else { None })), entry::<BooleanValue>(path, None, None).read(conf));
    let bits = |x: f64| if x.is_nan() { 1 } else { x.to_bits() };
    check!("read<Real>", typed(&f, |v| Some(as_f64(v).map(bits))), entry::<RealValue>(path, None, None).read(conf).map(bits));
    let bits = |x: f32| if x.is_nan() { 1 } else { x.to_bits() };
    check!("read<F32>", typed(&f, |v| Some(as_f64(v).map(|x| bits(x as f32)))), entry::<F32Value>(path, None, None).read(conf).map(bits));
    check!("read<[Integer]>", typed(&f, |v| array_of(v, |x| Some(as_i64(x)))), entry::<ArrayOfValues<IntegerValue>>(path, None, None).read(conf));
    check!("read<[Usize]>", typed(&f, |v| array_of(v, as_usize)), entry::<ArrayOfValues<UsizeValue>>(path, None, None).read(conf));
    check!("read<[String]>", typed(&f, |v| array_of(v, as_string)), entry::<ArrayOfValues<StringValue>>(path, None, None).read(conf));
    check!("read<[Bytes]>", typed(&f, |v| array_of(v, as_bytes)), entry::<ArrayOfValues<BytesValue>>(path, None, None).read(conf));
    Ok(n)
}

/// Values in code come back through their text.
fn back<T: ConfigValueType>(g: &mut Rng, v: T::Value, eq: impl Fn(&T::Value, &T::Value) -> bool) -> Result<(), String>
where
    T::Value: Clone + std::fmt::Debug,
{
    let s = T::config_string(v.clone());
    let doc = if g.chance(1, 2) { format!("k = {}", s) } else { format!("k = [{}]", s) };
    let c = parse_config_str(&doc).map_err(|e| format!("{:?} is written as {} which cannot be read: {:?}", v, s, e))?;
    let cv = if doc.starts_with("k = [") && !s.is_empty() && c["k"].as_array().is_some_and(|a| a.len() == 1) && doc.len() == s.len() + 6 { &c["k"][0] } else { &c["k"] };
    let r = T::from_conf(cv).map_err(|e| format!("{:?} is written as {} which reads as {:?}", v, s, e))?;
    if !eq(&r, &v) {
        return Err(format!("{:?} is written as {} which reads as {:?}", v, s, r));
    }
    Ok(())
}

#[derive(ComponentDefinition)]
struct Reader {
    ctx: ComponentContext<Self>,
}
ignore_lifecycle!(Reader);
impl Actor for Reader {
    type Message = ();
    fn receive_local(&mut self, _: ()) -> HandlerResult {
        Handled::OK
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

fn g01_case(rep: &Arc<Report>, case: u64, seed: u64) {
    let mut rng = Rng::new(seed);
    let g = &mut rng;
    let mut cx = Cx::new(rep, case, seed);
    // texts of values
    let r = (|| {
        let s = gen_text(g);
        back::<StringValue>(g, s, |a, b| a == b)?;
        let i = gen_int(g);
        back::<IntegerValue>(g, i, |a, b| a == b)?;
        let f = gen_real(g);
        back::<RealValue>(g, f, |a, b| feq(*a, *b))?;
        let f = gen_real(g) as f32;
        back::<F32Value>(g, f, |a, b| feq(*a as f64, *b as f64))?;
        let b = g.next() >> g.below(64);
        back::<BytesValue>(g, b, |a, b| a == b)?;
        let d = Duration::new(g.next() >> g.range(34, 63), g.below(1_000_000_000) as u32);
        back::<DurationValue>(g, d, |a, b| a == b)?;
        let u = g.below(1 << 40);
        back::<UsizeValue>(g, u, |a, b| a == b)?;
        let v: Vec<Vec<String>> = (0..g.below(3)).map(|_| (0..g.below(3)).map(|_| gen_text(g)).collect()).collect();
        back::<ArrayOfValues<ArrayOfValues<StringValue>>>(g, v, |a, b| a == b)?;
        let b = g.chance(1, 2);
        back::<BooleanValue>(g, b, |a, b| a == b)
    })();
    if let Err(e) = r {
        cx.fail("text-form", e);
    }
    rep.count("values taken through their text form", 9);
    // sources
    let dir = format!("{}/kv-conf-{}-{}", std::env::temp_dir().display(), std::process::id(), case);
    std::fs::create_dir_all(&dir).expect("scratch");
    let mut c = KompactConfig::default();
    // a stopped system keeps its timer thread's stack allocated: thousands of them add up
    let _timer = kompact::default_components::install_manual_timer(&mut c);
    c.logger(null_logger());
    let mut model = Table::new();
    let mut broken = false;
    let mut sig = hash_bytes(b"g01");
    let asked = Arc::new(AtomicUsize::new(usize::MAX));
    let mut runtime = Table::new();
    let n = g.range(1, 6);
    for src in 0..n {
        // runtime settings of this source
        let mut rt = Table::new();
        if g.chance(1, 2) {
            let wrong = g.chance(1, 12);
            if g.chance(1, 2) {
                rt.insert("throughput".into(), if wrong { g.pick(&[V::I(0), V::I(-3), V::S("7".into()), V::F(7.0), V::B(true)]).clone() } else { V::I(g.range(1, 200) as i64) });
            }
            if g.chance(1, 2) {
                rt.insert(
                    "message-priority".into(),
                    if wrong { g.pick(&[V::I(0), V::I(1), V::F(1.0), V::F(0.0), V::F(-0.5), V::F(f64::NAN), V::S("0.5".into())]).clone() } else { V::F(g.range(1, 99) as f64 / 100.0) },
                );
            }
            if g.chance(1, 2) {
                rt.insert("threads".into(), if wrong { g.pick(&[V::I(0), V::I(-1), V::S("two".into()), V::A(vec![])]).clone() } else { V::I(g.range(1, 4) as i64) });
            }
            if g.chance(1, 4) {
                rt.insert("scheduler".into(), if wrong { g.pick(&[V::S("huge".into()), V::S("".into()), V::S("Auto".into()), V::I(1)]).clone() } else { V::S(g.pick(&["auto", "small", "large", "dynamic", "custom"]).to_string()) });
            }
            if g.chance(1, 4) {
                rt.insert("label".into(), if wrong { V::I(3) } else { V::S(gen_text(g)) });
            }
        }
        match g.below(5) {
            0 | 1 | 2 => {
                let mut t = gen_table(g, 3);
                if !rt.is_empty() {
                    merge(&mut t, Table::from([("kompact".to_string(), V::T(Table::from([("runtime".to_string(), V::T(rt))])))]));
                }
                if g.chance(1, 4) {
                    let mut b = Table::new();
                    for (k, lo, hi) in [("chunk_size", 128, 9000), ("initial_chunk_count", 1, 5), ("max_chunk_count", 5, 30), ("encode_min_remaining", 0, 100)] {
                        if g.chance(1, 2) {
                            b.insert(
                                k.into(),
                                match g.below(12) {
                                    0 => gen_scalar(g),
                                    1 if k == "chunk_size" => V::S(g.pick(&SIZES[2..8]).0.into()),
                                    _ => V::I(g.range(lo, hi) as i64),
                                },
                            );
                        }
                    }
                    t.insert("buffer_config".into(), V::T(b));
                }
                let mut lines = vec![];
                print(g, "", &t, &mut lines);
                if g.chance(1, 40) {
                    lines.push(g.pick(&["= 3", "[a", "z = ", "z = 1\nz = 2", "q = 'x"]).to_string());
                    broken = true;
                }
                let nl = if g.chance(1, 4) { "\r\n" } else { "\n" };
                let text = lines.join(nl);
                sig = mix(sig, hash_bytes(text.as_bytes()));
                cx.note(format!("source {}: {:?}", src, text));
                if g.chance(1, 4) {
                    let f = format!("{}/{}.toml", dir, src);
                    if g.chance(1, 30) {
                        broken = true;
                    } else {
                        std::fs::write(&f, &text).expect("write");
                    }
                    c.load_config_file(f);
                } else {
                    c.load_config_str(text);
                }
                merge(&mut model, t);
            }
            3 => {
                let path: &'static str = PATHS[g.below(9).min(7)];
                let v = match g.below(9) {
                    0 => {
                        let s = gen_text(g);
                        c.set_config_value(&entry::<StringValue>(path, None, None), s.clone());
                        V::S(s)
                    }
                    1 => {
                        let i = gen_int(g);
                        c.set_config_value(&entry::<IntegerValue>(path, None, None), i);
                        V::I(i)
                    }
                    2 => {
                        let f = gen_real(g);
                        c.set_config_value(&entry::<RealValue>(path, None, None), f);
                        V::F(f)
                    }
                    3 => {
                        let b = g.chance(1, 2);
                        c.set_config_value(&entry::<BooleanValue>(path, None, None), b);
                        V::B(b)
                    }
                    4 => {
                        let b = g.next() >> g.below(64);
                        c.set_config_value(&entry::<BytesValue>(path, None, None), b);
                        V::Bytes(b)
                    }
                    5 => {
                        let d = Duration::new(g.next() >> g.range(34, 63), g.below(1_000_000_000) as u32);
                        c.set_config_value(&entry::<DurationValue>(path, None, None), d);
                        V::Dur(d)
                    }
                    6 => {
                        let u = g.below(1 << 40);
                        c.set_config_value(&entry::<UsizeValue>(path, None, None), u);
                        V::I(u as i64)
                    }
                    7 => {
                        let f = gen_real(g) as f32;
                        c.set_config_value(&entry::<F32Value>(path, None, None), f);
                        V::F(f as f64)
                    }
                    _ => {
                        let a: Vec<i64> = (0..g.below(4)).map(|_| gen_int(g)).collect();
                        c.set_config_value(&entry::<ArrayOfValues<IntegerValue>>(path, None, None), a.clone());
                        V::A(a.into_iter().map(V::I).collect())
                    }
                };
                cx.note(format!("source {}: {} := {:?}", src, path, v));
                merge(&mut model, nest(path, v));
            }
            _ => {
                // runtime settings in code
                let t = g.range(1, 300);
                let p = g.range(1, 99) as f32 / 100.0;
                let th = g.range(1, 4);
                match g.below(4) {
                    0 => {
                        c.set_config_value(&keys::THROUGHPUT, t);
                        merge(&mut model, nest("kompact.runtime.throughput", V::I(t as i64)));
                    }
                    1 => {
                        c.set_config_value(&keys::MESSAGE_PRIORITY, p);
                        merge(&mut model, nest("kompact.runtime.message-priority", V::F(p as f64)));
                    }
                    2 => {
                        c.set_config_value(&keys::THREADS, th);
                        merge(&mut model, nest("kompact.runtime.threads", V::I(th as i64)));
                    }
                    _ => {
                        let a2 = asked.clone();
                        c.executor(move |n| {
                            a2.store(n, Ordering::SeqCst);
                            kompact::executors::crossbeam_workstealing_pool::small_pool(n)
                        });
                        merge(&mut model, nest("kompact.runtime.scheduler", V::S("custom".into())));
                    }
                }
                cx.note(format!("source {}: runtime setting in code", src));
            }
        }
        std::mem::swap(&mut runtime, &mut Table::new());
    }
    // what the runtime must make of it
    let want_t = or_default(checked(typed(&find(&model, "kompact.runtime.throughput"), as_usize), |v| *v > 0), 50);
    let want_p = or_default(checked(typed(&find(&model, "kompact.runtime.message-priority"), |v| Some(as_f64(v).map(|x| x as f32))), |v| *v > 0.0 && *v < 1.0), 0.5);
    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
    let want_n = or_default(checked(typed(&find(&model, "kompact.runtime.threads"), as_usize), |v| *v > 0), cores);
    let want_s = or_default(checked(typed(&find(&model, "kompact.runtime.scheduler"), as_string), |v| ["auto", "small", "large", "dynamic", "custom"].contains(&v.as_str())), "auto".into());
    let want_l = typed(&find(&model, "kompact.runtime.label"), as_string);
    let unknown = matches!(want_l, Want::Any) || matches!(want_s, Want::Any);
    let too_many = matches!(&want_n, Want::Value(n) if *n > 64) || matches!(&want_t, Want::Value(t) if *t > 1 << 40);
    let valid = !broken && matches!(want_t, Want::Value(_)) && matches!(want_p, Want::Value(_)) && matches!(want_n, Want::Value(_)) && matches!(want_s, Want::Value(_)) && !matches!(want_l, Want::Refused);
    let mut nontrivial = false;
    if unknown || too_many {
        rep.count("cases without a verdict (unspecified runtime settings)", 1);
    } else {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.build().wait())) {
            Err(_) => cx.fail("panic", "building the system panics".into()),
            Ok(Err(e)) => {
                if valid {
                    cx.fail("refused", format!("a valid configuration is refused: {:?}", e));
                }
                rep.count("invalid configurations refused", 1);
                nontrivial = true;
            }
            Ok(Ok(sys)) => {
                if !valid {
                    cx.fail("accepted", format!("an invalid configuration is accepted: throughput {} max_messages {} (broken source: {})", sys.throughput(), sys.max_messages(), broken));
                } else {
                    nontrivial = n > 1;
                    if let (Want::Value(t), Want::Value(p)) = (&want_t, &want_p) {
                        if sys.throughput() != *t {
                            cx.fail("runtime-setting", format!("throughput is {} instead of {}", sys.throughput(), t));
                        }
                        let m = *t as f64 * *p as f64;
                        let (lo, hi) = ((m - 1.0).max(0.0) as usize, (m + 1.0) as usize);
                        let got = sys.max_messages();
                        let top = t.saturating_sub(1).max(1);
                        if got < lo.clamp(1, top) || got > hi.clamp(1, top) {
                            cx.fail("runtime-setting", format!("{} messages of {} at priority {}", got, t, p));
                        }
                    }
                    if let (Want::Value(s), Want::Value(n)) = (&want_s, &want_n) {
                        let a = asked.load(Ordering::SeqCst);
                        if a != usize::MAX && s != "custom" {
                            cx.fail("runtime-setting", format!("the scheduler is {} but the custom one is used", s));
                        }
                        if a != usize::MAX && a != *n {
                            cx.fail("runtime-setting", format!("{} threads asked for instead of {}", a, n));
                        }
                    }
                    let conf = sys.config();
                    let mut count = 0;
                    let mut all: Vec<&'static str> = PATHS.to_vec();
                    all.extend(["nothing", "kompact.nothing", "a.a", "b.a.c", "kompact", "kompact.runtime", "c", "7", "_1.7", "a.c.b", "kompact.a"]);
                    for p in all {
                        match reads(conf, &model, p) {
                            Ok(n) => count += n,
                            Err(e) => {
                                cx.fail("wrong-value", e);
                                break;
                            }
                        }
                    }
                    for p in ["", ".", "a.", ".a", "a..b", "kompact."] {
                        if conf.select(p).value().is_ok() {
                            cx.fail("wrong-value", format!("the path {:?} leads somewhere", p));
                        }
                    }
                    for (k, v) in &model {
                        if let Err(e) = same(v, &conf[k.as_str()]) {
                            cx.fail("wrong-value", e);
                        }
                    }
                    rep.count("values read", count);
                    // components see the same
                    let r = sys.create(|| Reader { ctx: ComponentContext::uninitialised() });
                    let same_conf = r.on_definition(|r| std::ptr::eq(r.ctx.config(), sys.config()) || format!("{:?}", r.ctx.config().select("kompact").value().is_ok()) == format!("{:?}", sys.config().select("kompact").value().is_ok()));
                    if !same_conf {
                        cx.fail("wrong-value", "a component sees another configuration".into());
                    }
                    // buffers
                    let mut want = BufferConfig::default();
                    let mut bad = false;
                    let mut any = false;
                    for (k, bytes) in [("chunk_size", true), ("initial_chunk_count", false), ("max_chunk_count", false), ("encode_min_remaining", true)] {
                        let f = find(&model, &format!("buffer_config.{}", k));
                        let v = match typed(&f, |v| if bytes { as_bytes(v) } else { Some(as_i64(v).map(|i| i as u64)) }) {
                            Want::Value(v) => v,
                            Want::Any => {
                                any = true;
                                continue;
                            }
                            _ => continue,
                        };
                        if !bytes && (v as i64) < 0 {
                            bad = true;
                        }
                        match k {
                            "chunk_size" => want.chunk_size(v as usize),
                            "initial_chunk_count" => want.initial_chunk_count(v as usize),
                            "max_chunk_count" => want.max_chunk_count(v as usize),
                            _ => want.encode_buf_min_free_space(v as usize),
                        }
                    }
                    QUIET.with(|q| q.set(true));
                    let valid = std::panic::catch_unwind(|| want.validate()).is_ok() && !bad;
                    let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| BufferConfig::from_config(sys.config())));
                    QUIET.with(|q| q.set(false));
                    match got {
                        _ if any => (),
                        Ok(b) if valid && b == want => rep.count("buffer configurations read", 1),
                        Ok(b) if !valid => cx.fail("buffer-config", format!("{:?} is accepted from an invalid configuration", b)),
                        Ok(b) => cx.fail("buffer-config", format!("{:?} instead of {:?}", b, want)),
                        Err(_) if valid => cx.fail("buffer-config", format!("refused instead of {:?}", want)),
                        Err(_) => rep.count("invalid buffer configurations refused", 1),
                    }
                    drop(r);
                }
                let _ = sys.shutdown().wait_timeout(Duration::from_secs(20));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    rep.eval(sig, nontrivial);
    if rep.wants_sample() {
        rep.sample(json!({"case": case, "sources": cx.log, "valid": valid}));
    }
    take_local_panics();
    cx.panics(false);
}

pub fn g01(rep: &Arc<Report>) {
    rep.rule("one case: a system built from one to six configuration sources; distinct by the text of the sources");
    rep.assume("size and duration strings are taken from lists whose meaning is known; the text form of values set in code is not specified");
    rep.hang_limit(Duration::from_secs(90));
    rep.run_cases(6, 1.0, 200_000, g01_case);
}
