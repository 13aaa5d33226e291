//! RADON values as the documentation has them, next to the ones of the code.
use std::collections::BTreeMap;
use std::sync::OnceLock;
use witnet_rad::error::RadError;
use witnet_rad::types::{RadonType, RadonTypes, array::RadonArray, boolean::RadonBoolean, bytes::RadonBytes, float::RadonFloat, integer::RadonInteger, map::RadonMap, string::RadonString};

#[derive(Clone, Debug)]
pub enum V {
    I(i128),
    F(f64),
    B(bool),
    S(String),
    Y(Vec<u8>),
    A(Vec<V>),
    M(BTreeMap<String, V>),
    /// an error, by its code and its arguments
    E(u8, Vec<V>),
}
pub fn bits(x: f64) -> u64 {
    if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() }
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::I(a), V::I(b)) => a == b,
            (V::F(a), V::F(b)) => bits(*a) == bits(*b),
            (V::B(a), V::B(b)) => a == b,
            (V::S(a), V::S(b)) => a == b,
            (V::Y(a), V::Y(b)) => a == b,
            (V::A(a), V::A(b)) => a == b,
            (V::M(a), V::M(b)) => a == b,
            (V::E(a, x), V::E(b, y)) => a == b && x == y,
            _ => false,
        }
    }
}
pub fn s(x: &str) -> V {
    V::S(x.into())
}
pub fn a(x: &[V]) -> V {
    V::A(x.to_vec())
}
pub fn m(x: &[(&str, V)]) -> V {
    V::M(x.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}
impl V {
    pub fn kind(&self) -> u8 {
        match self {
            V::A(_) => 0,
            V::B(_) => 1,
            V::Y(_) => 2,
            V::F(_) => 3,
            V::I(_) => 4,
            V::M(_) => 5,
            V::E(..) => 6,
            V::S(_) => 7,
        }
    }
    pub fn name(&self) -> &'static str {
        ["RadonArray", "RadonBoolean", "RadonBytes", "RadonFloat", "RadonInteger", "RadonMap", "RadonError", "RadonString"][self.kind() as usize]
    }
    /// The value of the code (errors only through their encoding).
    pub fn rt(&self) -> RadonTypes {
        match self {
            V::I(x) => RadonInteger::from(*x).into(),
            V::F(x) => RadonFloat::from(*x).into(),
            V::B(x) => RadonBoolean::from(*x).into(),
            V::S(x) => RadonString::from(x.as_str()).into(),
            V::Y(x) => RadonBytes::from(x.clone()).into(),
            V::A(x) => RadonArray::from(x.iter().map(V::rt).collect::<Vec<_>>()).into(),
            V::M(x) => RadonMap::from(x.iter().map(|(k, v)| (k.clone(), v.rt())).collect::<BTreeMap<_, _>>()).into(),
            V::E(..) => RadonTypes::try_from(&self.cbor().unwrap()[..]).expect("an error of the list"),
        }
    }
    pub fn of(x: &RadonTypes) -> V {
        match x {
            RadonTypes::Integer(x) => V::I(x.value()),
            RadonTypes::Float(x) => V::F(x.value()),
            RadonTypes::Boolean(x) => V::B(x.value()),
            RadonTypes::String(x) => V::S(x.value()),
            RadonTypes::Bytes(x) => V::Y(x.value()),
            RadonTypes::Array(x) => V::A(x.value().iter().map(V::of).collect()),
            RadonTypes::Map(x) => V::M(x.value().iter().map(|(k, v)| (k.clone(), V::of(v))).collect()),
            RadonTypes::RadonError(e) => V::err(e.inner()),
        }
    }
    /// Errors of which the code is all that matters have no arguments.
    pub fn err(e: &RadError) -> V {
        let f = |x: f64| V::F(x);
        match e {
            RadError::ArrayIndexOutOfBounds { index } => V::E(0x70, vec![V::I((*index).into())]),
            RadError::MapKeyNotFound { key } => V::E(0x71, vec![s(key)]),
            RadError::HttpStatus { status_code } => V::E(0x30, vec![V::I((*status_code).into())]),
            RadError::InsufficientConsensus { achieved, required } => V::E(0x51, vec![f(*achieved), f(*required)]),
            RadError::TallyExecution { message: Some(t), .. } => V::E(0x53, vec![s(t)]),
            RadError::UnhandledIntercept { message: Some(t), .. } => V::E(0xff, vec![s(t)]),
            RadError::UnsupportedOperator { input_type, operator, .. } => V::E(0x20, vec![s(input_type), s(operator)]),
            e => V::E(e.try_into_error_code().map_or(0xfe, u8::from), vec![]),
        }
    }
    /// The bytes the value is revealed, tallied and compared as. Nothing if it has none.
    pub fn cbor(&self) -> Option<Vec<u8>> {
        let mut o = vec![];
        self.put(&mut o, false).then_some(o)
    }
    /// Inside an error short floats take four bytes rather than two.
    fn put(&self, o: &mut Vec<u8>, wide: bool) -> bool {
        match self {
            V::I(x) => {
                let (major, n) = if *x < 0 { (1, -1 - *x) } else { (0, *x) };
                match u64::try_from(n) {
                    Ok(n) => head(o, major, n),
                    Err(_) => return false,
                }
            }
            V::F(x) => float(o, *x, wide),
            V::B(x) => o.push(if *x { 0xf5 } else { 0xf4 }),
            V::S(x) => {
                head(o, 3, x.len() as u64);
                o.extend(x.as_bytes());
            }
            V::Y(x) => {
                head(o, 2, x.len() as u64);
                o.extend(x);
            }
            V::A(x) => {
                head(o, 4, x.len() as u64);
                return x.iter().all(|x| x.put(o, wide));
            }
            V::M(x) => {
                head(o, 5, x.len() as u64);
                // shorter keys first
                let mut l: Vec<_> = x.iter().collect();
                l.sort_by_key(|(k, _)| (k.len(), k.as_bytes().to_vec()));
                return l.iter().all(|(k, v)| s(k).put(o, wide) && v.put(o, wide));
            }
            V::E(code, args) => {
                o.extend([0xd8, 39]);
                head(o, 4, 1 + args.len() as u64);
                head(o, 0, (*code).into());
                return args.iter().all(|x| x.put(o, true));
            }
        }
        true
    }
}
pub fn head(o: &mut Vec<u8>, major: u8, n: u64) {
    let m = major * 32;
    match n {
        0..=23 => o.push(m + n as u8),
        24..=0xff => o.extend([m + 24, n as u8]),
        0x100..=0xffff => {
            o.push(m + 25);
            o.extend((n as u16).to_be_bytes())
        }
        0x1_0000..=0xffff_ffff => {
            o.push(m + 26);
            o.extend((n as u32).to_be_bytes())
        }
        _ => {
            o.push(m + 27);
            o.extend(n.to_be_bytes())
        }
    }
}
/// The value of a half precision float.
pub fn half(h: u16) -> f64 {
    let (sign, e, f) = (if h & 0x8000 != 0 { -1.0 } else { 1.0 }, (h >> 10) & 31, (h & 1023) as f64);
    sign * match e {
        0 => f / 16_777_216.0,
        31 if f == 0.0 => f64::INFINITY,
        31 => f64::NAN,
        e => (1.0 + f / 1024.0) * 2f64.powi(e as i32 - 15),
    }
}
/// The shortest encoding that keeps the value.
fn float(o: &mut Vec<u8>, x: f64, wide: bool) {
    static HALVES: OnceLock<BTreeMap<u64, u16>> = OnceLock::new();
    let halves = HALVES.get_or_init(|| (0..=u16::MAX).map(|h| (bits(half(h)), h)).collect());
    if !wide && let Some(&h) = halves.get(&bits(x)) {
        // not a number is always 7e00
        let h = if x.is_nan() { 0x7e00 } else { h };
        o.push(0xf9);
        o.extend(h.to_be_bytes());
    } else if bits(f64::from(x as f32)) == bits(x) {
        o.push(0xfa);
        o.extend((x as f32).to_be_bytes());
    } else {
        o.push(0xfb);
        o.extend(x.to_be_bytes());
    }
}
