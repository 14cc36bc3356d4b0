// Description of key types and emission of their Rust source. Shared between
// build.rs (the roster of key types compiled into the harness) and the checks
// which generate programs.

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Bool,
    Unit,
    Prim(&'static str),
    Opt(Box<Ty>),
    Enum(String),
}

pub const PRIMS: &[&str] = &[
    "char", "u8", "u32", "u64", "u128", "usize", "i8", "i32", "i64", "i128", "isize",
    "&'static str", "&'static [u8]",
];

impl Ty {
    pub fn src(&self) -> String {
        match self {
            Ty::Bool => "bool".into(),
            Ty::Unit => "()".into(),
            Ty::Prim(p) => (*p).into(),
            Ty::Opt(t) => format!("Option<{}>", t.src()),
            Ty::Enum(n) => n.clone(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Variant {
    pub name: String,
    pub payload: Option<Ty>,
    pub disc: Option<i128>,
}

#[derive(Clone, Debug)]
pub struct Decl {
    pub name: String,
    pub bitset: bool,
    pub repr: Option<&'static str>,
    pub variants: Vec<Variant>,
}

impl Decl {
    pub fn is_unit(&self) -> bool {
        self.variants.iter().all(|v| v.payload.is_none())
    }
}

/// Deterministic generator used where proptest is not available (build.rs).
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
}
