//! Declarations of keys: their generation and their text.
use proptest::collection::vec;
use proptest::prelude::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Leaf(u8),
    /// How it is spelled, and what of.
    Opt(u8, Box<Ty>),
    /// An earlier declaration: how it is spelled, and which.
    Ref(u8, u8),
    /// In another notation.
    Spelled(u8, Box<Ty>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Var {
    pub name: u8,
    pub ty: Option<Ty>,
    pub disc: u8,
    pub attrs: u8,
    pub field_attrs: u8,
    /// Not there in fact.
    pub off: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Decl {
    pub name: u8,
    pub vis: u8,
    pub derive: u8,
    pub bitset: u8,
    pub attrs: Vec<u8>,
    pub repr: u8,
    pub discs: bool,
    pub default: bool,
    /// In a module of its own.
    pub nested: bool,
    pub unit: bool,
    /// A number of unit variants in place of the variants.
    pub many: u16,
    pub vars: Vec<Var>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Item {
    pub scope: u8,
    /// Import the variants.
    pub glob: bool,
    pub decls: Vec<Decl>,
    pub seed: u32,
}

pub const LEAVES: &[(&str, &[&str])] = &[
    ("bool", &["true", "false"]),
    ("()", &["()"]),
    ("u8", &["0", "7", "255"]),
    ("u32", &["0", "256", "4294967295"]),
    ("u64", &["0", "4294967296"]),
    ("u128", &["1", "340282366920938463463374607431768211455"]),
    ("usize", &["0", "1", "2", "3"]),
    ("i8", &["-128", "0", "127"]),
    ("i32", &["-1", "0", "2147483647"]),
    ("i64", &["-4294967296", "0"]),
    ("i128", &["-1", "1"]),
    ("isize", &["-1", "1"]),
    ("char", &["'\\0'", "'a'", "'\\u{10ffff}'"]),
    ("&'static str", &["\"\"", "\"a\"", "\"longer\""]),
    ("&'static [u8]", &["&[]", "&[0]", "&[0, 0]"]),
];

/// How the declaration is surrounded.
pub const SCOPES: &[&str] = &[
    "module", "function", "macro with tokens", "macro with fragments", "macro without arguments", "method", "default method", "closure", "generic function", "constant",
    "module without prelude",
];

fn module_scope(scope: &str) -> bool {
    scope.starts_with("module") || scope.starts_with("macro")
}

const VISIBILITIES: &[&str] = &["pub", "", "pub(crate)", "pub(self)", "pub(super)"];

const NAMES: &[&str] = &[
    "", "", "", "Option", "Result", "Iter", "Keys", "Entry", "Map", "Set", "Key", "Vec", "Iterator", "Clone", "Some", "None", "r#enum", "r#type", "Ünder", "snake_case", "_E", "K", "T", "E",
    "H", "S", "I", "A", "Item", "Storage", "Occupied", "Vacant", "MapStorage", "SetStorage", "Ordering", "Hasher", "Copy", "Default", "IntoIterator", "IterMut", "ValuesMut", "RawStorage", "Value",
    "FnMut", "Hash", "Ord", "Eq", "String", "Box", "Simple",
];

const VARIANTS: &[&str] = &[
    "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "None", "Some", "Ok", "Err", "Option", "Result", "Clone", "Copy", "Default", "Vec", "Box", "String", "Iterator", "FnMut", "T", "V", "S",
    "r#fn", "r#type", "r#match", "r#async", "r#dyn", "Ünï", "_X", "lower_case", "ALL_CAPS", "Key", "Map", "Set", "Entry", "Occupied", "Vacant", "IntoIter", "Iter", "Keys", "Values", "Item",
    "Self_", "X1", "Hash", "Hasher", "Ordering", "Less", "Drop", "Send", "Sized",
];

/// Names which differ in little: in case, in underscores, in digits.
const ALIKE: &[&str] = &[
    "Mb", "MB", "mb", "mB", "r#fn", "Fn", "FN", "fN", "_fn", "A1", "A_1", "A__1", "a1", "A1_", "_0", "_1", "_2", "__0", "Ää", "ÄÄ", "ää", "_V0", "V0", "V1", "V_0", "Self_", "self_", "A11", "A1_1", "A_11",
];

const ENUM_ATTRS: &[&str] = &[
    "/// Documented.",
    "#[allow(dead_code)]",
    "#[non_exhaustive]",
    "#[must_use]",
    "#[cfg(all())]",
    "#[cfg_attr(all(), allow(unused))]",
    "/** Documented\n    over two lines. */",
    "#[rustfmt::skip]",
    "#[doc(hidden)]",
    "#[cfg_attr(any(), nonsense(of = all, sorts))]",
    "#[doc = \"key(bitset)\"]",
    "#[allow(clippy::all, non_camel_case_types)]",
    "#[derive(PartialOrd)]",
    "#[derive(Hash)]",
];

const VARIANT_ATTRS: &[&str] = &[
    "", "", "", "", "/// A variant.", "#[allow(dead_code)]", "#[cfg(all())]", "#[cfg_attr(all(), doc = \"A variant.\")]", "#[deprecated]", "#[doc(hidden)]", "#[cfg_attr(any(), key(nonsense))]", "#[cfg(not(any()))]",
    "#[doc(alias = \"another\")]",
];

const FIELD_ATTRS: &[&str] = &["", "", "", "", "/// A field.", "#[allow(dead_code)]", "#[cfg(all())]", "#[doc = \"A field.\"]", "#[cfg_attr(all(), doc = \"A field.\")]", "#[cfg(any())] u16,", "#[cfg(any())] String, #[cfg(all())]"];

const REPRS: &[&str] = &["", "u8", "i8", "i16", "u32", "i64", "usize", "C", "u16", "C, u8", "isize"];

const COUNTS: &[u16] = &[1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300];

fn ty() -> impl Strategy<Value = Ty> {
    let leaf = prop_oneof![
        3 => Just(Ty::Leaf(0)),
        4 => (0..LEAVES.len() as u8).prop_map(Ty::Leaf),
        3 => (0u8..6, 0u8..4).prop_map(|(s, i)| Ty::Ref(s, i)),
    ];
    leaf.prop_recursive(3, 3, 1, |inner| {
        prop_oneof![
            3 => (0u8..4, inner.clone()).prop_map(|(s, t)| Ty::Opt(s, Box::new(t))),
            1 => (0u8..4, inner).prop_map(|(s, t)| Ty::Spelled(s, Box::new(t))),
        ]
    })
}

fn var() -> impl Strategy<Value = Var> {
    (
        prop_oneof![2 => 0u8..12, 1 => 0..VARIANTS.len() as u8],
        proptest::option::weighted(0.6, ty()),
        0u8..8,
        0..VARIANT_ATTRS.len() as u8,
        0..FIELD_ATTRS.len() as u8,
        proptest::bool::weighted(0.06),
    )
        .prop_map(|(name, ty, disc, attrs, field_attrs, off)| Var { name, ty, disc, attrs, field_attrs, off })
}

pub fn decl() -> impl Strategy<Value = Decl> {
    (
        (prop_oneof![Just(0u8), 0..NAMES.len() as u8], 0..VISIBILITIES.len() as u8, 0u8..7, 0u8..6, vec(0..ENUM_ATTRS.len() as u8, 0..4)),
        (prop_oneof![Just(0u8), 0..REPRS.len() as u8], any::<bool>(), proptest::bool::weighted(0.2), proptest::bool::weighted(0.2), proptest::bool::weighted(0.35)),
        prop_oneof![14 => Just(0u16), 1 => proptest::sample::select(COUNTS)],
        vec(var(), 0..13),
    )
        .prop_map(|((name, vis, derive, bitset, attrs), (repr, discs, default, nested, unit), many, vars)| Decl {
            name,
            vis,
            derive,
            bitset,
            attrs,
            repr,
            discs,
            default,
            nested,
            unit,
            many,
            vars,
        })
}

pub fn item() -> impl Strategy<Value = Item> {
    (0..SCOPES.len() as u8, proptest::bool::weighted(0.3), vec(decl(), 1..4), any::<u32>()).prop_map(|(scope, glob, decls, seed)| Item { scope, glob, decls, seed })
}

/// A variant of a declaration.
#[derive(Clone, Debug)]
pub struct VarText {
    pub attrs: Vec<String>,
    pub name: String,
    /// In parentheses, if any.
    pub fields: String,
    pub disc: String,
    pub off: bool,
}

/// The parts of a declaration.
#[derive(Clone, Debug)]
pub struct DeclText {
    /// Items which it needs in front.
    pub before: Vec<String>,
    pub attrs: Vec<String>,
    pub key_attr: Option<String>,
    pub derives: Vec<String>,
    pub vis: String,
    pub keyword: String,
    pub name: String,
    pub generics: String,
    pub vars: Vec<VarText>,
    pub after: Vec<String>,
}

impl DeclText {
    pub fn text(&self) -> String {
        let mut s = String::new();
        for a in &self.derives {
            s += &format!("{a}\n");
        }
        if let Some(k) = &self.key_attr {
            s += &format!("{k}\n");
        }
        for a in &self.attrs {
            s += &format!("{a}\n");
        }
        let vis = if self.vis.is_empty() { String::new() } else { format!("{} ", self.vis) };
        s += &format!("{vis}{} {}{} {{\n", self.keyword, self.name, self.generics);
        for v in &self.vars {
            for a in &v.attrs {
                s += &format!("    {a}\n");
            }
            s += &format!("    {}{}{},\n", v.name, v.fields, v.disc);
        }
        s + "}\n"
    }
}

/// What is known of a declaration besides its text.
#[derive(Clone, Debug, Default)]
pub struct Facts {
    /// Values, without the path of the enum: the variant, and its argument.
    pub values: Vec<String>,
    pub fixed: bool,
    pub unit: bool,
    pub bitset: bool,
    pub count: usize,
    pub nested: bool,
    pub complex: bool,
}

pub struct Resolved {
    pub scope: &'static str,
    pub decls: Vec<(DeclText, Facts)>,
    pub glob: bool,
}

struct Res<'a> {
    sole: bool,
    scope: &'static str,
    mod_name: &'a str,
    done: &'a [(DeclText, Facts)],
    here_nested: bool,
    before: Vec<String>,
    index: usize,
    plain: bool,
}

impl Res<'_> {
    fn path(&self, j: usize, spelling: u8) -> String {
        let (t, f) = &self.done[j];
        let name = &t.name;
        if !module_scope(self.scope) {
            return name.clone();
        }
        let inner = if f.nested { format!("m_{j}::{name}") } else { name.clone() };
        let abs = format!("crate::{}::{inner}", self.mod_name);
        match (spelling % 4, self.here_nested) {
            (0, false) => inner,
            (1, false) => format!("self::{inner}"),
            (0 | 1, true) => format!("super::{inner}"),
            (2, _) if self.scope == "macro without arguments" => format!("${abs}"),
            _ => abs,
        }
    }
    /// The text of a type, its values, and whether it is fixed.
    fn ty(&mut self, t: &Ty) -> (String, Vec<String>, bool) {
        match t {
            Ty::Leaf(n) => {
                let (name, values) = LEAVES[*n as usize % LEAVES.len()];
                (name.to_string(), values.iter().map(|s| s.to_string()).collect(), *n < 2)
            }
            Ty::Opt(s, t) => {
                let (n, v, f) = self.ty(t);
                let name = match s % 4 {
                    0 if self.plain => format!("Option<{n}>"),
                    1 => format!("::std::option::Option<{n}>"),
                    2 => format!("::vsupport::Opt<{n}>"),
                    _ => format!("::core::option::Option<{n}>"),
                };
                let mut values: Vec<String> = v.iter().map(|v| format!("::core::option::Option::Some({v})")).collect();
                values.push("::core::option::Option::None".into());
                (name, values, f)
            }
            Ty::Ref(_, _) if self.done.is_empty() => self.ty(&Ty::Leaf(0)),
            Ty::Ref(s, j) => {
                let j = *j as usize % self.done.len();
                let (t, f) = &self.done[j];
                if f.values.len() > 130 {
                    return self.ty(&Ty::Leaf(1));
                }
                let full = if f.nested { format!("m_{j}::{}", t.name) } else { t.name.clone() };
                let full = if module_scope(self.scope) { format!("crate::{}::{full}", self.mod_name) } else { full };
                (self.path(j, *s), f.values.iter().map(|v| format!("{full}::{v}")).collect(), f.fixed)
            }
            Ty::Spelled(s, t) => {
                let (n, v, f) = self.ty(t);
                let k = self.before.len();
                let id = self.index;
                let name = match s % 4 {
                    _ if n.contains('$') => format!("({n})"),
                    1 => {
                        self.before.push(format!("pub type Alias_{id}_{k} = {n};\n"));
                        format!("Alias_{id}_{k}")
                    }
                    2 if !self.here_nested && self.sole => {
                        self.before.push(format!("struct Owner_{id}_{k};\nimpl ::vsupport::HasTy for Owner_{id}_{k} {{ type T = {n}; }}\n"));
                        format!("<Owner_{id}_{k} as ::vsupport::HasTy>::T")
                    }
                    3 => {
                        self.before.push(format!("macro_rules! ty_{id}_{k} {{ () => {{ {n} }}; }}\n"));
                        format!("ty_{id}_{k}!()")
                    }
                    _ => format!("({n})"),
                };
                (name, v, f)
            }
        }
    }
}

/// Bring an item into a form that is valid: what the numbers in it stand for
/// depends on what the rules of the language allow. Nothing here depends on
/// whether the derive is there.
pub fn resolve(item: &Item, mod_name: &str) -> Resolved {
    let scope = SCOPES[item.scope as usize % SCOPES.len()];
    let mut decls: Vec<(DeclText, Facts)> = Vec::new();
    // Names which types in this item shadow.
    let last = item.decls.len() - 1;
    let mut shadowed: Vec<String> = Vec::new();
    for (index, d) in item.decls.iter().enumerate() {
        let nested = d.nested && module_scope(scope) && scope == "module";
        let mut name = NAMES[d.name as usize % NAMES.len()].to_string();
        if name.is_empty() || decls.iter().any(|(t, _)| t.name == name) {
            name = format!("Key{index}");
        }
        let glob = item.glob && index == last && module_scope(scope) && !nested;
        // Payloads of the same type, one of them a projection, are a known finding.
        let sole = d.many == 0 && d.vars.iter().filter(|v| v.ty.is_some()).count() == 1;
        let mut r = Res { sole, scope, mod_name, done: &decls, here_nested: nested, before: Vec::new(), index, plain: scope != "module without prelude" && !item.glob && item.decls.iter().all(|d| NAMES[d.name as usize % NAMES.len()] != "Option") };
        let mut vars: Vec<VarText> = Vec::new();
        let mut kinds: Vec<(Vec<String>, bool)> = Vec::new();
        let source: Vec<Var> = if d.many > 0 {
            (0..d.many).map(|_| Var { name: 0, ty: None, disc: 0, attrs: 0, field_attrs: 0, off: false }).collect()
        } else {
            d.vars.clone()
        };
        let mut has_default = false;
        let mut total = 0;
        let alike = !item.glob && module_scope(scope) && d.attrs.len() == 3;
        for (i, v) in source.iter().enumerate() {
            let mut vname = VARIANTS[v.name as usize % VARIANTS.len()].to_string();
            if alike {
                vname = ALIKE[v.name as usize * 7 % ALIKE.len()].to_string();
            }
            if d.many > 0 {
                vname = format!("V{i}");
            } else if vars.iter().any(|w| w.name == vname) {
                vname = format!("{}{i}", vname.trim_start_matches("r#"));
            }
            let mut attrs = Vec::new();
            let a = VARIANT_ATTRS[v.attrs as usize % VARIANT_ATTRS.len()];
            if !a.is_empty() {
                attrs.push(a.to_string());
            }
            if v.off {
                attrs.push("#[cfg(any())]".into());
            }
            let payload = if d.unit || d.many > 0 { None } else { v.ty.as_ref() };
            let (fields, values, fixed) = match payload {
                None => (String::new(), vec![vname.clone()], true),
                Some(t) => {
                    let (mut n, mut vs, mut f) = r.ty(t);
                    if total + vs.len() > 400 {
                        (n, vs, f) = r.ty(&Ty::Leaf(0));
                    }
                    // Types of other meaning when the names of variants or types are in scope.
                    let mut fa = FIELD_ATTRS[v.field_attrs as usize % FIELD_ATTRS.len()].to_string();
                    if scope == "macro with fragments" && fa.contains(',') {
                        fa.clear();
                    }
                    if fa.starts_with("///") {
                        fa += "\n        ";
                    } else if !fa.is_empty() {
                        fa.push(' ');
                    }
                    let values = vs.iter().map(|x| format!("{vname}({x})")).collect();
                    (format!("({fa}{n})"), values, f)
                }
            };
            if d.default && !has_default && fields.is_empty() && !v.off {
                has_default = true;
                attrs.push("#[default]".into());
            }
            if !v.off {
                total += values.len();
                kinds.push((values, fixed));
            }
            vars.push(VarText { attrs, name: vname, fields, disc: String::new(), off: v.off });
        }
        let on: Vec<usize> = (0..vars.len()).filter(|i| !vars[*i].off).collect();
        let unit = on.iter().all(|i| vars[*i].fields.is_empty());
        let mut repr = REPRS[d.repr as usize % REPRS.len()].to_string();
        if on.is_empty() || on.len() > 120 {
            repr.clear();
        }
        if unit && repr == "C, u8" {
            repr = "u8".into();
        }
        if d.discs && (unit || !(repr.is_empty() || repr == "C")) && d.many == 0 {
            // Explicit discriminants: distinct, within range, and in no order.
            let signed = repr.is_empty() || repr.contains('i') && !repr.contains("size") || repr == "isize";
            let mut used: Vec<i64> = Vec::new();
            let mut next = 0i64;
            let mut texts = Vec::new();
            let mut good = true;
            for &i in &on {
                let (value, text) = match source[i].disc % 8 {
                    1 => (next + 3, format!(" = {}", next + 3)),
                    2 if signed => (-next - 40, format!(" = {}", -next - 40)),
                    3 => (100 - next, format!(" = 100 - {next}")),
                    4 => (next, format!(" = {{ const N: {} = {next}; N }}", "REPR")),
                    _ => (next, String::new()),
                };
                good &= !used.contains(&value) && (-120..120).contains(&value) && (signed || value >= 0);
                used.push(value);
                texts.push(text);
                next = value + 1;
            }
            if good {
                let base = repr.rsplit(' ').next().unwrap_or_default();
                let base = if base.is_empty() || base == "C" { "isize" } else { base };
                for (&i, t) in on.iter().zip(texts) {
                    vars[i].disc = t.replace("REPR", base);
                }
            }
        }
        let mut attrs: Vec<String> = Vec::new();
        for a in &d.attrs {
            let a = ENUM_ATTRS[*a as usize % ENUM_ATTRS.len()].to_string();
            if !attrs.contains(&a) && !(scope == "module without prelude" && (a.contains("derive(") || a.contains("rustfmt"))) {
                attrs.push(a);
            }
        }
        // The derives of the standard library need those of the payloads.
        attrs.retain(|a| !a.contains("derive(") || unit);
        if !repr.is_empty() {
            attrs.push(format!("#[repr({repr})]"));
        }
        let bitset = unit && on.len() <= 128 && d.bitset >= 3;
        let key_attr = bitset.then(|| match d.bitset {
            3 => "#[key(bitset)]".to_string(),
            4 => "#[cfg_attr(all(), key(bitset))]".to_string(),
            _ => "#[key(bitset,)]".to_string(),
        });
        let key_named = item.decls.iter().any(|d| NAMES[d.name as usize % NAMES.len()] == "Key");
        let full = scope == "module without prelude" || nested || key_named;
        let key = match d.derive % 7 {
            1 if !full => "fixed_map::Key",
            2 if !full => "Key",
            3 if !full => "Renamed",
            _ => "::fixed_map::Key",
        };
        let mut before = r.before.clone();
        match key {
            "Key" if !shadowed.contains(&"Key".to_string()) => {
                shadowed.push("Key".into());
                before.insert(0, "use ::fixed_map::Key;\n".into());
            }
            "Renamed" if !shadowed.contains(&"Renamed".to_string()) => {
                shadowed.push("Renamed".into());
                before.insert(0, "use ::fixed_map::Key as Renamed;\n".into());
            }
            _ => {}
        }
        let mut derives = match d.derive % 3 {
            0 => vec![format!("#[derive(::core::clone::Clone, ::core::marker::Copy, {key})]")],
            1 => vec![format!("#[derive({key})]"), "#[derive(::core::marker::Copy, ::core::clone::Clone)]".to_string()],
            _ => vec!["#[derive(::core::clone::Clone)]".to_string(), format!("#[derive({key}, ::core::marker::Copy)]")],
        };
        let mut after = Vec::new();
        if d.derive % 7 == 6 {
            derives = vec![format!("#[derive({key})]")];
            after.push(format!("impl ::core::clone::Clone for {name} {{ fn clone(&self) -> Self {{ *self }} }}\nimpl ::core::marker::Copy for {name} {{}}\n"));
        }
        derives.push("#[derive(::core::fmt::Debug, ::core::cmp::PartialEq, ::core::cmp::Eq)]".into());
        if has_default {
            derives.push("#[derive(::core::default::Default)]".into());
        }
        let mut vis = VISIBILITIES[d.vis as usize % VISIBILITIES.len()].to_string();
        if nested && !matches!(vis.as_str(), "pub" | "pub(crate)") {
            vis = "pub(super)".into();
        }
        if glob && decls.len() == last {
            before.push(format!("use self::{name}::*;\n"));
        }
        let facts = Facts {
            values: kinds.iter().flat_map(|k| k.0.clone()).collect(),
            fixed: kinds.iter().all(|k| k.1),
            unit,
            bitset,
            count: on.len(),
            nested,
            complex: !unit,
        };
        let t = DeclText { before, attrs, key_attr, derives, vis, keyword: "enum".into(), name, generics: String::new(), vars, after };
        decls.push((t, facts));
    }
    Resolved { scope, decls, glob: item.glob }
}

/// The text of one declaration in the way of its scope.
pub fn surround(scope: &str, t: &DeclText, index: usize, nested: bool) -> String {
    let before: String = t.before.concat();
    let after: String = t.after.concat();
    let text = t.text();
    let body = match scope {
        "macro with tokens" => format!(
            "macro_rules! mk_{index} {{ ($(#[$m:meta])* $vis:vis enum $name:ident {{ $($body:tt)* }}) => {{ $(#[$m])* $vis enum $name {{ $($body)* }} }}; }}\nmk_{index}! {{\n{text}}}\n"
        ),
        "macro with fragments" => format!(
            "macro_rules! mk_{index} {{ ($(#[$m:meta])* $vis:vis enum $name:ident {{ $($(#[$vm:meta])* $v:ident $(($(#[$fm:meta])* $t:ty))? $(= $d:expr)? ,)* }}) => {{ $(#[$m])* $vis enum $name {{ $($(#[$vm])* $v $(($(#[$fm])* $t))? $(= $d)?),* }} }}; }}\nmk_{index}! {{\n{text}}}\n"
        ),
        "macro without arguments" => format!("macro_rules! mk_{index} {{ () => {{\n{text}}}; }}\nmk_{index}!();\n"),
        _ => text,
    };
    if nested {
        format!("pub mod m_{index} {{\n{before}{body}{after}}}\n")
    } else {
        format!("{before}{body}{after}")
    }
}

/// The text of a whole item: a module with a function `run`. As a guard it is
/// the same, without anything of the crate under test.
pub fn render(item: &Item, mod_name: &str, guard: bool) -> String {
    let mut r = resolve(item, mod_name);
    if guard {
        for (t, _) in &mut r.decls {
            t.key_attr = None;
            for d in &mut t.derives {
                for k in ["::fixed_map::Key, ", "fixed_map::Key, ", "Renamed, ", "Key, ", ", ::fixed_map::Key", ", fixed_map::Key", ", Renamed", ", Key", "::fixed_map::Key", "fixed_map::Key", "Renamed", "Key"] {
                    *d = d.replace(k, "");
                }
            }
        }
    }
    let result = "::core::result::Result<(), ::std::string::String>";
    let mut decls = String::new();
    let mut checks = String::new();
    for (j, (t, f)) in r.decls.iter().enumerate() {
        decls += &surround(r.scope, t, j, f.nested);
        let path = if f.nested { format!("m_{j}::{}", t.name) } else { t.name.clone() };
        let full = if module_scope(r.scope) { format!("crate::{mod_name}::{path}") } else { path.clone() };
        let values: Vec<String> = f.values.iter().map(|v| format!("{full}::{v}")).collect();
        checks += &format!("    let keys: &[{full}] = &[{}];\n", values.join(", "));
        if guard {
            checks += "    let _ = keys;\n";
            continue;
        }
        checks += &format!("    ::vsupport::always::<{full}>();\n");
        let fixed = if f.fixed {
            match (f.unit, f.bitset, f.count) {
                (true, true, n) => format!("::vsupport::fixed_key!({full}, unit, {})", [1, 2, 4, 8, 16].into_iter().find(|b| b * 8 >= n).unwrap()),
                (true, false, n) => format!("::vsupport::fixed_key!({full}, unit, {n})"),
                _ => format!("::vsupport::fixed_key!({full})"),
            }
        } else {
            "::core::option::Option::None".into()
        };
        checks += &format!("    ::vsupport::check::<{full}>({:?}, keys, {fixed}, {})?;\n", t.name, item.seed);
    }
    checks += "    ::core::result::Result::Ok(())\n";
    let inner = match r.scope {
        "function" => format!("pub fn run() -> {result} {{\n{decls}{checks}}}\n"),
        "method" => format!("pub struct Owner;\nimpl Owner {{\npub fn go(&self) -> {result} {{\n{decls}{checks}}}\n}}\npub fn run() -> {result} {{ Owner.go() }}\n"),
        "default method" => format!("pub struct Owner;\npub trait Goes {{\nfn go(&self) -> {result} {{\n{decls}{checks}}}\n}}\nimpl Goes for Owner {{}}\npub fn run() -> {result} {{ Owner.go() }}\n"),
        "closure" => format!("pub fn run() -> {result} {{\nlet go = || -> {result} {{\n{decls}{checks}}};\ngo()\n}}\n"),
        "generic function" => format!("fn go<'a, V, F, K>(_: &'a V, _: F, _: K) -> {result} {{\n{decls}{checks}}}\npub fn run() -> {result} {{ go(&1, 2, 3) }}\n"),
        "constant" => format!("pub const GO: fn() -> {result} = {{\n{decls}fn go() -> {result} {{\n{checks}}}\ngo\n}};\npub fn run() -> {result} {{ GO() }}\n"),
        _ => format!("{decls}pub fn run() -> {result} {{\n{checks}}}\n"),
    };
    let head = if r.scope == "module without prelude" { "#![no_implicit_prelude]\n" } else { "" };
    format!("pub mod {mod_name} {{\n{head}{inner}}}\n")
}

/// A whole program.
pub fn program(items: &[(usize, &Item)], guard: bool) -> String {
    let mut s = String::from("#![allow(warnings)]\n");
    let mut table = String::new();
    for (n, i) in items {
        let name = format!("item_{n}");
        s += &render(i, &name, guard);
        table += &format!("        ({n}, {name}::run),\n");
    }
    s + &format!("fn main() {{\n    vsupport::run(&[\n{table}    ]);\n}}\n")
}
