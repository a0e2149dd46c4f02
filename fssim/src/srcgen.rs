//! Bridge sources, each a function of a short token.
//!   g<seed>  a bridge the generator accepts      s<seed>  not Rust syntax
//!   f<seed>  a bridge with cfg attributes
//!   c<seed>  rejected by the generator's checks  n        no bridge module      u  not UTF-8      e  an empty file
//!   r<seed>  declarations the documentation rules out, at known places
//!   d<seed>  one of the others as a disk or an editor may leave it: torn, with lost, stale or flipped parts
//! Letters behind the seed vary a source a little:
//!   a  C++ functions have other names of the same length (in the implementation only)
//!   b  so have Rust functions      w  something changes that no output depends on
use crate::rng::Rng;
use std::fmt::Write;

pub fn source(token: &str) -> Vec<u8> {
    text(token, true)
}
/// The same bridges, without the modules around them.
pub fn flat(token: &str) -> Vec<u8> {
    text(token, false)
}
fn text(token: &str, nest: bool) -> Vec<u8> {
    let t = plain(token);
    let mut bytes = base(t, nest);
    let mut swap = |a: &[u8], b: &[u8]| {
        let mut i = 0;
        while i + a.len() <= bytes.len() {
            if bytes[i..].starts_with(a) {
                bytes[i..i + a.len()].copy_from_slice(b);
            }
            i += 1;
        }
    };
    for c in token[t.len()..].chars() {
        match c {
            'a' => swap(b"cpp_fn", b"cpp_gn"),
            'b' => swap(b"rust_fn", b"rust_gn"),
            _ => swap(b"//! generated", b"//! Generated"),
        }
    }
    bytes
}
/// Without the letters behind the seed.
fn plain(token: &str) -> &str {
    let end = token.get(1..).map_or(0, |t| 1 + t.find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len()));
    &token[..end]
}
pub fn seed_of(token: &str) -> u64 {
    plain(token).get(1..).and_then(|t| t.parse().ok()).unwrap_or(0)
}
/// The same source with a small change.
pub fn variant(token: &str, r: &mut Rng) -> String {
    let c = *r.pick(&["a", "b", "w"]);
    if let Some((i, _)) = token.match_indices(c).find(|(i, _)| *i > 0) {
        return format!("{}{}", &token[..i], &token[i + 1..]);
    }
    format!("{token}{c}")
}
fn base(token: &str, nest: bool) -> Vec<u8> {
    let Some(k) = token.get(..1) else { return vec![] };
    let seed = seed_of(token);
    match k {
        "g" => good(seed, nest).into_bytes(),
        "f" => conditional(seed, None).0.into_bytes(),
        "s" => {
            let g = good(seed, nest);
            let cut = g.len() * (20 + seed as usize % 60) / 100;
            let mut t = g.into_bytes();
            t.truncate(cut);
            t.extend(b"\n}}} )) unbalanced");
            t
        }
        "c" => format!("#[cxx::bridge]\nmod ffi {{\n    unsafe extern \"C++\" {{\n        type T{seed};\n        fn bad{seed}(x: Unknown{seed}) -> T{seed};\n    }}\n}}\n").into_bytes(),
        "r" => rejected(seed).0.into_bytes(),
        "d" => damaged(seed),
        "n" => b"pub fn nothing_here() {}\n".to_vec(),
        "u" => b"#[cxx::bridge]\nmod ffi { /* \xff\xfe */ }\n".to_vec(),
        _ => vec![],
    }
}
pub fn valid(token: &str) -> bool {
    token.starts_with(['g', 'f'])
}

/// A declaration a bridge must not contain: where it goes, when the generator sees it, its text with the place of
/// the error marked, and what it must be told.
/// (`#` is a number, so that names are unique)
const REJECTED: &[(char, u8, &str, &str)] = &[
    ('i', 1, "@use std::fmt as f#;", "`use` items are not allowed within cxx bridge"),
    ('i', 1, "@const K#: u8 = 1;", "unsupported item"),
    ('i', 1, "@static K#: u8 = 1;", "unsupported item"),
    ('i', 1, "@fn k#() {}", "unsupported item"),
    ('i', 1, "enum E# { A, @B(u8) }", "enums with data are not supported yet"),
    ('i', 1, "@enum E#<T> { A }", "enum with generic parameters is not supported"),
    ('i', 1, "@struct E#;", "unit structs are not supported"),
    ('i', 1, "#[derive(Clone, @Banana)] struct D# { x: u8 }", "unsupported derive"),
    ('i', 1, "@#[banana] struct D# { x: u8 }", "unsupported attribute"),
    ('i', 1, "enum E# { A, @B = 1 + 1 }", "enums with non-integer literal discriminants are not supported yet"),
    ('i', 1, "struct E# { ok: u8, x: @[u8; 0] }", "array with zero size is not supported"),
    ('c', 1, "fn e#(x: [u8; @N]);", "array length must be an integer literal"),
    ('c', 1, "@async fn e#();", "async function is not directly supported yet"),
    ('c', 1, "@const fn e#();", "const extern function is not supported"),
    ('c', 1, "fn e#(x: @(u8, u8));", "unsupported type"),
    ('r', 1, "fn e#(x: @dyn Fn());", "unsupported type"),
    ('r', 0, "fn e#(x: u8, y: *@u8);", "expected `const` or `mut`"),
    ('i', 0, "struct E# { x: u8, y @u8 }", "expected `:`"),
    ('i', 0, "enum E# { A = @}", "expected an expression"),
    ('c', 0, "fn e#(x: u8) -> @;", "expected one of"),
    ('c', 0, "banana @e#;", "expected `!`"),
    ('r', 1, "@static E#: u8;", "unsupported foreign item"),
    ('r', 3, "fn e#(x: @Unknown#);", "unsupported type: Unknown#"),
    ('c', 3, "fn e#() -> @Unknown#;", "unsupported type: Unknown#"),
    ('i', 3, "struct E# { a: @Unknown# }", "unsupported type: Unknown#"),
    ('c', 3, "fn e#(a: u8, @x: BadCpp);", "passing opaque C++ type by value is not supported"),
    ('c', 3, "fn e#() -> @BadCpp;", "returning opaque C++ type by value is not supported"),
    ('r', 3, "fn e#(@x: BadRust, y: u8);", "passing opaque Rust type by value is not supported"),
    ('r', 3, "fn e#() -> @BadRust;", "returning opaque Rust type by value is not supported"),
    ('c', 3, "fn e#(@x: CxxString);", "passing C++ string by value is not supported"),
    ('c', 3, "fn e#() -> @CxxString;", "returning C++ string by value is not supported"),
    ('i', 3, "struct E# { ok: u8, @x: BadCpp }", "using opaque C++ type by value is not supported"),
    ('i', 3, "struct E# { ok: u8, @x: BadRust }", "using opaque Rust type by value is not supported"),
    ('i', 3, "@struct E# {}", "structs without any fields are not supported"),
    ('i', 3, "@enum E# {}", "explicit #[repr(...)] is required for enum without any variants"),
    ('c', 3, "fn e#(x: @Box<BadCpp>);", "Box of a C++ type is not supported yet"),
    ('c', 3, "fn e#(x: @UniquePtr<BadRust>);", "unique_ptr of a Rust type is not supported yet"),
    ('c', 3, "fn e#(x: @SharedPtr<BadRust>);", "shared_ptr of a Rust type is not supported yet"),
    ('r', 3, "fn e#(x: @WeakPtr<BadRust>);", "weak_ptr of a Rust type is not supported yet"),
    ('c', 3, "fn e#(x: @Vec<BadCpp>);", "Rust Vec containing C++ type is not supported yet"),
    ('c', 3, "fn e#(x: &@CxxVector<BadRust>);", "C++ vector containing a Rust type is not supported yet"),
    ('c', 3, "fn e#(x: @&mut BadCpp);", "mutable reference to C++ type requires a pin -- use Pin<&mut BadCpp>"),
    ('c', 3, "fn e#(x: @&mut CxxString);", "mutable reference to C++ type requires a pin -- use Pin<&mut CxxString>"),
    ('c', 3, "fn e#(x: @&&u8);", "C++ does not allow references to references"),
    ('c', 3, "fn e#(@x: *const u8);", "pointer argument requires that the function be marked unsafe"),
    ('c', 3, "fn @e__#();", "identifiers containing double underscore are reserved in C++"),
    ('c', 3, "fn @cxxbridge#();", "identifiers starting with cxxbridge are reserved"),
    ('c', 3, "@fn e#(x: &u8) -> &mut u8;", "&mut return type is not allowed unless there is a &mut argument"),
    ('i', 3, "@impl UniquePtr<u8> {}", "unsupported Self type of explicit impl"),
    ('c', 3, "fn e#(@a__b: u8);", "identifiers containing double underscore are reserved in C++"),
    ('i', 3, "struct E# { x: u8, @y__z: u8 }", "identifiers containing double underscore are reserved in C++"),
    ('i', 3, "enum E# { A, @B__C }", "identifiers containing double underscore are reserved in C++"),
    ('r', 3, "#[cxx_name = \"cxxbridge#\"] fn @e#();", "identifiers starting with cxxbridge are reserved"),
    ('c', 3, "#[namespace = @\"a::b__c\"] fn e#();", "identifiers containing double underscore are reserved in C++"),
    ('c', 1, "#[cxx_name = @\"a b\"] fn e#();", "unexpected token"),
    ('r', 1, "#[cxx_name = @\"a\u{200b}b\"] fn e#();", "cannot parse string into token stream"),
    ('c', 1, "#[rust_name = @\"a\u{200b}b\"] fn e#();", "cannot parse string into token stream"),
    ('c', 1, "#[namespace = @\"a::\u{e9} \u{200b}b\"] fn e#();", "cannot parse string into token stream"),
    ('i', 1, "#[repr(u64)] enum E# { A = 18446744073709551615, @B }", "discriminant overflow on value after "),
    ('i', 2, "struct T# { x: u8 } @struct T# { x: u8 }", "the name `T#` is defined multiple times"),
    ('i', 1, "@struct E#(u8);", "tuple structs are not supported"),
    ('i', 1, "struct E#<@T> { x: u8 }", "struct with generic type parameter is not supported yet"),
    ('i', 1, "struct E#<@const N: usize> { x: u8 }", "struct with const generic parameter is not supported yet"),
    ('i', 1, "struct E#<'a, @'b: 'a> { x: &'a u8, y: &'b u8 }", "lifetime parameter with bounds is not supported yet"),
    ('i', 1, "struct E# @where u8: Copy { x: u8 }", "struct with where-clause is not supported yet"),
    ('i', 1, "struct E# @where { x: u8 }", "struct with where-clause is not supported yet"),
    ('i', 1, "enum E# @where u8: Copy { A }", "enum with where-clause is not supported"),
    ('i', 1, "enum E# @where { A }", "enum with where-clause is not supported"),
    ('i', 1, "#[repr(u8)] enum E# { A = 255, @B }", "discriminant value `256` is outside the limits of u8"),
    ('i', 1, "#[repr(i8)] enum E# { @A = -129, B }", "discriminant value `-129` is outside the limits of i8"),
    ('i', 1, "enum E# { A = 1u8, @B = 2u16 }", "expected u8, found u16"),
    ('i', 1, "enum E# { @A = 1banana }", "unrecognized integer suffix: `banana`"),
    ('i', 1, "enum E# { @A = 99999999999999999999 }", "discriminant value outside of supported range"),
    ('i', 1, "@enum E# { A = -1, B = 18446744073709551615 }", "these discriminant values do not fit in any supported enum repr type"),
    ('i', 1, "#[repr(@banana)] enum E# { A }", "unrecognized repr"),
    ('i', 1, "@unsafe extern \"Rust\" { fn e#(); }", "extern \"Rust\" block does not need to be unsafe"),
    ('i', 1, "@extern \"C++\" { fn e#(); }", "block must be declared `unsafe extern \"C++\"` if it contains any safe-to-call C++ functions"),
    ('i', 1, "@extern { fn e#(); }", "ABI name is required, extern \"C++\" or extern \"Rust\""),
    ('i', 1, "unsafe @extern \"C\" { fn e#(); }", "unrecognized ABI, requires either \"C++\" or \"Rust\""),
    ('c', 1, "@fn e#<T>(x: &T);", "extern function with generic parameters is not supported yet"),
    ('r', 1, "@fn e#<'a, 'b: 'a>(x: &'a u8, y: &'b u8);", "extern function with generic parameters is not supported yet"),
    ('c', 1, "fn e#(x: u8, @...);", "variadic function is not supported yet"),
    ('c', 1, "@extern \"C\" fn e#();", "explicit ABI on extern function is not supported"),
    ('c', 1, "fn e#(@self);", "unsupported method receiver"),
    ('r', 1, "fn e#(@self: u8);", "unsupported method receiver"),
    ('c', 1, "fn e#(@(a, b): u8);", "unsupported signature"),
    ('c', 1, "@banana! {}", "unsupported foreign item"),
    ('r', 1, "type E#<@T>;", "extern type with generic type parameter is not supported yet"),
    ('c', 1, "type E#<@const N: usize>;", "extern type with const generic parameter is not supported yet"),
    ('c', 1, "type E#<'a, @'b: 'a>;", "lifetime parameter with bounds is not supported yet"),
    ('r', 1, "@type E# = crate::E#;", "type alias in extern \"Rust\" block is not supported"),
    ('c', 1, "type E#: @Banana;", "unsupported trait"),
    ('c', 1, "type E#: Copy + @?Sized;", "unsupported trait"),
    ('i', 1, "impl UniquePtr<BadCpp> @{ fn e#() {} }", "expected an empty impl block"),
    ('i', 1, "impl @Copy for E# {}", "unexpected impl, expected something like `impl UniquePtr<T> {}`"),
    ('i', 1, "impl UniquePtr<BadCpp> @where u8: Copy {}", "where-clause on an impl is not supported yet"),
    ('i', 1, "impl UniquePtr<BadCpp> @where {}", "where-clause on an impl is not supported yet"),
    ('i', 1, "@impl<T> UniquePtr<T> {}", "generic parameter on an impl is not supported yet"),
    ('c', 1, "include!(@banana);", "expected \"quoted/path/to\" or <bracketed/path/to>"),
    ('c', 1, "include!(<a/@'b'>);", "unexpected token in include path"),
    ('c', 1, "fn e#(x: @cxx::CxxString);", "unexpected `cxx::` qualifier found in a `#[cxx::bridge]`"),
    ('r', 1, "fn e#(x: @&mut str);", "unsupported type"),
    ('r', 1, "fn e#(x: &@std::string::String);", "unsupported type"),
    ('c', 1, "fn e#(x: @UniquePtr<BadCpp, u8>);", "unsupported type"),
    ('c', 1, "fn e#(x: @impl Copy);", "unsupported type"),
    ('c', 1, "fn e#(x: [u8; @\"5\"]);", "array length must be an integer literal"),
    ('c', 1, "fn e#(f: @for<'a> fn(&'a u8));", "function pointer with lifetime parameters is not supported yet"),
    ('c', 1, "fn e#(f: @unsafe extern \"C\" fn(u8, ...));", "variadic function pointer is not supported yet"),
    ('c', 1, "#[@doc = 5] fn e#();", "unsupported doc attribute"),
    ('r', 1, "#[@cxx_name = 5] fn e#();", "unsupported cxx_name attribute"),
    ('c', 1, "#[@rust_name = 5] fn e#();", "unsupported rust_name attribute"),
    ('c', 1, "#[@namespace = 5] fn e#();", "unsupported namespace attribute"),
    ('c', 1, "#[namespace = @\"a::r#type\"] fn e#();", "raw identifier `r#type` is not allowed in a quoted namespace"),
    ('c', 1, "#[cfg(@banana(x))] fn e#();", "unrecognized cfg expression"),
    ('c', 3, "fn e#(x: @Box<Box<u8>>);", "unsupported target type of Box"),
    ('r', 3, "fn e#(x: @Vec<Vec<u8>>);", "unsupported element type of Vec"),
    ('c', 3, "fn e#(x: @UniquePtr<u16>);", "unsupported unique_ptr target type"),
    ('c', 3, "fn e#(x: @SharedPtr<CxxVector<u8>>);", "std::shared_ptr<std::vector> is not supported yet"),
    ('c', 3, "fn e#(x: @WeakPtr<CxxVector<u8>>);", "std::weak_ptr<std::vector> is not supported yet"),
    ('c', 3, "fn e#(x: @SharedPtr<&u8>);", "unsupported shared_ptr target type"),
    ('c', 3, "fn e#(x: @WeakPtr<&u8>);", "unsupported weak_ptr target type"),
    ('c', 3, "fn e#(x: &@CxxVector<Vec<u8>>);", "unsupported vector element type"),
    ('c', 3, "fn e#(x: @&fn());", "unsupported reference type"),
    ('c', 3, "unsafe fn e#(x: @*const &u8);", "C++ does not allow pointer to reference as a type"),
    ('c', 3, "unsafe fn e#(x: @*const fn());", "unsupported pointer type"),
    ('c', 3, "fn e#(x: @&[BadCpp]);", "unsupported &[T] element type: opaque C++ type is not supported yet"),
    ('r', 3, "fn e#(x: @&mut [BadCpp]);", "unsupported &mut [T] element type: opaque C++ type is not supported yet"),
    ('c', 3, "fn e#(x: &@[BadCpp; 2]);", "unsupported array element type"),
    ('c', 3, "fn e#(f: @fn() -> Result<()>);", "function pointer returning Result is not supported yet"),
    ('c', 3, "fn e#(f: fn(@x: *const u8));", "pointer argument requires that the function pointer be marked unsafe"),
    ('i', 3, "#[derive(@ExternType)] struct E# { x: u8 }", "derive(ExternType) on shared struct is not supported"),
    ('i', 3, "#[derive(Clone, @ExternType)] enum E# { A }", "derive(ExternType) on shared enum is not supported"),
    ('i', 3, "struct X# { x: u8 } extern \"C++\" { @type X#; }", "extern shared struct must be declared in an `unsafe extern` block"),
    ('i', 3, "#[derive(@Default)] enum E# { A }", "derive(Default) on shared enum is not supported"),
    ('i', 3, "struct E# { x: u8, @f: fn() }", "function pointers in a struct field are not implemented yet"),
    ('c', 3, "#[derive(Debug, @Clone)] type E#;", "derive(Clone) on opaque C++ type is not supported yet"),
    ('r', 3, "#[derive(ExternType, @Clone)] type E#;", "derive(Clone) on opaque Rust type is not supported yet"),
    ('c', 3, "#[derive(@Clone)] type E# = crate::E#;", "derive(Clone) on extern type alias is not supported"),
    ('c', 3, "type E#: @Copy;", "extern type bounds are not implemented yet"),
    ('i', 3, "unsafe extern \"C++\" { @type X#; fn x#(x: &[X#]); }", "needs a cxx::ExternType impl in order to be used as a slice element in &[X#]"),
    ('i', 3, "extern \"C++\" { @unsafe fn e#<'a>(x: &'a u8); }", "extern C++ function with lifetimes must be declared in `unsafe extern \"C++\"` block"),
    ('r', 3, "@fn e#<'a>(x: &'a u8);", "must be `unsafe fn e#` in order to expose explicit lifetimes to C++"),
    ('i', 3, "unsafe extern \"C++\" { fn e#(@&self); }", "unnamed receiver type is only allowed if the surrounding extern block contains exactly one extern type; use `self: &TheType`"),
    ('i', 3, "extern \"Rust\" { type A#; type B#; fn e#(@&mut self); }", "unnamed receiver type is only allowed if the surrounding extern block contains exactly one extern type; use `self: &mut TheType`"),
    ('i', 3, "enum V# { A } unsafe extern \"C++\" { fn e#(self: @&V#); }", "unsupported receiver type; C++ does not allow member functions on enums"),
    ('c', 3, "fn e#(self: @&CxxString);", "unrecognized receiver type"),
    ('r', 3, "fn e#(self: @&Unheard#);", "unrecognized receiver type"),
    ('c', 3, "fn e#(self: @&mut BadCpp);", "mutable reference to opaque C++ type requires a pin -- use `self: Pin<&mut BadCpp>`"),
    ('r', 3, "fn e#(x: u8, @f: fn());", "passing a function pointer from C++ to Rust is not implemented yet"),
    ('c', 3, "fn e#() -> @fn();", "returning a function pointer is not implemented yet"),
    ('c', 3, "fn e#() -> @[BadCpp; 3];", "unsupported array element type"),
    ('i', 0, "impl @!UniquePtr<BadCpp> {}", "inherent impls cannot be negative"),
    ('i', 3, "struct E#<@'static> { x: u8 }", "invalid lifetime parameter name: `'static`"),
    ('i', 3, "struct @WeakPtr { x: u8 }", "reserved name"),
    ('c', 3, "type @Box;", "reserved name"),
    ('i', 2, "enum T# { A } @enum T# { A }", "the name `T#` is defined multiple times"),
    ('i', 2, "struct T# { x: u8 } @enum T# { A }", "the name `T#` is defined multiple times"),
    ('r', 2, "type T#; @type T#;", "the name `T#` is defined multiple times"),
    ('c', 2, "type T#; @type T#;", "the name `T#` is defined multiple times"),
    ('c', 2, "fn t#(); @fn t#(x: u8);", "the name `t#` is defined multiple times"),
    ('c', 2, "fn t#(self: &BadCpp); @fn t#(self: &BadCpp, x: u8);", "the name `t#` is defined multiple times"),
    ('c', 2, "type T# = crate::T#; @type T# = crate::T#;", "the name `T#` is defined multiple times"),
];
const TYPES: &[&str] = &["Box<BadCpp>", "UniquePtr<BadRust>", "SharedPtr<BadRust>", "WeakPtr<BadRust>", "Vec<BadCpp>", "CxxVector<BadRust>", "&mut BadCpp", "&mut CxxString", "&&u8", "Box<Box<u8>>", "Vec<Vec<u8>>", "UniquePtr<u16>", "SharedPtr<CxxVector<u8>>",
    "WeakPtr<CxxVector<u8>>", "SharedPtr<&u8>", "WeakPtr<&u8>", "CxxVector<Vec<u8>>", "&fn()", "*const &u8", "*const fn()", "&[BadCpp]", "&mut [BadCpp]", "[BadCpp; 2]", "[BadCpp; 3]", "fn() -> Result<()>"];
pub struct Told {
    pub line: usize,
    pub col: usize,
    pub msg: String,
}
/// Text that stands before or after something without meaning anything.
fn nothing(o: &mut String, r: &mut Rng) {
    const S: &[&str] = &[" ", "  ", "\t", "\n", "\n\n    ", "/* */", "/* \u{e9}t\u{e9} */", "/*\u{4e16}\u{754c}*/ ", "/* \u{1f980}\u{1f980} */", "\r\n", "/* a\n   b */ ", "// \u{3b1}\u{3b2}\u{3b3} (\n", "#[doc = \"\u{e9}\"] ", "/// of it \u{2014}\n"];
    for _ in 0..r.below(4) {
        let s = *r.pick(S);
        // what documents something must be followed by it
        if !s.contains("doc") && !s.starts_with("///") {
            o.push_str(s);
        }
    }
}
fn numbered(t: &str, n: &str) -> String {
    t.replace("#[", "\u{1}").replace("r#type", "\u{2}").replace('#', n).replace('\u{1}', "#[").replace('\u{2}', "r#type")
}
/// A source with declarations that are ruled out, and what must be said about them.
/// (and the line from which on there is nothing else)
pub fn rejected(seed: u64) -> (String, Vec<Told>, usize) {
    let mut r = Rng::new(0x4e1e, seed);
    let r = &mut r;
    let mut o = if r.one_in(2) { good(r.below(100_000), true) } else { String::new() };
    if r.one_in(6) {
        o = o.replace('\n', "\r\n");
    }
    let from = o.matches('\n').count() + 1;
    nothing(&mut o, r);
    o.push_str("#[cxx::bridge]\nmod bad {");
    let mut told: Vec<(u8, usize, String)> = vec![];
    let mut blocks: Vec<char> = vec!['R', 'C'];
    for _ in 0..r.range(1, 4) {
        blocks.push(*r.pick(&['i', 'r', 'c', 'i']));
    }
    r.shuffle(&mut blocks);
    let mut once: Vec<&str> = vec![];
    let mut k = 0;
    let early = *r.pick(&[0, 1, 1, 1, 1, 2, 2]);
    for b in blocks {
        nothing(&mut o, r);
        match b {
            'R' => o.push_str("extern \"Rust\" { type BadRust; }"),
            'C' => o.push_str("unsafe extern \"C++\" { type BadCpp; }"),
            'r' => o.push_str("extern \"Rust\" {"),
            'c' => o.push_str("unsafe extern \"C++\" {"),
            _ => {}
        }
        if "RC".contains(b) {
            continue;
        }
        for _ in 0..r.range(1, 3) {
            // (what has no number can be there once)
            let l: Vec<_> = REJECTED.iter().filter(|x| x.0 == b && (early == 0 || x.1 > early) && !once.contains(&x.2)).collect();
            let x = *r.pick(&l);
            if x.3 == "reserved name" {
                once.push(x.2);
            }
            nothing(&mut o, r);
            let n = k.to_string();
            k += 1;
            // (an attribute has its own sign)
            let t = numbered(x.2, &n);
            let at = t.find('@').unwrap();
            told.push((x.1, o.len() + at, numbered(x.3, &n)));
            o.push_str(&t.replace('@', ""));
        }
        nothing(&mut o, r);
        if "rc".contains(b) {
            o.push('}');
        }
    }
    nothing(&mut o, r);
    o.push('}');
    if r.one_in(2) {
        o.push('\n');
    }
    // what is wrong early keeps the rest from being looked at
    let first = told.iter().map(|x| x.0).min().unwrap_or(0);
    told.retain(|x| x.0 == first);
    if first == 0 {
        told.truncate(1);
    }
    // a type is looked at once
    let mut seen: Vec<&str> = vec![];
    told.retain(|x| {
        let t = TYPES.iter().find(|t| o[x.1..].starts_with(**t));
        let old = t.is_some_and(|t| seen.contains(t));
        seen.extend(t);
        !old
    });
    let list = told
        .into_iter()
        .map(|(_, at, msg)| {
            let line = o[..at].matches('\n').count() + 1;
            let col = o[o[..at].rfind('\n').map_or(0, |i| i + 1)..at].chars().count();
            Told { line, col, msg }
        })
        .collect();
    (o, list, from)
}
/// What is left of a source after an accident.
fn damaged(seed: u64) -> Vec<u8> {
    let mut r = Rng::new(0xdaa6, seed);
    let r = &mut r;
    let mut t = if r.one_in(3) { rejected(r.below(100_000)).0 } else { good(r.below(100_000), true) };
    // an unusual but harmless form of it
    match r.below(10) {
        0 => t = t.replace('\n', "\r\n"),
        1 => t = t.replace("    ", "\t"),
        2 => t = t.replace("\n    ", "\n/* \u{e9}\u{4e16}\u{1f980} */"),
        3 => t = t.trim_end().to_owned(),
        4 => t = format!("#!/bin/sh \u{e9}\n{t}"),
        5 => t = t.replace('\n', " ").replace("///", "//").replace("//", "/*").replace("*/", ""),
        _ => {}
    }
    let mut b = t.into_bytes();
    for _ in 0..*r.pick(&[0, 1, 1, 1, 1, 2, 3]) {
        let n = b.len() as u64;
        if n < 4 {
            break;
        }
        let a = r.below(n) as usize;
        let len = *r.pick(&[3, 40, 512]);
        let e = (a + 1 + r.below(len) as usize).min(b.len());
        match r.below(14) {
            0 | 1 => b.truncate(a),
            2 => b[a..e].fill(0),
            3 => {
                // a block of something else
                let s = good(r.below(100_000), true).into_bytes();
                for (i, x) in s.into_iter().cycle().skip(a % 97).take(e - a).enumerate() {
                    b[a + i] = x;
                }
            }
            4 => b[a] ^= 1 << r.below(8),
            5 => {
                let s = b[a..e].to_vec();
                b.splice(e..e, s);
            }
            6 | 7 => {
                b.drain(a..e);
            }
            8 => b.truncate(0),
            9 => {
                // brackets and punctuation
                let l: Vec<usize> = (0..b.len()).filter(|i| b"{}()[]<>,;:&#\"'!=".contains(&b[*i])).collect();
                if let Some(i) = l.get(r.below(l.len().max(1) as u64) as usize) {
                    match r.below(3) {
                        0 => {
                            b.remove(*i);
                        }
                        1 => b.insert(*i, *r.pick(b"{}()[]<>,;:&#\"'!=")),
                        _ => b[*i] = *r.pick(b"{}()[]<>,;:&#\"'!="),
                    }
                }
            }
            10 | 11 => {
                // a word
                let w = |i: usize, b: &[u8]| b[i].is_ascii_alphanumeric() || b[i] == b'_';
                let l: Vec<usize> = (0..b.len()).filter(|i| w(*i, &b) && (*i == 0 || !w(*i - 1, &b))).collect();
                if let Some(i) = l.get(r.below(l.len().max(1) as u64) as usize).copied() {
                    let e = (i..b.len()).find(|j| !w(*j, &b)).unwrap_or(b.len());
                    let s = r.pick(&["", "fn", "type", "Unknown", "\u{e9}", "u8", "&mut u8", "'a", "unsafe", "crate", "Result<u8>", "0", "r#mod", "Box<Box<u8>>", "\"s\"", "'\u{4e16}'", "dyn X", "_", "self"]).as_bytes().to_vec();
                    b.splice(i..e, s);
                }
            }
            12 => {
                b.splice(a..a, "/* \u{1f980} ".bytes());
            }
            _ => {
                b.splice(a..a, r.pick(&["\r", "\u{feff}", "\u{2028}", "\\", "`", "$", "\u{1f980}", "\u{ff10}", "\0", "\u{200b}"]).bytes());
            }
        }
    }
    // build scripts have a rule about these that the other programs do not have
    let mut i = 0;
    while i + 1 < b.len() {
        if b[i] == b'.' && b[i + 1] == b'/' {
            b[i] = b'x';
        }
        i += 1;
    }
    b
}

/// Modules around a bridge: what is written before and after it.
fn around(r: &mut Rng, m: u64) -> (String, String) {
    let (mut a, mut b) = (String::new(), String::new());
    if r.one_in(5) {
        for d in 0..r.range(1, 4) {
            let _ = writeln!(a, "{}mod outer{m}{d} {{", r.pick(&["", "pub ", "#[allow(dead_code)]\n", "pub(crate) "]));
            if r.one_in(2) {
                let _ = writeln!(a, "    use super::*;\n    pub struct NotInTheBridge{d};");
            }
            b.push_str("}\n");
        }
    }
    (a, b)
}
fn good(seed: u64, nest: bool) -> String {
    let mut r = Rng::new(0x50c0, seed);
    let r = &mut r;
    let mut o = String::new();
    if r.one_in(12) {
        o.push_str("#!/usr/bin/env run\n");
    } else if r.one_in(12) {
        o.push_str("#![allow(\n    dead_code,\n)]\n");
    }
    let _ = writeln!(o, "//! generated bridge {seed}");
    let nmods = if r.one_in(6) { r.range(2, 4) } else { 1 };
    for m in 0..nmods {
        let (a, b) = around(&mut Rng::new(0x0e57, seed * 2 + m), m);
        if nest {
            o.push_str(&a);
        }
        module(&mut o, r, seed, m);
        if nest {
            o.push_str(&b);
        }
    }
    if r.one_in(3) {
        o.push_str("\nfn main() { println!(\"not part of the bridge\"); }\n");
    }
    o
}
const PRIMS: &[&str] = &["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64", "bool"];
fn module(o: &mut String, r: &mut Rng, seed: u64, m: u64) {
    let ns = r.one_in(2);
    let _ = writeln!(o, "#[cxx::bridge{}]\nmod ffi{m} {{", if ns { format!("(namespace = \"{}\")", r.pick(&["org", "org::x", "a::b::c"])) } else { String::new() });
    let p = format!("M{m}"); // names are unique across modules
    let mut structs: Vec<String> = vec![];
    let mut enums: Vec<String> = vec![];
    let mut rust: Vec<String> = vec![];
    let mut cpp: Vec<String> = vec![];
    for i in 0..r.below(4) {
        rust.push(format!("{p}Rust{i}"));
    }
    for i in 0..r.below(4) {
        cpp.push(format!("{p}Cpp{i}"));
    }
    for i in 0..r.below(3) {
        let n = format!("{p}Enum{i}");
        doc(o, r, "    ");
        if r.one_in(4) {
            let _ = writeln!(o, "    #[namespace = \"en::e{i}\"]");
        }
        if r.one_in(3) {
            o.push_str("    #[derive(Hash)]\n");
        }
        let mut max = u32::MAX as u64;
        if r.one_in(3) {
            let t = *r.pick(&["u8", "u16", "u32", "u64"]);
            if t == "u8" {
                max = 120;
            }
            if t == "u16" {
                max = 60000;
            }
            let _ = writeln!(o, "    #[repr({t})]");
        }
        let _ = writeln!(o, "    enum {n} {{");
        let mut next = 0;
        for k in 0..=r.below(6) {
            if r.one_in(3) {
                next += r.below(20);
                let _ = writeln!(o, "        V{k} = {next},");
            } else {
                let _ = writeln!(o, "        V{k},");
            }
            next = (next + 1).min(max);
        }
        o.push_str("    }\n\n");
        enums.push(n);
    }
    for i in 0..r.below(5) {
        let n = format!("{p}Struct{i}");
        doc(o, r, "    ");
        if r.one_in(5) {
            let _ = writeln!(o, "    #[namespace = \"st\"]");
        }
        if r.one_in(5) {
            let _ = writeln!(o, "    #[cxx_name = \"{n}InCpp\"]");
        }
        let plain = r.one_in(2);
        if plain && r.one_in(2) {
            let d = *r.pick(&["Clone", "Clone, Copy", "Debug, PartialEq", "PartialEq, PartialOrd, Clone", "Hash, PartialEq, Eq"]);
            let _ = writeln!(o, "    #[derive({d})]");
        }
        let _ = writeln!(o, "    struct {n} {{");
        for k in 0..=r.below(5) {
            let ints: &[&str] = &["u8", "u32", "i64", "usize", "bool"];
            let t = if plain { (*r.pick(ints)).to_owned() } else { field(r, &structs, &enums, &rust, &cpp) };
            if r.one_in(10) {
                doc(o, r, "        ");
            }
            let _ = writeln!(o, "        f{k}: {t},");
        }
        o.push_str("    }\n\n");
        structs.push(n);
    }
    // functions use the types in any order
    if !rust.is_empty() || r.one_in(2) {
        o.push_str("    extern \"Rust\" {\n");
        for t in &rust {
            doc(o, r, "        ");
            let _ = writeln!(o, "        type {t};");
        }
        for i in 0..r.below(6) {
            function(o, r, &format!("{}rust_fn{i}", p.to_lowercase()), &structs, &enums, &rust, &cpp, &rust);
        }
        o.push_str("    }\n\n");
    }
    let us = if r.one_in(20) { "extern" } else { "unsafe extern" };
    let _ = writeln!(o, "    {us} \"C++\" {{");
    for _ in 0..r.below(4) {
        let _ = writeln!(o, "        include!({});", r.pick(&["\"demo/include/a.h\"", "\"b.hpp\"", "<vector>", "\"rust/cxx.h\"", "<sys/types.h>", "\"demo/src/lib.rs.h\""]));
    }
    for t in &cpp {
        doc(o, r, "        ");
        if r.one_in(6) {
            let _ = writeln!(o, "        #[namespace = \"cc\"]");
        }
        if r.one_in(6) {
            let _ = writeln!(o, "        #[cxx_name = \"{t}Renamed\"]");
        }
        let _ = writeln!(o, "        type {t};");
    }
    for i in 0..r.below(8) {
        function(o, r, &format!("{}cpp_fn{i}", p.to_lowercase()), &structs, &enums, &rust, &cpp, &cpp);
    }
    o.push_str("    }\n");
    for t in &rust {
        if r.one_in(3) {
            let _ = writeln!(o, "    impl Vec<{t}> {{}}");
        }
        if r.one_in(4) {
            let _ = writeln!(o, "    impl Box<{t}> {{}}");
        }
    }
    for t in &cpp {
        for w in ["UniquePtr", "SharedPtr", "WeakPtr", "CxxVector"] {
            if r.one_in(5) {
                let _ = writeln!(o, "    impl {w}<{t}> {{}}");
            }
        }
    }
    let _ = seed;
    o.push_str("}\n\n");
}
fn doc(o: &mut String, r: &mut Rng, ind: &str) {
    if r.one_in(6) {
        let _ = writeln!(o, "{ind}/// Documentation of one line: {}", r.below(100));
    } else if r.one_in(4) {
        let _ = writeln!(o, "{ind}/// Documentation with <tags>, *marks* and `code` {}.\n{ind}///\n{ind}/// * a list", r.below(100));
    }
}
fn field(r: &mut Rng, s: &[String], e: &[String], ru: &[String], c: &[String]) -> String {
    loop {
        return match r.below(9) {
            0 => "String".into(),
            1 => format!("Vec<{}>", r.pick(PRIMS)),
            2 if !e.is_empty() => r.pick(e).clone(),
            3 if !s.is_empty() => r.pick(s).clone(),
            4 if !ru.is_empty() => format!("Box<{}>", r.pick(ru)),
            5 if !c.is_empty() => format!("{}<{}>", r.pick(&["UniquePtr", "SharedPtr", "WeakPtr"]), r.pick(c)),
            6 => format!("[{}; {}]", r.pick(PRIMS), r.range(1, 9)),
            7 => "UniquePtr<CxxString>".into(),
            8 => (*r.pick(PRIMS)).into(),
            _ => continue,
        };
    }
}
fn arg(r: &mut Rng, s: &[String], e: &[String], ru: &[String], c: &[String]) -> String {
    loop {
        return match r.below(20) {
            0 => (*r.pick(PRIMS)).into(),
            1 => (*r.pick(&["&str", "String", "&String", "&mut String", "&CxxString", "Pin<&mut CxxString>"])).into(),
            2 => format!("&[{}]", r.pick(PRIMS)),
            3 => format!("&mut [{}]", r.pick(PRIMS)),
            4 => format!("Vec<{}>", r.pick(PRIMS)),
            5 => format!("&Vec<{}>", r.pick(PRIMS)),
            6 => (*r.pick(&["Vec<String>", "&Vec<String>", "&[String]", "UniquePtr<CxxString>", "&CxxVector<CxxString>", "UniquePtr<CxxVector<CxxString>>"])).into(),
            7 => format!("&CxxVector<{}>", r.pick(PRIMS)),
            8 => format!("UniquePtr<CxxVector<{}>>", r.pick(PRIMS)),
            9 if !s.is_empty() => r.pick(s).clone(),
            10 if !s.is_empty() => format!("{}{}", r.pick(&["&", "&mut "]), r.pick(s)),
            11 if !s.is_empty() => format!("{}<{}>", r.pick(&["Vec", "&Vec", "SharedPtr", "UniquePtr"]), r.pick(s)),
            12 if !e.is_empty() => r.pick(e).clone(),
            13 if !ru.is_empty() => format!("{}{}", r.pick(&["&", "&mut "]), r.pick(ru)),
            14 if !ru.is_empty() => format!("{}<{}>", r.pick(&["Box", "Vec", "&Vec"]), r.pick(ru)),
            15 if !c.is_empty() => format!("&{}", r.pick(c)),
            16 if !c.is_empty() => format!("Pin<&mut {}>", r.pick(c)),
            17 if !c.is_empty() => format!("{}<{}>", r.pick(&["UniquePtr", "SharedPtr", "WeakPtr", "&UniquePtr", "&CxxVector"]), r.pick(c)),
            18 if !c.is_empty() => format!("UniquePtr<CxxVector<{}>>", r.pick(c)),
            19 if !s.is_empty() => format!("[{}; {}]", r.pick(s), r.range(1, 4)),
            _ => continue,
        };
    }
}
fn function(o: &mut String, r: &mut Rng, name: &str, s: &[String], e: &[String], ru: &[String], c: &[String], selfs: &[String]) {
    doc(o, r, "        ");
    if r.one_in(8) {
        let _ = writeln!(o, "        #[cxx_name = \"{name}InCpp\"]");
    } else if r.one_in(8) {
        let _ = writeln!(o, "        #[rust_name = \"{name}_in_rust\"]");
    }
    if r.one_in(10) {
        let _ = writeln!(o, "        #[namespace = \"fns\"]");
    }
    let mut args: Vec<String> = vec![];
    let me = !selfs.is_empty() && r.one_in(3);
    if me {
        let t = r.pick(selfs).clone();
        let rust = t.contains("Rust");
        args.push(if r.one_in(2) {
            format!("self: &{t}")
        } else if rust {
            format!("self: &mut {t}")
        } else {
            format!("self: Pin<&mut {t}>")
        });
    }
    let refs = args.iter().filter(|a| a.contains('&')).count();
    for k in 0..r.below(4) {
        args.push(format!("a{k}: {}", arg(r, s, e, ru, c)));
    }
    let ret = if r.one_in(3) {
        String::new()
    } else {
        let t = loop {
            let t = arg(r, s, e, ru, c);
            if !t.contains('&') {
                break t;
            }
            // a reference needs exactly one reference to take its lifetime from
            let nref = args.iter().filter(|a| a.contains('&')).count();
            if nref == 1 && refs <= 1 && t.matches('&').count() == 1 && !t.contains("mut") {
                break t;
            }
        };
        match r.below(3) {
            0 => format!(" -> Result<{t}>"),
            _ => format!(" -> {t}"),
        }
    };
    let _ = writeln!(o, "        fn {name}({}){ret};", args.join(", "));
}

/// What decides cfg attributes: cargo's variables, or the flags of the command line program.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Env {
    pub names: Vec<(String, bool)>,
    pub values: Vec<(String, String)>,
    pub strict: bool, // names without a flag are an error
}
impl Env {
    pub fn key(&self) -> String {
        format!("{self:?}")
    }
    fn leaf(&self, name: &str, value: Option<&str>) -> Option<bool> {
        if !self.strict && value.is_none() {
            // Cargo runs the build script once for test and other builds; a feature is one by name
            match name {
                "test" | "feature" => return None,
                "debug_assertions" => return Some(true), // as the simulated build scripts are built
                _ => {}
            }
        }
        match value {
            Some(v) => {
                if self.values.iter().any(|x| x.0 == name && x.1 == v) {
                    return Some(true);
                }
                let known = self.values.iter().any(|x| x.0 == name) || self.names.iter().any(|x| x.0 == name);
                if self.strict && name != "feature" && !known { None } else { Some(false) }
            }
            None => {
                let mut said: Vec<bool> = self.names.iter().filter(|x| x.0 == name).map(|x| x.1).collect();
                said.dedup();
                if !said.is_empty() {
                    // (what contradicts itself decides nothing)
                    return if said.len() == 1 { Some(said[0]) } else { None };
                }
                if self.strict {
                    return None;
                }
                // cargo: a name with values is also set
                Some(self.values.iter().any(|x| x.0 == name))
            }
        }
    }
    /// Whether a reference result depended on this.
    pub fn used(&self, r: &crate::nodes::Ref) -> bool {
        r.conditional
    }
}
const LEAVES: &[(&str, Option<&str>)] = &[
    ("feature", Some("a")),
    ("feature", Some("b")),
    ("feature", Some("long-name")),
    ("feature", Some("snake_name")),
    ("feature", Some("a1")),
    ("unix", None),
    ("windows", None),
    ("target_os", Some("linux")),
    ("target_os", Some("windows")),
    ("target_feature", Some("sse2")),
    ("target_feature", Some("avx512f")),
    ("target_feature", Some("sse")),
    ("target_pointer_width", Some("64")),
    ("custom", None),
    ("custom_key", Some("v1")),
    ("custom_key", Some("v2")),
    ("custom_key", Some("v")),
    ("target_feature", Some("ss")),
    ("custom", Some("v9")),
    ("debug_assertions", None),
    ("debug_assertions", Some("x")),
    ("test", Some("x")),
    // (the last two: never decided by Cargo)
    ("test", None),
    ("feature", None),
];
struct Cond<'a> {
    r: Rng,
    odd: usize, // leaves not used
    env: Option<&'a Env>,
    bad: bool,
    off: bool, // the last item's own conditions rule it out
}
impl Cond<'_> {
    /// An expression, and its value: None when it cannot be decided.
    fn expr(&mut self, depth: u32) -> (String, Option<bool>) {
        let none = Env::default();
        match if depth == 0 { 9 } else { self.r.below(10) } {
            0 | 1 => {
                let (e, v) = self.expr(depth - 1);
                (format!("not({e})"), v.map(|b| !b))
            }
            k @ 2..=5 => {
                let all = k < 4;
                let n = if self.r.one_in(6) { self.r.range(4, 7) } else { self.r.below(4) };
                let depth = if n > 3 { 1 } else { depth };
                let mut t = vec![];
                let mut vs = vec![];
                for _ in 0..n {
                    let (e, v) = self.expr(depth - 1);
                    t.push(e);
                    vs.push(v);
                }
                let v = if vs.iter().any(|v| *v == Some(!all)) {
                    Some(!all)
                } else if vs.iter().any(|v| v.is_none()) {
                    None
                } else {
                    Some(all)
                };
                let comma = if !t.is_empty() && self.r.one_in(5) { "," } else { "" };
                (format!("{}({}{comma})", if all { "all" } else { "any" }, t.join(", ")), v)
            }
            _ => {
                let (n, v) = *self.r.pick(&LEAVES[..LEAVES.len() - self.odd]);
                let b = self.env.unwrap_or(&none).leaf(n, v);
                let lit = |v: &str| match self.r.0 % 8 {
                    0 => format!("{n} = r\"{v}\""),
                    1 => format!("{n}=r#\"{v}\"#"),
                    2 => format!("{n} = \"\\x{:02x}{}\"", v.as_bytes()[0], &v[1..]),
                    _ => format!("{n} = \"{v}\""),
                };
                (v.map_or(n.to_owned(), lit), b)
            }
        }
    }
    /// Adds an item under a condition or without one. `live`: whether what contains it is there at all.
    fn item(&mut self, o: &mut String, often: u64, ind: &str, live: bool, text: &str) -> bool {
        let mut on = true;
        let mut attrs = String::new();
        self.off = false;
        if self.r.one_in(often) {
            let mut vs = vec![];
            for _ in 0..if self.r.one_in(5) { 2 } else { 1 } {
                let (e, v) = self.expr(3);
                attrs.push_str(&format!("{ind}#[cfg({e})]\n"));
                vs.push(v);
            }
            // several attributes: all must hold
            on = vs.iter().all(|v| *v == Some(true));
            self.off = vs.contains(&Some(false));
            self.bad |= live && !on && !self.off;
        }
        if self.env.is_none() || on {
            // (several items under the same condition)
            for t in text.split('\x01') {
                if self.env.is_none() {
                    o.push_str(&attrs);
                }
                o.push_str(t);
            }
        }
        on
    }
    /// One of two items, depending on a condition.
    fn either(&mut self, o: &mut String, ind: &str, live: bool, yes: &str, no: &str) {
        let (e, v) = self.expr(2);
        self.bad |= live && v.is_none();
        if self.env.is_none() {
            o.push_str(&format!("{ind}#[cfg({e})]\n{yes}{ind}#[cfg(not({e}))]\n{no}"));
        } else {
            o.push_str(if v == Some(true) { yes } else { no });
        }
    }
}
/// With an environment: the same source with every cfg decided; and whether one could not be.
pub fn conditional(seed: u64, env: Option<&Env>) -> (String, bool) {
    let mut c = Cond { r: Rng::new(0xcf6, seed), odd: if seed % 4 == 1 { 0 } else { 2 }, env, bad: false, off: false };
    let mut o = String::new();
    for m in 0..if c.r.one_in(3) { c.r.range(2, 3) } else { 1 } {
        let (before, after) = around(&mut Rng::new(0x0e58, seed * 2 + m), m);
        if env.is_none() {
            o.push_str(&before);
        }
        // (above the attribute that makes it one, below, or both)
        let (mut attr, mut below) = (String::new(), String::new());
        let bad = c.bad;
        let mut on = c.item(&mut attr, 5, "", true, "");
        let off = c.off;
        on &= c.item(&mut below, 8, "", true, "");
        let mut off = off || c.off;
        // (or inside)
        let mut inner = String::new();
        on &= c.item(&mut inner, 10, "    ", true, "");
        off |= c.off;
        if off {
            c.bad = bad; // ruled out by one of them
        }
        let inner = inner.replace("#[cfg", "#![cfg");
        let _ = writeln!(o, "{attr}#[cxx::bridge]\n{below}mod ffi{m} {{\n{inner}");
        let mut b = String::new();
        for i in 0..c.r.below(3) {
            let bad = c.bad;
            // (fields are conditional, so types nobody else mentions)
            let mut t = format!("    struct S{m}{i} {{\n        x: u8,\n");
            for k in 0..c.r.below(4) {
                let ty = *c.r.pick(PRIMS);
                c.item(&mut t, 2, "        ", on, &format!("        f{k}: {ty},\n"));
            }
            t.push_str("    }\n");
            let inner = c.bad;
            c.bad = bad;
            if c.item(&mut b, 4, "    ", on, &t) {
                c.bad |= inner;
            }
        }
        for i in 0..c.r.below(3) {
            let bad = c.bad;
            let mut t = format!("    enum E{m}{i} {{\n        V = 0,\n");
            for k in 0..c.r.below(4) {
                c.item(&mut t, 2, "        ", on, &format!("        V{k} = {},\n", (k + 1) * 3));
            }
            t.push_str("    }\n");
            let inner = c.bad;
            c.bad = bad;
            if c.item(&mut b, 4, "    ", on, &t) {
                c.bad |= inner;
            }
        }
        let _ = writeln!(b, "    struct P{m} {{\n        x: u8,\n    }}");
        if c.r.one_in(3) {
            c.either(&mut b, "    ", on, &format!("    struct D{m} {{\n        x: u8,\n    }}\n"), &format!("    enum D{m} {{\n        X,\n    }}\n"));
        }
        for (rust, abi) in [(true, "extern \"Rust\""), (false, "unsafe extern \"C++\"")] {
            // a condition on the whole block counts for everything in it, one by one
            let mut attr = String::new();
            let outer = c.bad;
            let open = c.item(&mut attr, 5, "    ", on, "");
            let undecided = c.bad && !outer;
            c.bad = outer;
            b.push_str(&attr);
            let _ = writeln!(b, "    {abi} {{");
            let inside = c.bad;
            let mut t = String::new();
            let on = on && open;
            let mut some = false;
            if c.r.one_in(3) {
                c.either(&mut t, "        ", on, &format!("        fn d{}{m}(a: u8);\n", rust as u8), &format!("        fn d{}{m}(a: u16, b: u32) -> u8;\n", rust as u8));
                some = true;
            }
            for i in 0..c.r.below(3) {
                let n = format!("T{}{m}{i}", rust as u8);
                c.item(&mut t, 3, "        ", on, &format!("        type {n};\n"));
                some |= !c.off;
            }
            if !rust {
                for i in 0..c.r.below(2) {
                    c.item(&mut t, 2, "        ", on, &format!("        type A{m}{i} = crate::elsewhere::A{m}{i};\n\x01        fn alias{m}{i}(a: A{m}{i});\n"));
                    some |= !c.off;
                }
            }
            if !rust {
                for _ in 0..c.r.below(2) {
                    let h = *c.r.pick(&["\"x.h\"", "<y>", "\"z/w.hpp\""]);
                    c.item(&mut t, 2, "        ", on, &format!("        include!({h});\n"));
                    some |= !c.off;
                }
            }
            for i in 0..c.r.below(5) {
                let ty = *c.r.pick(PRIMS);
                c.item(&mut t, 2, "        ", on, &format!("        fn f{}{m}{i}(a: {ty}) -> {ty};\n", rust as u8));
                some |= !c.off;
            }
            c.bad = inside || on && c.bad || undecided && some;
            if env.is_none() || on {
                b.push_str(&t);
            }
            b.push_str("    }\n");
        }
        // (of a type that is always there)
        for k in 0..c.r.below(5) {
            c.item(&mut b, 2, "    ", on, &format!("    impl {}<P{m}> {{}}\n", ["Vec", "SharedPtr", "UniquePtr", "CxxVector"][k as usize]));
        }
        if env.is_none() || on {
            o.push_str(&b);
        }
        o.push_str("}\n\n");
        if env.is_none() {
            o.push_str(&after);
        }
    }
    (o, c.bad)
}
