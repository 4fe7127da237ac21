//! Generates the schemas the checks run on: invocations of the repository's own macros together with an
//! independent description of every struct, index, variadic type and archive (see src/model.rs).
//! Fixed edge cases come first; the rest is drawn from VERIF_SEED.
use std::fmt::Write as _;
use std::{env, fs, path::PathBuf};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize].clone()
    }
}

#[derive(Clone)]
struct Field {
    name: String,
    ty: &'static str,
    offset: usize,
    width: usize,
    variants: Vec<(String, i64)>,
}
#[derive(Clone)]
struct St {
    name: String,
    size: usize,
    fields: Vec<Field>,
}

fn bits(ty: &str) -> usize {
    match ty {
        "bool" | "u8" | "i8" => 8,
        "u16" | "i16" => 16,
        "u32" | "i32" => 32,
        _ => 64,
    }
}

fn f(name: &str, ty: &'static str, offset: usize, width: usize) -> Field {
    Field { name: name.into(), ty, offset, width, variants: vec![] }
}

fn fixed_structs() -> Vec<St> {
    let st = |name: &str, size, fields: Vec<Field>| St { name: name.into(), size, fields };
    let en = |name: &str, ty, offset, width, vs: &[(&str, i64)]| Field {
        name: name.into(),
        ty,
        offset,
        width,
        variants: vs.iter().map(|(a, b)| (a.to_string(), *b)).collect(),
    };
    vec![
        st("OneByte", 1, vec![f("a", "u8", 0, 8)]),
        st("BitsByte", 1, vec![f("a", "bool", 0, 1), f("b", "u8", 1, 3), f("c", "i8", 4, 4)]),
        st("Wide9", 9, vec![f("lo", "u8", 0, 3), f("x", "u64", 3, 64), f("hi", "u8", 67, 5)]),
        st(
            "Wide19",
            19,
            vec![
                f("a", "u8", 0, 5),
                f("b", "u64", 5, 63),
                f("c", "i64", 68, 64),
                f("d", "bool", 132, 1),
                f("e", "i16", 133, 15),
                f("g", "u8", 148, 4),
            ],
        ),
        st(
            "Signs",
            17,
            vec![
                f("a", "i8", 0, 7),
                f("b", "i16", 7, 9),
                f("c", "i32", 16, 17),
                f("d", "i64", 33, 33),
                f("e", "i8", 66, 2),
                f("g", "i64", 68, 62),
                f("h", "bool", 130, 1),
            ],
        ),
        st(
            "Enums",
            3,
            vec![
                en("a", "u8", 0, 2, &[("A0", 0), ("A1", 1), ("A2", 2), ("A3", 3)]),
                en("b", "i8", 2, 2, &[("Zero", 0), ("One", 1), ("MinusTwo", -2), ("MinusOne", -1)]),
                en("c", "u16", 5, 1, &[("No", 0), ("Yes", 1)]),
                f("d", "u16", 6, 11),
                en(
                    "e",
                    "i32",
                    17,
                    3,
                    &[("P0", 0), ("P1", 1), ("P2", 2), ("P3", 3), ("N4", -4), ("N3", -3), ("N2", -2), ("N1", -1)],
                ),
            ],
        ),
        st("Plain", 16, vec![f("x", "u32", 0, 32), f("y", "u32", 32, 32), f("z", "u64", 64, 64)]),
        st("Odd3", 3, vec![f("a", "u32", 1, 23)]),
        st("Odd7", 7, vec![f("a", "u16", 3, 16), f("b", "i32", 19, 31), f("c", "bool", 55, 1)]),
        st("Page", 4096, vec![f("a", "u64", 0, 64), f("b", "i32", 16300, 29), f("c", "u64", 32704, 64)]),
        st("Huge", 65536, vec![f("a", "u32", 0, 32), f("b", "u16", 262_143, 10), f("c", "u64", 524_224, 64)]),
        // booleans wider than a bit
        st(
            "Bools",
            4,
            vec![f("a", "bool", 0, 8), f("b", "bool", 8, 2), f("c", "bool", 10, 7), f("d", "bool", 17, 1), f("e", "bool", 20, 5)],
        ),
        st("Kilo", 1000, vec![f("a", "u64", 1, 64), f("b", "u8", 4000, 8), f("c", "i64", 7936, 64)]),
    ]
}

fn random_struct(r: &mut Rng, name: String) -> St {
    let n = 1 + r.below(9) as usize;
    let mut off = if r.below(3) == 0 { r.below(12) as usize } else { 0 };
    let mut fields = vec![];
    for i in 0..n {
        let ty = r.pick(&["bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u64", "i64"]);
        let b = bits(ty);
        let width = if ty == "bool" {
            if r.below(3) == 0 {
                1 + r.below(8) as usize
            } else {
                1
            }
        } else {
            match r.below(4) {
                0 => b,
                1 => b - r.below(3) as usize,
                _ => 2 + r.below(b as u64 - 1) as usize,
            }
        };
        let width = if ty.starts_with('u') && r.below(8) == 0 { 1 } else { width };
        if r.below(5) == 0 {
            off += r.below(10) as usize;
        }
        if r.below(8) == 0 {
            off = (off + 7) / 8 * 8;
        }
        fields.push(f(&format!("f{}", i), ty, off, width));
        off += width;
    }
    let mut size = (off + 7) / 8;
    if r.below(5) == 0 {
        size += r.below(4) as usize;
    }
    // Declaration order is not offset order in general.
    if r.below(4) == 0 {
        fields.reverse();
    }
    St { name, size, fields }
}

fn emit_struct(d: &mut String, o: &mut String, idx: usize, s: &St, is_index: bool) {
    let n = &s.name;
    let schema = format!("struct {} of {} bytes", n, s.size);
    if is_index {
        writeln!(
            d,
            "define_index!({n}, Ref{n}, RefMut{n}, \"{schema}\", {}, {});",
            s.size,
            s.size * 8,
            n = n,
            schema = schema
        )
        .unwrap();
    } else {
        for fl in s.fields.iter().filter(|f| !f.variants.is_empty()) {
            let e = format!("{}Enum{}", n, fl.name.to_uppercase());
            writeln!(
                d,
                "#[derive(Debug, Clone, Copy, PartialEq, Eq)] #[repr({})] pub enum {} {{ {} }}",
                fl.ty,
                e,
                fl.variants.iter().map(|(a, b)| format!("{} = {}", a, b)).collect::<Vec<_>>().join(", ")
            )
            .unwrap();
            writeln!(
                d,
                "impl flatdata::helper::Int for {} {{ const IS_SIGNED: bool = {}; }}",
                e,
                fl.ty.starts_with('i')
            )
            .unwrap();
        }
        write!(d, "define_struct!({n}, Ref{n}, RefMut{n}, \"{schema}\", {}", s.size, n = n, schema = schema).unwrap();
        let any_enum = s.fields.iter().any(|f| !f.variants.is_empty());
        for fl in &s.fields {
            if any_enum {
                let t = if fl.variants.is_empty() {
                    fl.ty.to_string()
                } else {
                    format!("{}Enum{}", n, fl.name.to_uppercase())
                };
                write!(d, ", ({a}, set_{a}, {t}: {}, {}, {})", fl.ty, fl.offset, fl.width, a = fl.name, t = t).unwrap();
            } else {
                write!(d, ", ({a}, set_{a}, {}, {}, {})", fl.ty, fl.offset, fl.width, a = fl.name).unwrap();
            }
        }
        writeln!(d, ");").unwrap();
    }
    let fname = |fl: &Field| if is_index { "value".to_string() } else { fl.name.clone() };
    writeln!(o, "impl ModelStruct for {} {{ const IDX: usize = {};", n, idx).unwrap();
    writeln!(o, "#[inline] fn get<'a>(r: &<Self as Struct<'a>>::Item, i: usize) -> u64 {{ match i {{").unwrap();
    for (i, fl) in s.fields.iter().enumerate() {
        writeln!(o, "{} => r.{}() as u64,", i, fname(fl)).unwrap();
    }
    writeln!(o, "_ => unreachable!() }} }}").unwrap();
    writeln!(o, "#[inline] fn get_m<'a>(r: &<Self as Struct<'a>>::ItemMut, i: usize) -> u64 {{ match i {{").unwrap();
    for (i, fl) in s.fields.iter().enumerate() {
        writeln!(o, "{} => r.{}() as u64,", i, fname(fl)).unwrap();
    }
    writeln!(o, "_ => unreachable!() }} }}").unwrap();
    writeln!(o, "#[inline] fn set<'a>(r: &mut <Self as Struct<'a>>::ItemMut, i: usize, v: u64) {{ match i {{").unwrap();
    for (i, fl) in s.fields.iter().enumerate() {
        let conv = if !fl.variants.is_empty() {
            let e = format!("{}Enum{}", n, fl.name.to_uppercase());
            let arms: Vec<_> = fl.variants.iter().map(|(a, b)| format!("{} => {}::{}", b, e, a)).collect();
            format!("match v as i64 {{ {}, x => panic!(\"harness: enum value {{}}\", x) }}", arms.join(", "))
        } else if fl.ty == "bool" {
            "v & 1 != 0".to_string()
        } else {
            format!("v as {}", fl.ty)
        };
        writeln!(o, "{} => r.set_{}({}),", i, fname(fl), conv).unwrap();
    }
    writeln!(o, "_ => unreachable!() }} }}").unwrap();
    writeln!(
        o,
        "fn fill<'a, 'b>(r: &mut <Self as Struct<'a>>::ItemMut, o: &<Self as Struct<'b>>::Item) {{ r.fill_from(o) }}
         fn into_item<'a>(r: <Self as Struct<'a>>::ItemMut) -> <Self as Struct<'a>>::Item {{ r.into_ref() }}
         fn eq<'a, 'b>(a: &<Self as Struct<'a>>::Item, b: &<Self as Struct<'b>>::Item) -> bool {{ a == b }} }}"
    )
    .unwrap();
}

fn emit_spec(o: &mut String, s: &St, is_index: bool) {
    write!(o, "StructSpec {{ name: \"{}\", size: {}, fields: &[", s.name, s.size).unwrap();
    for fl in &s.fields {
        let ty = match fl.ty {
            "bool" => "Bool".to_string(),
            t => t.to_uppercase(),
        };
        let vs: Vec<_> = fl.variants.iter().map(|(a, b)| format!("(\"{}\", {})", a, b)).collect();
        write!(
            o,
            "FieldSpec {{ name: \"{}\", ty: Ty::{}, offset: {}, width: {}, variants: &[{}] }}, ",
            if is_index { "value" } else { &fl.name },
            ty,
            fl.offset,
            fl.width,
            vs.join(", ")
        )
        .unwrap();
    }
    writeln!(o, "] }},").unwrap();
}

#[derive(Clone)]
struct Var {
    name: String,
    types: Vec<(u8, usize)>, // tag, struct index
}

#[derive(Clone)]
enum Kind {
    Struct(usize),
    Vector(usize),
    Multi(usize, usize),
    Raw,
    Sub(usize),
}
#[derive(Clone)]
struct Res {
    name: String,
    kind: Kind,
    opt: bool,
}
#[derive(Clone)]
struct Arch {
    name: String,
    schema: String,
    res: Vec<Res>,
}

fn res_schema(a: &Arch, r: &Res, structs: &[St], vars: &[Var], archs: &[Arch]) -> String {
    match r.kind {
        Kind::Struct(i) => format!("struct {} of {} bytes; {}.{} : {};", structs[i].name, structs[i].size, a.name, r.name, structs[i].name),
        Kind::Vector(i) => format!("struct {}\\n{}.{} : vector< {} >;", structs[i].name, a.name, r.name, structs[i].name),
        Kind::Multi(v, i) => format!("{}.{} : multivector< {}, {} >;", a.name, r.name, structs[i].size * 8, vars[v].name),
        Kind::Raw => format!("/** Rohé → data */\\r\\n{}.{} : raw_data;", a.name, r.name),
        Kind::Sub(i) => format!("{}.{} : archive {};", a.name, r.name, archs[i].name),
    }
}

fn emit_archive(d: &mut String, o: &mut String, idx: usize, a: &Arch, structs: &[St], vars: &[Var], archs: &[Arch]) {
    let n = &a.name;
    let list = |pred: &dyn Fn(&Res) -> Option<String>| {
        a.res.iter().filter_map(|r| pred(r)).collect::<Vec<_>>().join(",\n  ")
    };
    let sch = |r: &Res| res_schema(a, r, structs, vars, archs);
    writeln!(d, "define_archive!({n}, {n}Builder, \"{}\";", a.schema, n = n).unwrap();
    writeln!(
        d,
        "  {};",
        list(&|r| match r.kind {
            Kind::Struct(i) => Some(format!("({n}, set_{n}, {}, \"{}\", {})", structs[i].name, sch(r), r.opt, n = r.name)),
            _ => None,
        })
    )
    .unwrap();
    writeln!(
        d,
        "  {};",
        list(&|r| match r.kind {
            Kind::Vector(i) => Some(format!(
                "({n}, set_{n}, start_{n}, {}, \"{}\", {})",
                structs[i].name,
                sch(r),
                r.opt,
                n = r.name
            )),
            _ => None,
        })
    )
    .unwrap();
    writeln!(
        d,
        "  {};",
        list(&|r| match r.kind {
            Kind::Multi(v, i) => Some(format!(
                "({n}, start_{n}, {}, \"{}\", {n}_index, {}, {})",
                vars[v].name,
                sch(r),
                structs[i].name,
                r.opt,
                n = r.name
            )),
            _ => None,
        })
    )
    .unwrap();
    writeln!(
        d,
        "  {};",
        list(&|r| match r.kind {
            Kind::Raw => Some(format!("({n}, set_{n}, \"{}\", {})", sch(r), r.opt, n = r.name)),
            _ => None,
        })
    )
    .unwrap();
    writeln!(
        d,
        "  {});",
        list(&|r| match r.kind {
            Kind::Sub(i) => Some(format!(
                "({n}, {}, {}Builder, \"{}\", {})",
                archs[i].name,
                archs[i].name,
                sch(r),
                r.opt,
                n = r.name
            )),
            _ => None,
        })
    )
    .unwrap();

    writeln!(o, "impl ModelArchive for {n} {{ type B = {n}Builder; const IDX: usize = {};", idx, n = n).unwrap();
    // dump
    writeln!(o, "fn dump_one(&self, i: usize) -> Option<Content> {{ match i {{").unwrap();
    for (i, r) in a.res.iter().enumerate() {
        let (pre, post) = if r.opt { ("", ".map(|x| ") } else { ("Some(", "") };
        let _ = (pre, post);
        let conv = |x: &str| match r.kind {
            Kind::Struct(s) => format!("Content::Struct(rec_of::<{}>(&{}))", structs[s].name, x),
            Kind::Vector(s) => format!("Content::Vector(recs_of::<{}>(&{}))", structs[s].name, x),
            Kind::Multi(v, s) => format!("Content::Multi(items_of::<{}, {}>(&{}))", structs[s].name, vars[v].name, x),
            Kind::Raw => format!("Content::Raw({}.to_vec())", x),
            Kind::Sub(_) => format!("Content::Sub(dump({}))", x),
        };
        if r.opt {
            let asref = if let Kind::Sub(_) = r.kind { ".as_ref()" } else { "" };
            writeln!(o, "{} => self.{}(){}.map(|x| {}),", i, r.name, asref, conv("x")).unwrap();
        } else {
            writeln!(o, "{} => {{ let x = self.{}(); Some({}) }},", i, r.name, conv("x")).unwrap();
        }
    }
    writeln!(o, "_ => unreachable!() }} }}").unwrap();
    // as the accessor renders it
    writeln!(o, "fn show_one(&self, i: usize) -> Option<String> {{ match i {{").unwrap();
    for (i, r) in a.res.iter().enumerate() {
        match r.kind {
            Kind::Raw => writeln!(o, "{} => None,", i).unwrap(),
            _ => writeln!(o, "{} => Some(format!(\"{{:?}}\", self.{}())),", i, r.name).unwrap(),
        }
    }
    writeln!(o, "_ => unreachable!() }} }}").unwrap();
    // raw bytes handed out (pointer and length), for validity checks
    writeln!(o, "fn raw_slices(&self, i: usize) -> Vec<(*const u8, usize)> {{ match i {{").unwrap();
    for (i, r) in a.res.iter().enumerate() {
        let conv = |x: &str| match r.kind {
            Kind::Vector(_) => format!("vec![({x}.as_bytes().as_ptr(), {x}.as_bytes().len())]", x = x),
            Kind::Raw => format!("vec![({x}.as_ptr(), {x}.len())]", x = x),
            Kind::Sub(_) => format!("all_raw_slices({})", x),
            _ => "vec![]".to_string(),
        };
        match r.kind {
            Kind::Struct(_) | Kind::Multi(..) => writeln!(o, "{} => vec![],", i).unwrap(),
            _ if r.opt => {
                let asref = if let Kind::Sub(_) = r.kind { ".as_ref()" } else { "" };
                writeln!(o, "{} => match self.{}(){} {{ Some(x) => {}, None => vec![] }},", i, r.name, asref, conv("x"))
                    .unwrap()
            }
            _ => writeln!(o, "{} => {{ let x = self.{}(); {} }},", i, r.name, conv("x")).unwrap(),
        }
    }
    writeln!(o, "_ => unreachable!() }} }}").unwrap();
    // copy from what was read
    writeln!(o, "fn copy_one(&self, b: &Self::B, i: usize) -> Result<(), String> {{ match i {{").unwrap();
    for (i, r) in a.res.iter().enumerate() {
        let body = match r.kind {
            Kind::Struct(_) => format!("b.set_{}(x).map_err(|e| format!(\"{{:?}}\", e))", r.name),
            Kind::Vector(_) => format!("b.set_{}(&x).map_err(|e| format!(\"{{:?}}\", e))", r.name),
            Kind::Multi(v, s) => format!(
                "copy_multi::<{}, {}>(&x, b.start_{}().map_err(|e| format!(\"{{:?}}\", e))?)",
                structs[s].name, vars[v].name, r.name
            ),
            Kind::Raw => format!("b.set_{}(x).map_err(|e| format!(\"{{:?}}\", e))", r.name),
            Kind::Sub(_) => format!("copy_all(x, &b.{}().map_err(|e| format!(\"{{:?}}\", e))?)", r.name),
        };
        let asref = if let (Kind::Sub(_), true) = (&r.kind, r.opt) { ".as_ref()" } else { "" };
        if r.opt {
            writeln!(o, "{} => match self.{}(){} {{ Some(x) => {}, None => Ok(()) }},", i, r.name, asref, body).unwrap();
        } else {
            writeln!(o, "{} => {{ let x = self.{}(); {} }},", i, r.name, body).unwrap();
        }
    }
    writeln!(o, "_ => unreachable!() }} }}").unwrap();
    // builder side
    writeln!(o, "fn set(b: &Self::B, i: usize, c: &Content) -> Result<(), Fail> {{ match (i, c) {{").unwrap();
    for (i, r) in a.res.iter().enumerate() {
        match r.kind {
            Kind::Struct(s) => writeln!(
                o,
                "({}, Content::Struct(r)) => {{ let s = buf_of::<{}>(r); b.set_{}(s.get()).map_err(Fail::Io) }},",
                i, structs[s].name, r.name
            ),
            Kind::Vector(s) => writeln!(
                o,
                "({}, Content::Vector(v)) => {{ let v = vec_of::<{}>(v); b.set_{}(&v.as_view()).map_err(Fail::Io) }},",
                i, structs[s].name, r.name
            ),
            Kind::Raw => writeln!(o, "({}, Content::Raw(d)) => b.set_{}(d).map_err(Fail::Io),", i, r.name),
            _ => writeln!(o, ""),
        }
        .unwrap();
    }
    writeln!(o, "_ => panic!(\"harness: set\") }} }}").unwrap();
    writeln!(o, "fn start<'b>(b: &'b Self::B, i: usize) -> std::io::Result<Box<dyn DynWriter + 'b>> {{ match i {{").unwrap();
    for (i, r) in a.res.iter().enumerate() {
        match r.kind {
            Kind::Vector(s) => {
                writeln!(o, "{} => Ok(Box::new(VecWriter::<{}>(b.start_{}()?))),", i, structs[s].name, r.name).unwrap()
            }
            Kind::Multi(v, s) => writeln!(
                o,
                "{} => Ok(Box::new(MultiWriter::<{}, {}>(b.start_{}()?))),",
                i, structs[s].name, vars[v].name, r.name
            )
            .unwrap(),
            _ => {}
        }
    }
    writeln!(o, "_ => panic!(\"harness: start\") }} }}").unwrap();
    writeln!(o, "fn sub(b: &Self::B, i: usize) -> Result<Box<dyn DynBuilder>, ResourceStorageError> {{ match i {{").unwrap();
    for (i, r) in a.res.iter().enumerate() {
        if let Kind::Sub(s) = r.kind {
            writeln!(o, "{} => Ok(Box::new(Bld::<{}>(b.{}()?))),", i, archs[s].name, r.name).unwrap();
        }
    }
    writeln!(o, "_ => panic!(\"harness: sub\") }} }}").unwrap();
    writeln!(o, "}}").unwrap();
}

fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_SEED");
    println!("cargo:rerun-if-changed={}", if fs::metadata("build.rs").is_ok() { "build.rs" } else { "../harness/build.rs" });
    let seed: u64 = env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut r = Rng(seed.wrapping_mul(0x1234_5678_9abc_def1) ^ 0xf1a7_da7a);
    let mut structs = fixed_structs();
    let nfixed = structs.len();
    for i in 0..10 {
        let s = random_struct(&mut r, format!("Rand{}", i));
        structs.push(s);
    }
    let nstructs = structs.len();
    // definitions (crate schemas) and what ties them to the model (crate flatcheck)
    let mut d = String::new();
    let mut o = String::new();
    for (i, s) in structs.iter().enumerate() {
        emit_struct(&mut d, &mut o, i, s, false);
    }
    let mut all = structs.clone();
    let index_bytes: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8];
    for b in index_bytes {
        let s = St { name: format!("IndexType{}", b * 8), size: *b, fields: vec![f("value", "u64", 0, b * 8)] };
        emit_struct(&mut d, &mut o, all.len(), &s, true);
        all.push(s);
    }
    let idx = |bytes: usize| nstructs + bytes - 1;
    writeln!(o, "pub const NUM_FIXED: usize = {}; pub const NUM_STRUCTS: usize = {};", nfixed, nstructs).unwrap();
    writeln!(o, "pub static STRUCTS: &[StructSpec] = &[").unwrap();
    for (i, s) in all.iter().enumerate() {
        emit_spec(&mut o, s, i >= nstructs);
    }
    writeln!(o, "];").unwrap();
    writeln!(o, "pub fn with_struct<V: StructVisitor>(i: usize, v: V) -> V::Out {{ match i {{").unwrap();
    for (i, s) in all.iter().enumerate().take(nstructs) {
        writeln!(o, "{} => v.visit::<{}>(),", i, s.name).unwrap();
    }
    writeln!(o, "_ => panic!(\"harness: struct index\") }} }}").unwrap();

    // variadic types
    let by = |n: &str| structs.iter().position(|s| s.name == n).unwrap();
    let mut vars = vec![
        Var { name: "VSingle".into(), types: vec![(0, by("OneByte"))] },
        Var { name: "VMix".into(), types: vec![(0, by("OneByte")), (1, by("Wide9")), (2, by("Odd3")), (3, by("Enums"))] },
        Var { name: "VBig".into(), types: vec![(0, by("BitsByte")), (1, by("Page")), (2, by("Huge"))] },
        Var { name: "VTags".into(), types: vec![(3, by("Plain")), (200, by("Signs")), (255, by("Odd7"))] },
    ];
    for i in 0..3 {
        let n = 1 + r.below(5) as usize;
        let mut types: Vec<(u8, usize)> = vec![];
        while types.len() < n {
            let s = r.below(nstructs as u64) as usize;
            if structs[s].size <= 4096 && !types.iter().any(|t| t.1 == s) {
                types.push((types.len() as u8, s));
            }
        }
        vars.push(Var { name: format!("VRand{}", i), types });
    }
    for (vi, v) in vars.iter().enumerate() {
        let n = &v.name;
        let arms: Vec<_> = v
            .types
            .iter()
            .map(|(t, s)| format!("{} => ({}, add_{})", t, structs[*s].name, structs[*s].name.to_lowercase()))
            .collect();
        writeln!(d, "define_variadic_struct!({n}, Ref{n}, Builder{n}, IndexType32, {});", arms.join(", "), n = n).unwrap();
        writeln!(o, "impl ModelVariadic for {} {{ const IDX: usize = {};", n, vi).unwrap();
        writeln!(o, "fn add<'a>(b: &mut <Self as VariadicStruct<'a>>::ItemMut, k: usize, rec: &[u64]) {{ match k {{").unwrap();
        for (i, (_, s)) in v.types.iter().enumerate() {
            let s = &structs[*s].name;
            writeln!(o, "{} => {{ let mut m = b.add_{}(); set_rec::<{}>(&mut m, rec) }},", i, s.to_lowercase(), s).unwrap();
        }
        writeln!(o, "_ => panic!(\"harness: variant\") }} }}").unwrap();
        writeln!(o, "fn dump<'a>(x: &<Self as VariadicStruct<'a>>::Item) -> (usize, Vec<u64>) {{ match x {{").unwrap();
        for (i, (_, s)) in v.types.iter().enumerate() {
            let s = &structs[*s].name;
            writeln!(o, "Ref{}::{}(r) => ({}, rec_of::<{}>(r)),", n, s, i, s).unwrap();
        }
        writeln!(o, "}} }}").unwrap();
        writeln!(o, "fn copy<'a, 'b>(b: &mut <Self as VariadicStruct<'b>>::ItemMut, x: &<Self as VariadicStruct<'a>>::Item) {{ match x {{")
            .unwrap();
        for (_, s) in v.types.iter() {
            let s = &structs[*s].name;
            writeln!(o, "Ref{}::{}(r) => b.add_{}().fill_from(r),", n, s, s.to_lowercase()).unwrap();
        }
        writeln!(o, "}} }} }}").unwrap();
    }
    writeln!(o, "pub static VARIADICS: &[VariadicSpec] = &[").unwrap();
    for v in &vars {
        let t: Vec<_> = v.types.iter().map(|(t, s)| format!("({}, {})", t, s)).collect();
        writeln!(o, "VariadicSpec {{ name: \"{}\", types: &[{}] }},", v.name, t.join(", ")).unwrap();
    }
    writeln!(o, "];").unwrap();
    // multivector instantiations: (variadic, index struct)
    let mut multis: Vec<(usize, usize)> = vec![
        (0, idx(1)),
        (1, idx(4)),
        (2, idx(4)),
        (3, idx(8)),
        (0, idx(5)),
        (1, idx(2)),
        (1, idx(3)),
        (2, idx(5)),
        (2, idx(8)),
    ];
    for i in 0..3 {
        multis.push((4 + i, idx(if i == 0 { 4 } else { 4 + r.below(5) as usize })));
    }
    writeln!(o, "pub static MULTIS: &[(usize, usize)] = &{:?};", multis).unwrap();
    writeln!(o, "pub fn with_multi<V: MultiVisitor>(i: usize, v: V) -> V::Out {{ match i {{").unwrap();
    for (i, (v, s)) in multis.iter().enumerate() {
        writeln!(o, "{} => v.visit::<{}, {}>(),", i, all[*s].name, vars[*v].name).unwrap();
    }
    writeln!(o, "_ => panic!(\"harness: multi index\") }} }}").unwrap();

    // archives
    let res = |name: &str, kind: Kind, opt: bool| Res { name: name.into(), kind, opt };
    let arch = |name: &str, res: Vec<Res>| Arch {
        name: name.into(),
        schema: format!("namespace fc {{ archive {} {{ }} }}", name),
        res,
    };
    let mut archs = vec![
        arch("ARaw", vec![res("data", Kind::Raw, false)]),
        arch("AEmpty", vec![]),
        arch(
            "AMini",
            vec![
                res("head", Kind::Struct(by("Wide9")), false),
                res("list", Kind::Vector(by("Odd3")), false),
                res("mv", Kind::Multi(1, idx(4)), false),
                res("blob", Kind::Raw, false),
            ],
        ),
        arch(
            "AOpt",
            vec![
                res("head", Kind::Struct(by("Plain")), true),
                res("list", Kind::Vector(by("Plain")), true),
                res("mv", Kind::Multi(3, idx(8)), true),
                res("blob", Kind::Raw, true),
            ],
        ),
        arch(
            "AAll",
            vec![
                res("sa", Kind::Struct(by("Signs")), false),
                res("sb", Kind::Struct(by("OneByte")), true),
                res("va", Kind::Vector(by("Wide19")), false),
                res("vb", Kind::Vector(by("OneByte")), true),
                res("ma", Kind::Multi(1, idx(4)), false),
                res("mb", Kind::Multi(3, idx(8)), true),
                res("ra", Kind::Raw, false),
                res("rb", Kind::Raw, true),
                res("suba", Kind::Sub(2), false),
                res("subb", Kind::Sub(3), true),
                res("subc", Kind::Sub(2), true),
            ],
        ),
        arch("ANest", vec![res("inner", Kind::Sub(4), false), res("opt", Kind::Sub(0), true), res("none", Kind::Sub(1), false)]),
    ];
    let nfixed_arch = archs.len();
    let _ = nfixed_arch;
    for k in 0..4 {
        let n = 1 + r.below(7) as usize;
        let mut rs = vec![];
        for i in 0..n {
            let small = |r: &mut Rng| loop {
                let s = r.below(nstructs as u64) as usize;
                if structs[s].size < 200 {
                    break s;
                }
            };
            let kind = match r.below(if k == 0 { 4 } else { 5 }) {
                0 => Kind::Struct(small(&mut r)),
                1 => Kind::Vector(small(&mut r)),
                2 => {
                    let m = r.below(multis.len() as u64) as usize;
                    let (v, mut s) = multis[m];
                    if v == 2 || s == idx(1) {
                        s = idx(4);
                    }
                    Kind::Multi(if v == 2 { 1 } else { v }, s)
                }
                3 => Kind::Raw,
                _ => {
                    let cand: Vec<usize> = (0..archs.len()).filter(|a| *a != 4 && *a != 5).collect();
                    Kind::Sub(r.pick(&cand))
                }
            };
            let suffix = r.pick(&["", "", "_index", "_data", "_schema", "_archive"]);
            rs.push(res(&format!("r{}{}", i, suffix), kind, r.below(2) == 0));
        }
        archs.push(arch(&format!("ARand{}", k), rs));
    }
    for (i, a) in archs.iter().enumerate() {
        emit_archive(&mut d, &mut o, i, a, &all, &vars, &archs);
    }
    writeln!(o, "pub static ARCHIVES: &[ArchiveSpec] = &[").unwrap();
    for a in &archs {
        write!(o, "ArchiveSpec {{ name: \"{}\", schema: \"{}\", res: &[", a.name, a.schema).unwrap();
        for rr in &a.res {
            let k = match rr.kind {
                Kind::Struct(i) => format!("Kind::Struct({})", i),
                Kind::Vector(i) => format!("Kind::Vector({})", i),
                Kind::Multi(v, i) => format!("Kind::Multi({}, {})", v, i),
                Kind::Raw => "Kind::Raw".into(),
                Kind::Sub(i) => format!("Kind::Sub({})", i),
            };
            write!(
                o,
                "ResSpec {{ name: \"{}\", kind: {}, optional: {}, schema: \"{}\" }}, ",
                rr.name,
                k,
                rr.opt,
                res_schema(a, rr, &all, &vars, &archs)
            )
            .unwrap();
        }
        writeln!(o, "] }},").unwrap();
    }
    writeln!(o, "];").unwrap();
    writeln!(o, "pub fn with_archive<V: ArchiveVisitor>(i: usize, v: V) -> V::Out {{ match i {{").unwrap();
    for (i, a) in archs.iter().enumerate() {
        writeln!(o, "{} => v.visit::<{}>(),", i, a.name).unwrap();
    }
    writeln!(o, "_ => panic!(\"harness: archive index\") }} }}").unwrap();

    let out = PathBuf::from(env::var("OUT_DIR").unwrap()).join("schemas.rs");
    fs::write(&out, o).unwrap();
    fs::write(out.with_file_name("defs.rs"), d).unwrap();
}
