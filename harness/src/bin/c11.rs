//! C11: schemas are compared exactly.
#[macro_use]
extern crate flatcheck;
use flatcheck::model::*;
use flatcheck::runner::{self, Obs, Prop, Sub};
use flatcheck::stprog::{data_strategy, schema_strategy, Data};
use flatcheck::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::rc::Rc;

/// An edit of a schema text.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Insert(u16, String),
    Delete(u16, u8),
    Replace(u16, char),
    Case(u16),
    Append(String),
    Prepend(String),
    SwapLines(u16, u16),
    DupLine(u16),
    DropLine(u16),
    CrLf,
    Trim,
    Empty,
    Other(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    name: String,
    data: Data,
    file: bool,
    expected: String,
    edits: Vec<Edit>,
    /// bytes put into the stored text (invalid UTF-8 usually)
    raw: Option<(u16, Vec<u8>)>,
    missing: bool,
    /// what the expected text is made of the stored bytes
    from_stored: Option<Lossy>,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Lossy {
    Replaced,
    Dropped,
    Latin1,
    Prefix,
}
fn text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => schema_strategy(),
        2 => prop::collection::vec(prop::sample::select(vec!["", "a", "b", "struct A", "{", "}", " x : u32 : 3;", "\t// comment", "-", "+", " ", "-a", "\r"]), 0..12)
            .prop_map(|v| v.join("\n")),
        // long ones, of many or of few distinct lines
        1 => (prop::sample::select(vec![100usize, 256, 300, 600]), 1usize..40, any::<u64>()).prop_map(|(n, k, x)| {
            (0..n).map(|i| format!("    field{} : u32 : {};\n", i, (x as usize).wrapping_mul(i * i + 1) % k)).collect::<String>()
        }),
        2 => prop::sample::select(ARCHIVES.iter().flat_map(|a| a.res.iter().map(|r| r.schema.to_string())).collect::<Vec<_>>()),
    ]
    .boxed()
}
fn edit() -> BoxedStrategy<Edit> {
    let bit = || prop::sample::select(vec!["\n", " ", "\r\n", "\r", "\u{0}", "\t", "x", "\u{feff}", "\u{301}", "\n\n", "index(", ")", "\u{1F600}"]).prop_map(|s| s.to_string());
    prop_oneof![
        3 => (any::<u16>(), bit()).prop_map(|(a, b)| Edit::Insert(a, b)),
        3 => (any::<u16>(), 1u8..4).prop_map(|(a, b)| Edit::Delete(a, b)),
        2 => (any::<u16>(), any::<char>()).prop_map(|(a, b)| Edit::Replace(a, b)),
        2 => any::<u16>().prop_map(Edit::Case),
        3 => bit().prop_map(Edit::Append),
        2 => bit().prop_map(Edit::Prepend),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Edit::SwapLines(a, b)),
        1 => any::<u16>().prop_map(Edit::DupLine),
        1 => any::<u16>().prop_map(Edit::DropLine),
        1 => Just(Edit::CrLf),
        1 => Just(Edit::Trim),
        1 => Just(Edit::Empty),
        1 => text().prop_map(Edit::Other),
    ]
    .boxed()
}
fn case() -> BoxedStrategy<Case> {
    (
        prop::sample::select(vec!["res", "dir/res", "a.archive", "\u{e4}", "x_index", "d/e/f", "a b", "A", ".x"]),
        data_strategy(300),
        any::<bool>(),
        text(),
        prop_oneof![1 => Just(vec![]), 6 => prop::collection::vec(edit(), 1..3)],
        prop_oneof![
            8 => Just(None),
            1 => (any::<u16>(), prop::sample::select(vec![vec![0xffu8], vec![0xc3], vec![0xe2, 0x82], vec![0xc0, 0x80], vec![0xed, 0xa0, 0x80], vec![0xf5, 0x80, 0x80, 0x80], vec![0x80]])).prop_map(Some)
        ],
        prop::bool::weighted(0.05),
        prop_oneof![6 => Just(None), 1 => prop::sample::select(vec![Lossy::Replaced, Lossy::Dropped, Lossy::Latin1, Lossy::Prefix]).prop_map(Some)],
    )
        .prop_map(|(name, data, file, expected, edits, raw, missing, from_stored)| {
            // an expected text derived from stored bytes asks for ones that are not text
            let raw = if from_stored.is_some() && raw.is_none() { Some((41_000, vec![0xff])) } else { raw };
            Case { name: name.into(), data, file, expected, edits, raw, missing, from_stored }
        })
        .boxed()
}
/// Long texts of a few lines, which differ in one place only.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    file: bool,
    lines: Vec<usize>,
    fill: char,
    /// from the end
    at: Option<u32>,
    edit: u8,
}
fn big() -> BoxedStrategy<Big> {
    let len = || {
        prop_oneof![
            3 => (prop::sample::select(vec![255usize, 256, 1024, 4096, 8192, 65_535, 65_536, 1 << 17, 1 << 20]), 0usize..5).prop_map(|(n, d)| n + d - 2),
            1 => 0usize..3_000_000,
        ]
    };
    let at = prop_oneof![2 => 0u32..3, 1 => any::<u32>()];
    (any::<bool>(), prop::collection::vec(len(), 1..4), prop::sample::select(vec!['x', ' ', '\t', '\u{e4}']), prop::option::weighted(0.9, at), any::<u8>())
        .prop_map(|(file, lines, fill, at, edit)| Big { file, lines, fill, at, edit })
        .boxed()
}
fn check_big(c: &Big, o: &mut Obs) -> Result<(), String> {
    let expected = c.lines.iter().map(|n| c.fill.to_string().repeat(*n)).collect::<Vec<_>>().join("\n");
    let mut stored = expected.clone();
    if let Some(k) = c.at {
        let mut i = stored.len() - k as usize % (stored.len() + 1);
        while !stored.is_char_boundary(i) {
            i += 1;
        }
        match (c.edit % 4, stored[i..].chars().next()) {
            (0, Some(x)) => {
                stored.remove(i);
                stored.insert(i, if x == 'y' { 'z' } else { 'y' });
            }
            (1, Some(_)) => {
                stored.remove(i);
            }
            (2, Some(_)) => stored.truncate(i),
            _ => stored.insert(i, 'y'),
        }
    }
    let d = TempDir::new();
    let st: Rc<dyn ResourceStorage> = if c.file { FileResourceStorage::new(d.path()) } else { MemoryResourceStorage::new("/mem") };
    st.write("a", &stored, b"data").map_err(|e| format!("write: {:?}", e))?;
    let same = stored == expected;
    let ctx = format!("stored schema of {} bytes, expected one of {}", stored.len(), expected.len());
    match no_panic("read", || st.read("a", &expected))? {
        Ok(p) => {
            ensure!(same, "{}: data handed out", ctx);
            same!(p, b"data", "{}", ctx);
        }
        Err(ResourceStorageError::WrongSignature { resource_name, diff }) => {
            ensure!(!same, "{}: identical schemas rejected", ctx);
            same!(resource_name, "a", "{}: resource named in the error", ctx);
            let (l, r) = sides(&diff).map_err(|m| format!("{}: {}", ctx, m.chars().take(200).collect::<String>()))?;
            ensure!(l == stored, "{}: stored text not recovered from the diff ({} bytes)", ctx, l.len());
            ensure!(r == expected, "{}: expected text not recovered from the diff ({} bytes)", ctx, r.len());
        }
        Err(e) => return Err(format!("{}: {:?}", ctx, e).chars().take(500).collect()),
    }
    let got = st.read("a", &stored).map(|d| d.to_vec()).map_err(|_| format!("{}: not read with the schema it was stored with", ctx))?;
    same!(got, b"data".to_vec(), "{}", ctx);
    o.class_if(expected.len() >= 1 << 16, "64 KB or more");
    o.nontrivial_if(!same);
    Ok(())
}
fn at(s: &[char], a: u16) -> usize {
    (a as usize * (s.len() + 1)) >> 16
}
fn edited(s: &str, e: &Edit) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let lines = || s.split('\n').map(|l| l.to_string()).collect::<Vec<_>>();
    match e {
        Edit::Insert(a, t) => {
            let i = at(&c, *a);
            let tail = c.split_off(i);
            c.extend(t.chars());
            c.extend(tail);
        }
        Edit::Delete(a, n) => {
            let i = at(&c, *a);
            c.drain(i..(i + *n as usize).min(c.len()));
        }
        Edit::Replace(a, x) => {
            if !c.is_empty() {
                let i = (*a as usize * c.len()) >> 16;
                c[i] = *x;
            }
        }
        Edit::Case(a) => {
            if !c.is_empty() {
                let i = (*a as usize * c.len()) >> 16;
                c[i] = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
            }
        }
        Edit::Append(t) => return format!("{}{}", s, t),
        Edit::Prepend(t) => return format!("{}{}", t, s),
        Edit::SwapLines(a, b) => {
            let mut l = lines();
            let n = l.len();
            l.swap(*a as usize % n, *b as usize % n);
            return l.join("\n");
        }
        Edit::DupLine(a) => {
            let mut l = lines();
            let i = *a as usize % l.len();
            let x = l[i].clone();
            l.insert(i, x);
            return l.join("\n");
        }
        Edit::DropLine(a) => {
            let mut l = lines();
            let i = *a as usize % l.len();
            l.remove(i);
            return l.join("\n");
        }
        Edit::CrLf => return s.replace('\n', "\r\n"),
        Edit::Trim => return s.trim().to_string(),
        Edit::Empty => return String::new(),
        Edit::Other(t) => return t.clone(),
    }
    c.into_iter().collect()
}
/// Both sides of a line diff.
fn sides(diff: &str) -> Result<(String, String), String> {
    let (mut l, mut r) = (vec![], vec![]);
    for line in diff.split('\n') {
        match line.chars().next() {
            Some('-') => l.push(&line[1..]),
            Some('+') => r.push(&line[1..]),
            Some(' ') => {
                l.push(&line[1..]);
                r.push(&line[1..]);
            }
            _ => return Err(format!("diff line {:?} without a marker", line)),
        }
    }
    Ok((l.join("\n"), r.join("\n")))
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let mut text = c.expected.clone();
    for e in &c.edits {
        text = edited(&text, e);
    }
    let mut stored = text.into_bytes();
    if let Some((a, b)) = &c.raw {
        let i = (*a as usize * (stored.len() + 1)) >> 16;
        let tail = stored.split_off(i);
        stored.extend_from_slice(b);
        stored.extend(tail);
    }
    let mut c = c.clone();
    if let Some(l) = c.from_stored {
        c.expected = match l {
            Lossy::Replaced => String::from_utf8_lossy(&stored).into_owned(),
            Lossy::Dropped => String::from_utf8_lossy(&stored).replace('\u{fffd}', ""),
            Lossy::Latin1 => stored.iter().map(|b| char::from(*b)).collect(),
            Lossy::Prefix => {
                let n = std::str::from_utf8(&stored).map_or_else(|e| e.valid_up_to(), |s| s.len());
                String::from_utf8(stored[..n].to_vec()).unwrap()
            }
        };
    }
    let c = &c;
    let d = TempDir::new();
    let payload = c.data.get();
    let st: Rc<dyn ResourceStorage> = if c.file {
        put_file(&d.0, &c.name, &frame(&payload));
        if !c.missing {
            put_file(&d.0, &format!("{}.schema", c.name), &stored);
        }
        FileResourceStorage::new(d.path())
    } else {
        let st = MemoryResourceStorage::new("/mem");
        let put = |n: &str, b: &[u8]| -> Result<(), String> {
            let s = st.create_output_stream(n).map_err(|e| format!("{:?}", e))?;
            let r = s.borrow_mut().write_all(b);
            r.map_err(|e| format!("{:?}", e))
        };
        put(&c.name, &frame(&payload))?;
        if !c.missing {
            put(&format!("{}.schema", c.name), &stored)?;
        }
        st
    };
    let same = !c.missing && stored == c.expected.as_bytes();
    for attempt in 0..2 {
        let r = no_panic("read", || st.read(&c.name, &c.expected))?;
        let ctx = format!("attempt {}: stored {:?}, expected {:?}", attempt, String::from_utf8_lossy(&stored), c.expected);
        match r {
            Ok(p) => {
                ensure!(same, "{}: data handed out{}", ctx, if c.missing { " without a schema" } else { "" });
                ensure!(p == &payload[..], "{}: wrong data", ctx);
            }
            Err(e) => {
                ensure!(!same, "{}: identical schemas rejected: {:?}", ctx, e);
                if let (Ok(text), false) = (std::str::from_utf8(&stored), c.missing) {
                    match e {
                        ResourceStorageError::WrongSignature { resource_name, diff } => {
                            same!(resource_name, c.name, "{}: resource named in the error", ctx);
                            let (l, r) = sides(&diff).map_err(|m| format!("{}: {} in {:?}", ctx, m, diff))?;
                            same!(l, text, "{}: stored text recovered from the diff {:?}", ctx, diff);
                            same!(r, c.expected, "{}: expected text recovered from the diff {:?}", ctx, diff);
                        }
                        e => return Err(format!("{}: expected WrongSignature, got {:?}", ctx, e)),
                    }
                }
            }
        }
    }
    o.class_if(same, "identical");
    o.class_if(c.missing, "schema missing");
    o.class_if(std::str::from_utf8(&stored).is_err(), "not UTF-8");
    o.class_if(!c.missing && stored.is_empty(), "stored schema empty");
    o.nontrivial_if(!same);
    Ok(())
}
fn main() {
    runner::main(Prop {
        id: "C11",
        level: "exploration",
        rule: "expected schemas (generated texts, resource schemas of the generated archives) and stored ones derived by one or \
               two edits (characters, case, white space, line ends, lines, prefix, suffix, other text), by inserting invalid \
               UTF-8 (the expected one also by repairing the stored bytes in usual ways) or by leaving the schema out, in memory and on disk; the diff in the error is taken apart and both texts \
               recovered; 'big': texts of up to megabytes in few lines, differing in one place; non-trivial = the stored schema is not the expected one",
        assumptions: &[],
        subs: vec![
            Sub::new("pairs", 160_000, 2_500_000, case, check),
            Sub::new("big", 600, 12_000, big, check_big),
        ],
    })
}
