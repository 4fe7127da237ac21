//! Writing generated contents through archive builders.
use crate::model::*;
use crate::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Write;
use std::rc::Rc;

/// Order and way in which the resources are written.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub order: Vec<u16>,
    pub ways: Vec<u8>,
    pub interleave: Vec<u8>,
}
impl Plan {
    pub fn strategy() -> BoxedStrategy<Plan> {
        (prop::collection::vec(any::<u16>(), 1..12), prop::collection::vec(any::<u8>(), 1..12), prop::collection::vec(any::<u8>(), 0..24))
            .prop_map(|(order, ways, interleave)| Plan { order, ways, interleave })
            .boxed()
    }
    fn rotated(&self, n: usize) -> Plan {
        let mut p = self.clone();
        let (a, b) = (n % p.order.len(), n % p.ways.len());
        p.order.rotate_left(a);
        p.ways.rotate_left(b);
        p
    }
}
/// Writers whose drop must not panic when an error ends the program early.
struct Open<'a>(Vec<(usize, Box<dyn DynWriter + 'a>, usize)>);
impl<'a> Drop for Open<'a> {
    fn drop(&mut self) {
        for w in self.0.drain(..) {
            drop_unwinding(w);
        }
    }
}
fn len(c: &Content) -> usize {
    match c {
        Content::Vector(v) => v.len(),
        Content::Multi(v) => v.len(),
        _ => 0,
    }
}
fn grow(w: &mut dyn DynWriter, c: &Content, k: usize) -> Result<(), Fail> {
    match c {
        Content::Vector(v) => w.grow_rec(&v[k]),
        Content::Multi(v) => w.grow_item(&v[k]),
        _ => unreachable!(),
    }
}
/// Error of a step: of the library or a wrong result.
#[derive(Debug)]
pub enum Bad {
    Fail(Fail),
    Wrong(String),
}
fn close(w: Box<dyn DynWriter + '_>, c: &Content, i: usize) -> Result<(), Bad> {
    let got = w.close().map_err(Bad::Fail)?;
    if got != *c {
        return Err(Bad::Wrong(format!("view returned on closing resource {}: got {:?}, expected {:?}", i, got, c)));
    }
    Ok(())
}
/// `done` is told each resource (path of indices) whose writing returned success.
pub fn write_archive(b: &dyn DynBuilder, content: &ArchContent, plan: &Plan, path: &[usize], done: &mut dyn FnMut(&[usize])) -> Result<(), Bad> {
    let n = b.spec().res.len();
    let mut order: Vec<usize> = (0..n).filter(|i| content[*i].is_some()).collect();
    order.sort_by_key(|i| (plan.order[i % plan.order.len()], *i));
    let mut open = Open(vec![]);
    let at = |i: usize| {
        let mut p = path.to_vec();
        p.push(i);
        p
    };
    for i in order {
        let c = content[i].as_ref().unwrap();
        let way = plan.ways[i % plan.ways.len()];
        match c {
            Content::Struct(_) | Content::Raw(_) => {
                b.set(i, c).map_err(Bad::Fail)?;
                done(&at(i));
            }
            Content::Vector(_) if way % 3 == 0 => {
                b.set(i, c).map_err(Bad::Fail)?;
                done(&at(i));
            }
            Content::Vector(_) | Content::Multi(_) => {
                let w = b.start(i).map_err(|e| Bad::Fail(Fail::Io(e)))?;
                open.0.push((i, w, 0));
                if way % 3 != 2 {
                    let (i, mut w, _) = open.0.pop().unwrap();
                    for k in 0..len(c) {
                        grow(&mut *w, c, k).map_err(Bad::Fail)?;
                    }
                    close(w, c, i)?;
                    done(&at(i));
                }
            }
            Content::Sub(cc) => {
                let s = b.sub(i).map_err(|e| Bad::Fail(Fail::St(e)))?;
                write_archive(&*s, cc, &plan.rotated(i + 1), &at(i), done)?;
                done(&at(i));
            }
        }
    }
    for k in &plan.interleave {
        if open.0.is_empty() {
            break;
        }
        let m = *k as usize % open.0.len();
        let (i, w, pos) = &mut open.0[m];
        let c = content[*i].as_ref().unwrap();
        if *pos < len(c) {
            grow(&mut **w, c, *pos).map_err(Bad::Fail)?;
            *pos += 1;
        }
    }
    while let Some((i, mut w, pos)) = open.0.pop() {
        let c = content[i].as_ref().unwrap();
        for k in pos..len(c) {
            grow(&mut *w, c, k).map_err(Bad::Fail)?;
        }
        close(w, c, i)?;
        done(&at(i));
    }
    Ok(())
}
/// Creates and fills an archive.
pub fn build(a: usize, st: &Rc<dyn ResourceStorage>, content: &ArchContent, plan: &Plan) -> Result<(), String> {
    let b = no_panic("creating the archive", || new_builder(a, st.clone()))?.map_err(|e| format!("creating the archive: {:?}", e))?;
    no_panic("writing the archive", || write_archive(&*b, content, plan, &[], &mut |_| {}))?.map_err(|e| format!("writing the archive: {:?}", e))
}
/// The files of an archive with this content.
pub fn files_of(a: usize, content: &ArchContent) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    encode_archive(a, content, "", &mut m);
    m
}
/// Puts files into a storage as they are.
pub fn put_memory(st: &dyn ResourceStorage, files: &BTreeMap<String, Vec<u8>>) -> Result<(), String> {
    for (n, b) in files {
        let s = st.create_output_stream(n).map_err(|e| format!("harness: {:?}", e))?;
        let r = s.borrow_mut().write_all(b);
        r.map_err(|e| format!("harness: {:?}", e))?;
    }
    Ok(())
}
/// Compares stored bytes with the files expected.
pub fn same_bytes(st: &dyn ResourceStorage, files: &BTreeMap<String, Vec<u8>>, ctx: &str) -> Result<(), String> {
    for (n, b) in files {
        match st.read_resource(n) {
            Err(e) => return Err(format!("{}: {:?}: {:?}", ctx, n, e)),
            Ok(x) => {
                if x != &b[..] {
                    return Err(format!("{}: {:?} has {} bytes {:?}.., expected {} bytes {:?}..", ctx, n, x.len(), &x[..x.len().min(80)], b.len(), &b[..b.len().min(80)]));
                }
            }
        }
    }
    Ok(())
}
pub fn same_tree(got: &BTreeMap<String, Vec<u8>>, want: &BTreeMap<String, Vec<u8>>, ctx: &str) -> Result<(), String> {
    for (n, b) in want {
        match got.get(n) {
            None => return Err(format!("{}: file {:?} is missing", ctx, n)),
            Some(x) => {
                if x != b {
                    return Err(format!("{}: file {:?} has {} bytes {:?}.., expected {} bytes {:?}..", ctx, n, x.len(), &x[..x.len().min(80)], b.len(), &b[..b.len().min(80)]));
                }
            }
        }
    }
    for n in got.keys() {
        if !want.contains_key(n) {
            return Err(format!("{}: unexpected file {:?}", ctx, n));
        }
    }
    Ok(())
}
/// Some archive that is not empty of resources, with the given weight on contents size.
pub fn arch_case(size: usize) -> BoxedStrategy<(usize, ArchContent)> {
    (0..ARCHIVES.len(), Just(size)).prop_flat_map(|(a, size)| arch_strategy(a, size).prop_map(move |c| (a, c))).boxed()
}
pub fn count_resources(c: &ArchContent) -> usize {
    c.iter().flatten().map(|x| if let Content::Sub(s) = x { 1 + count_resources(s) } else { 1 }).sum()
}

//
// Damage
//

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    /// the file is missing
    Missing,
    Empty,
    /// truncated (per mille of the length, at least one byte)
    Cut(u16),
    CutOne,
    Extend(Vec<u8>),
    /// header changed by this much
    Header(u64),
    /// text changed
    Insert(u16, char),
    Drop(u16),
    Flip(u16, u8),
    BadUtf8(u16),
    /// replaced by the file of another resource
    As(u16),
    /// a directory in its place
    Directory,
}
pub fn damage_strategy() -> BoxedStrategy<(u16, Damage)> {
    let d = prop_oneof![
        4 => Just(Damage::Missing),
        2 => Just(Damage::Empty),
        2 => (0u16..1000).prop_map(Damage::Cut),
        1 => Just(Damage::CutOne),
        2 => prop::collection::vec(any::<u8>(), 1..12).prop_map(Damage::Extend),
        2 => prop_oneof![1u64..20, (1u64..20).prop_map(|x| 0u64.wrapping_sub(x)), (32u32..64).prop_map(|b| 1 << b), any::<u64>()].prop_map(Damage::Header),
        2 => (any::<u16>(), prop::sample::select(vec!['\n', ' ', 'x', '\u{e9}', '\r'])).prop_map(|(a, c)| Damage::Insert(a, c)),
        2 => any::<u16>().prop_map(Damage::Drop),
        2 => (any::<u16>(), 0u8..8).prop_map(|(a, b)| Damage::Flip(a, b)),
        1 => any::<u16>().prop_map(Damage::BadUtf8),
        1 => any::<u16>().prop_map(Damage::As),
        1 => Just(Damage::Directory),
    ];
    (any::<u16>(), d).boxed()
}
/// Applies damage to one of the files. Edits of a data file other than of its size or header are not made: its
/// payload is not protected. Returns the file's name.
pub fn damage_one(files: &mut BTreeMap<String, Vec<u8>>, dirs: &mut Vec<String>, pick: u16, d: &Damage) -> Option<String> {
    let keys: Vec<String> = files.keys().cloned().collect();
    if keys.is_empty() {
        return None;
    }
    let key = keys[pick as usize * keys.len() >> 16].clone();
    let schema = key.ends_with(".schema");
    let b = files.get_mut(&key).unwrap();
    let pos = |a: u16, n: usize| (a as usize * n) >> 16;
    match d {
        Damage::Missing => {
            files.remove(&key);
        }
        Damage::Directory => {
            files.remove(&key);
            dirs.push(key.clone());
        }
        Damage::Empty => b.clear(),
        Damage::Cut(n) => {
            let k = b.len() * *n as usize / 1000;
            b.truncate(k)
        }
        Damage::CutOne => {
            b.pop();
        }
        Damage::Extend(x) => b.extend_from_slice(if schema { b"\n" } else { x }),
        Damage::Header(x) if !schema && b.len() >= 8 => {
            let h = (b.len() as u64).wrapping_sub(16).wrapping_add(*x);
            b[..8].copy_from_slice(&h.to_le_bytes());
        }
        Damage::Insert(a, c) if schema => {
            let i = pos(*a, b.len() + 1);
            let tail = b.split_off(i);
            b.extend(c.to_string().bytes());
            b.extend(tail);
        }
        Damage::Drop(a) if schema && !b.is_empty() => {
            let i = pos(*a, b.len());
            b.remove(i);
        }
        Damage::Flip(a, bit) if schema && !b.is_empty() => {
            let i = pos(*a, b.len());
            b[i] ^= 1 << bit;
        }
        Damage::BadUtf8(a) if schema => {
            let i = pos(*a, b.len() + 1);
            b.insert(i, 0xff);
        }
        Damage::As(other) if schema => {
            let o = keys[*other as usize * keys.len() >> 16].clone();
            if o.ends_with(".schema") {
                let t = files[&o].clone();
                files.insert(key.clone(), t);
            }
        }
        _ => {
            b.pop();
        }
    }
    Some(key)
}
fn intact(files: &BTreeMap<String, Vec<u8>>, name: &str, schema: &str) -> bool {
    let framed = |b: &Vec<u8>| {
        let mut h = [0; 8];
        b.len() >= 16 && {
            h.copy_from_slice(&b[..8]);
            u128::from(u64::from_le_bytes(h)) + 16 == b.len() as u128
        }
    };
    files.get(name).map_or(false, framed) && files.get(&format!("{}.schema", name)).map_or(false, |s| s == schema.as_bytes())
}
/// What opening these files must give: the contents, or the name of the resource that prevents it.
pub fn expected_open(a: usize, content: &ArchContent, files: &BTreeMap<String, Vec<u8>>, prefix: &str) -> Result<ArchContent, String> {
    let spec = &ARCHIVES[a];
    let ok = |n: &str, s: &str| intact(files, &format!("{}{}", prefix, n), s);
    if !ok(&format!("{}.archive", spec.name), spec.schema) {
        return Err(format!("{}{}.archive", prefix, spec.name));
    }
    let mut out = vec![];
    for (r, c) in spec.res.iter().zip(content) {
        let present = match r.kind {
            Kind::Sub(s) => match c {
                Some(Content::Sub(cc)) => expected_open(s, cc, files, &format!("{}{}/", prefix, r.name)).map(|x| Some(Content::Sub(x))),
                // never written
                _ => Err(format!("{}{}", prefix, r.name)),
            },
            Kind::Multi(..) if !ok(&format!("{}_index", r.name), &format!("index({})", r.schema)) => Err(format!("{}{}_index", prefix, r.name)),
            _ if !ok(r.name, r.schema) => Err(format!("{}{}", prefix, r.name)),
            _ => Ok(c.clone()),
        };
        out.push(match present {
            Ok(c) => c,
            Err(_) if r.optional => None,
            Err(e) => return Err(e),
        });
    }
    Ok(out)
}
