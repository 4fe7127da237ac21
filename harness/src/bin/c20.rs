//! C20: both kinds of storage in lockstep.
#[macro_use]
extern crate flatcheck;
use flatcheck::archprog::*;
use flatcheck::archworld::{self, ACase};
use flatcheck::model::*;
use flatcheck::runner::{self, Obs, Prop, Sub};
use flatcheck::stprog::{self, kind_of, StCase};
use flatcheck::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

fn logs(a: Vec<String>, b: Vec<String>) -> Result<(), String> {
    for (k, (x, y)) in a.iter().zip(&b).enumerate() {
        ensure!(x == y, "outcome {}: in memory {:?}, on disk {:?}", k, x, y);
    }
    same!(a.len(), b.len(), "number of outcomes in memory and on disk");
    Ok(())
}
fn storage(c: &StCase, o: &mut Obs) -> Result<(), String> {
    let a = stprog::run(c, false, o).map_err(|e| format!("in memory: {}", e))?;
    let b = stprog::run(c, true, o).map_err(|e| format!("on disk: {}", e))?;
    o.count("outcomes compared", a.len() as u64);
    logs(a, b)
}
fn archives(c: &ACase, o: &mut Obs) -> Result<(), String> {
    let a = archworld::run(c, false, false, o).map_err(|e| format!("in memory: {}", e))?;
    let b = archworld::run(c, true, false, o).map_err(|e| format!("on disk: {}", e))?;
    o.count("outcomes compared", a.len() as u64);
    logs(a, b)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dam {
    a: usize,
    content: ArchContent,
    damage: Vec<(u16, Damage)>,
    open_as: usize,
}
fn dam_case(a: usize) -> BoxedStrategy<Dam> {
    (arch_strategy(a, 4), prop::collection::vec(damage_strategy(), 0..4), prop_oneof![12 => Just(a), 1 => 0..ARCHIVES.len()])
        .prop_map(move |(content, mut damage, open_as)| {
            // there are no directories in memory
            damage.retain(|d| if let Damage::Directory = d.1 { false } else { true });
            Dam { a, content, damage, open_as }
        })
        .boxed()
}
/// The same files, intact or not, opened, read one by one and recreated on both.
fn damaged(c: &Dam, o: &mut Obs) -> Result<(), String> {
    let intact = files_of(c.a, &c.content);
    let mut files = intact.clone();
    for (p, d) in &c.damage {
        damage_one(&mut files, &mut vec![], *p, d);
    }
    let d = TempDir::new();
    let mem: Rc<dyn ResourceStorage> = MemoryResourceStorage::new("/mem");
    put_memory(&*mem, &files)?;
    for (n, b) in &files {
        put_file(&d.0, n, b);
    }
    let disk: Rc<dyn ResourceStorage> = FileResourceStorage::new(d.path());
    let run = |st: &Rc<dyn ResourceStorage>| -> Result<Vec<String>, String> {
        let mut log = vec![];
        for attempt in 0..2 {
            let r = no_panic("open", || open_archive(c.open_as, st.clone()))?;
            log.push(format!("open {}: {}", attempt, match r {
                Ok(x) => format!("{:?} {:?}", catch(|| x.dump()), catch(|| x.debug()).map(|s| strip_pointers(&s))),
                Err(e) => kind_of(&e),
            }));
        }
        for (n, b) in &intact {
            log.push(format!("exists {:?}: {}", n, no_panic("exists", || st.exists(n))?));
            log.push(format!("raw {:?}: {:?}", n, no_panic("read_resource", || st.read_resource(n))?.map_err(|e| e.kind())));
            if !n.ends_with(".schema") {
                let schema = String::from_utf8_lossy(&intact[&format!("{}.schema", n)]).into_owned();
                let r = no_panic("read", || st.read(n, &schema))?;
                log.push(format!("read {:?}: {:?}", n, r.map_err(|e| kind_of(&e))));
            }
            let _ = b;
        }
        let r = no_panic("create", || new_builder(c.open_as, st.clone()))?;
        log.push(format!("create: {:?}", r.err().map(|e| kind_of(&e))));
        Ok(log)
    };
    let a = run(&mem).map_err(|e| format!("in memory: {}", e))?;
    let b = run(&disk).map_err(|e| format!("on disk: {}", e))?;
    o.count("outcomes compared", a.len() as u64);
    o.nontrivial_if(files != intact);
    o.class_if(files != intact, "damaged");
    logs(a, b)
}
/// Archives print where their raw data lies.
fn strip_pointers(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(p) = rest.find("0x") {
        out += &rest[..p];
        rest = rest[p + 2..].trim_start_matches(|c: char| c.is_ascii_hexdigit());
        out += "PTR";
    }
    out + rest
}
fn main() {
    runner::main(Prop {
        id: "C20",
        level: "exploration",
        rule: "the same program on a memory and a file storage: storage programs (as in C09), archive histories (create, fill at once or \
               streamed, overwrite, abandon, open at any time, read under right and wrong schemas and names), and archives with any \
               damaged files opened, read and recreated; the logs of all outcomes (contents, error kinds, schema diffs, stored bytes) \
               must be equal. Non-trivial = at least two resources or reads, or damaged files",
        assumptions: &[
            "names as in C09; no two writers on one resource at once",
            "error texts and the order in which several errors would be found are compared only as far as the kind of the error tells",
        ],
        subs: vec![
            Sub::new("storage", 6_000, 150_000, || stprog::st_case(70_000, 40), storage),
            Sub::new("archives", 6_000, 150_000, || archworld::acase(false, 30, 3), archives),
            Sub::sweep("damaged", ARCHIVES.len() as u64, 800, 20_000, |a| dam_case(a as usize), damaged),
        ],
    })
}
