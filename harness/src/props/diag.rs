use super::*;
use crate::src_::*;
use dreammaker::lexer::LocationTracker;
use dreammaker::{Context, DMError, FileId, FileList, Location, Severity};
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

fn name(i: usize) -> PathBuf { PathBuf::from(format!("code/f{i}.dm")) }
/// file ids by number: 0 builtins, 1..=65534 registered, 65535 none
fn ids() -> &'static [FileId] {
    static K: OnceLock<Vec<FileId>> = OnceLock::new();
    K.get_or_init(|| {
        let l = FileList::default();
        let mut v = vec![Location::builtins().file];
        for i in 1..=65534usize { v.push(l.register(&name(i))); }
        v.push(FileId::default());
        v
    })
}
fn edge(s: &mut dyn Src, max: u64) -> u64 {
    match s.below(4) { 0 => s.below(3) as u64, 1 => max - s.below(3) as u64, 2 => s.below(300) as u64, _ => s.word(max + 1) }
}
fn loc(s: &mut dyn Src) -> (u64, Location) {
    let (f, l, c) = (edge(s, 65535), edge(s, u32::MAX as u64), edge(s, 65535));
    (f << 48 | l << 16 | c, Location { file: ids()[f as usize], line: l as u32, column: c as u16 })
}

pub const C13: Prop = Prop {
    id: "C13", enumerate: false, finite: false,
    rule: "pairs of locations biased to field boundaries (packing, order, predecessor); file lists of up to nine paths registered, re-registered and looked up, and one filled to its limit; non-trivial: locations with a field at its boundary, or a path registered twice",
    run: |s| {
        match s.below(16) {
            0..=9 => {
                let ((na, a), (nb, b)) = (loc(s), loc(s));
                s.note(&|| format!("{a:?} {b:?}"));
                if na & 0xffff == 0 || nb & 0xffff_ffff == 0 { s.nontrivial(); }
                ensure!(a.pack() == na, "{a:?} packs to {:#x}", a.pack());
                ensure!((a < b) == (na < nb) && (a == b) == (na == nb), "order of {a:?} and {b:?}");
                if na != 0 {
                    let p = a.pred();
                    let want = if na == 0xffff << 48 { na } else { na - 1 };
                    ensure!(p.pack() == want, "predecessor of {a:?} is {p:?}");
                }
                ensure!(a.is_builtins() == (na >> 48 == 0), "is_builtins of {a:?}");
            }
            10 | 11 => {
                let n = s.below(20);
                let mut b: Vec<u8> = if s.below(4) == 0 { b"\xef\xbb\xbf".to_vec() } else { vec![] };
                let skip = b.len();
                for _ in 0..n { b.push(*pick(s, b"ab\n\n\r\t\xef\xbb\xbf")); }
                let bom = b.starts_with(b"\xef\xbb\xbf");
                s.note(&|| format!("{b:?}"));
                if b.contains(&b'\n') { s.nontrivial(); }
                let first = if s.bool() { Some(Location { file: ids()[3], line: 1 + s.below(9) as u32, column: 1 + s.below(9) as u16 }) } else { None };
                let mut t = match first { Some(l) => LocationTracker::from_location(l, (&b[..]).into()), None => LocationTracker::new(ids()[3], (&b[..]).into()) };
                let (mut l, mut c, start) = match first { Some(l) => (l.line, l.column, 0), None => (1, 1, if bom { 3 } else { 0 }) };
                let _ = skip;
                for i in start..b.len() {
                    ensure!(t.remaining() == &b[i..], "{} bytes remain before byte {i}", t.remaining().len());
                    ensure!(t.next() == Some(b[i]), "byte {i}");
                    let want = Location { file: ids()[3], line: l, column: c };
                    ensure!(t.location() == want, "byte {i} at {:?}, expected {want:?}", t.location());
                    if b[i] == b'\n' { l += 1; c = 1; } else { c += 1; }
                }
                ensure!(t.next().is_none() && t.next().is_none(), "bytes after the end");
            }
            12..=14 => {
                let n = 1 + s.below(9);
                let l = FileList::default();
                let mut seen: Vec<(usize, FileId)> = vec![];
                for _ in 0..n {
                    let i = s.below(6);
                    let p = name(i);
                    let known = seen.iter().find(|x| x.0 == i).map(|x| x.1);
                    s.note(&|| format!("register {i}"));
                    ensure!(l.get_id(&p) == known, "get_id before registering path {i}");
                    let id = l.register(&p);
                    if let Some(k) = known { s.nontrivial(); ensure!(k == id, "path {i} got a second id"); } else { ensure!(seen.iter().all(|x| x.1 != id), "id of path {i} is taken"); seen.push((i, id)); }
                    ensure!(id != FileId::default() && id != Location::builtins().file, "a reserved id");
                    for (j, id) in &seen { ensure!(&*l.get_path(*id) == name(*j), "id of path {j} names {:?}", l.get_path(*id)); ensure!(l.get_id(&name(*j)) == Some(*id), "path {j} not found"); }
                }
                let mut listed = vec![];
                l.for_each(|p| listed.push(p.to_owned()));
                ensure!(listed == seen.iter().map(|x| name(x.0)).collect::<Vec<_>>(), "listed {listed:?}");
                for k in [seen.len() + 1, seen.len() + 2, 65534, 65535] { ensure!(&*l.get_path(ids()[k]) == Path::new("(unknown)"), "an id never handed out names {:?}", l.get_path(ids()[k])); }
                ensure!(&*l.get_path(ids()[0]) == Path::new("(builtins)"), "builtins");
            }
            _ => {
                if s.below(40) != 0 { return Ok(()); }
                s.note(&|| "65535 files".into());
                let r = std::panic::catch_unwind(|| {
                    let l = FileList::default();
                    let mut last = FileId::default();
                    for i in 1..=65535usize { last = l.register(&name(i)); }
                    last
                });
                ensure!(r.is_err(), "a 65535th file got the id {:?}", r.unwrap());
                ensure!(ids()[65534] != FileId::default(), "the last file got the id of no file");
            }
        }
        Ok(())
    },
};

const TYPES: [&str; 4] = ["a_b", "no_parent", "macro_redefined", "x"];
pub const C14: Prop = Prop {
    id: "C14", enumerate: false, finite: false,
    rule: "configuration files with an error level and per-type settings (all spellings), then up to eight diagnostics of random severity and type; non-trivial: a setting names the type of some diagnostic",
    run: |s| {
        let words: [(&str, u8); 11] = [("error", 1), ("errors", 1), ("warning", 2), ("warnings", 2), ("info", 3), ("infos", 3), ("hint", 4), ("hints", 4), ("false", 0), ("off", 0), ("disabled", 0)];
        let mut toml = String::new();
        let mut level = 4;
        if s.below(3) > 0 { let w = pick(s, &words); level = w.1; toml += &format!("[display]\nerror_level = \"{}\"\n", w.0); }
        let mut set: Vec<(&str, u8)> = vec![];
        toml += "[diagnostics]\n";
        for t in TYPES { if s.below(2) == 0 { let w = pick(s, &words); set.push((t, w.1)); toml += &format!("{t} = \"{}\"\n", w.0); } }
        thread_local! { static F: PathBuf = std::env::temp_dir().join(format!("vharness-{}-{:?}.toml", std::process::id(), std::thread::current().id())); }
        let mut c = Context::default();
        F.with(|f| { std::fs::write(f, &toml).unwrap(); c.force_config(f); let _ = std::fs::remove_file(f); });
        ensure!(c.errors().is_empty(), "the configuration is refused: {toml}");
        let n = s.below(9);
        let mut want = vec![];
        for i in 0..n {
            let sev = *pick(s, &[Severity::Error, Severity::Warning, Severity::Info, Severity::Hint]);
            let ty = s.below(6);
            let mut e = DMError::new(Location { file: FileId::default(), line: i as u32, column: 3 }, format!("m{i}")).set_severity(sev).with_component(dreammaker::Component::DreamChecker).with_note(Location::builtins(), "n");
            let mut sv = sev as u8;
            if ty < 4 { e = e.with_errortype(TYPES[ty]); if let Some(x) = set.iter().find(|x| x.0 == TYPES[ty]) { s.nontrivial(); sv = x.1; } }
            s.note(&|| format!("{sev:?} of type {:?}", TYPES.get(ty)));
            e.register(&c);
            if sv != 0 && sv <= level { want.push((i, sv, TYPES.get(ty).copied())); }
        }
        s.note(&|| toml.clone());
        let got: Vec<_> = c.errors().iter().map(|e| (e.location().line as usize, e.severity() as u8, e.errortype())).collect();
        ensure!(got == want, "recorded {got:?}, expected {want:?}");
        for e in c.errors().iter() { ensure!(e.description() == format!("m{}", e.location().line) && e.notes().len() == 1 && e.location().column == 3 && e.component() == dreammaker::Component::DreamChecker, "a recorded diagnostic lost its contents: {e}"); }
        Ok(())
    },
};
