use super::*;
use crate::src_::*;
use dmm_tools::dmm::{Coord2, Coord3, Key, Map, Prefab};
use dmm_tools::dmi::Dir;
use dreammaker::constants::Constant;
use std::sync::OnceLock;

const LETTERS: &[u8; 52] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

/// keys 0..=65534
fn keys() -> &'static [Key] {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    K.get_or_init(|| { let mut v = vec![Key::default()]; while v.len() < 65535 { v.push(v[v.len() - 1].next()); } v })
}
fn numeral(mut k: usize, n: usize) -> String {
    let mut o = vec![0u8; n];
    for i in (0..n).rev() { o[i] = LETTERS[k % 52]; k /= 52; }
    String::from_utf8(o).unwrap()
}
fn key(s: &mut dyn Src) -> usize {
    match s.below(4) {
        0 => s.below(53),
        1 => *pick(s, &[0usize, 1, 25, 26, 51, 52, 53, 2703, 2704, 2705, 65533, 65534, 1352, 51 * 52 + 51]),
        2 => s.below(2800),
        _ => s.below(65535),
    }
}
fn scratch() -> std::path::PathBuf {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    thread_local! { static ME: u64 = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    ME.with(|m| std::path::PathBuf::from(format!("{base}/vharness-{}-{m}.dmm", std::process::id())))
}
fn read(bytes: &[u8]) -> Result<Map, String> {
    let p = scratch();
    std::fs::write(&p, bytes).map_err(|e| e.to_string())?;
    let r = std::panic::catch_unwind(|| Map::from_file(&p));
    let _ = std::fs::remove_file(&p);
    match r {
        Ok(Ok(m)) => Ok(m),
        Ok(Err(e)) => Err(e.to_string()),
        Err(_) => Err("panicked".into()),
    }
}

pub const C06: Prop = Prop {
    id: "C06", enumerate: false, finite: false,
    rule: "key sets (biased to the boundaries 51/52, 2703/2704, 65534) formatted at the adjusted length; random key texts of one to three bytes read from a map file; non-trivial: at least one key of 52 or more",
    run: |s| {
        if s.below(4) > 0 {
            let n = 1 + s.below(4);
            let ks: Vec<usize> = (0..n).map(|_| key(s)).collect();
            s.note(&|| format!("keys {ks:?}"));
            if ks.iter().any(|k| *k >= 52) { s.nontrivial(); }
            let mut m = Map::with_empty_dictionary(1, 1, 1);
            for k in &ks { m.dictionary.insert(keys()[*k], vec![Prefab::from_path("/turf")]); }
            m.adjust_key_length();
            let max = *ks.iter().max().unwrap();
            let len = if max < 52 { 1 } else if max < 2704 { 2 } else { 3 };
            ensure!(m.key_length() == len, "keys up to {max} get length {}", m.key_length());
            for k in &ks {
                let t = m.format_key(keys()[*k]).to_string();
                ensure!(t == numeral(*k, len as usize), "key {k} is written {t:?} at length {len}, expected {:?}", numeral(*k, len as usize));
            }
            for (a, b) in ks.iter().zip(ks.iter().skip(1)) { ensure!((keys()[*a] < keys()[*b]) == (a < b) && (keys()[*a] == keys()[*b]) == (a == b), "order of keys {a} and {b}"); }
        } else {
            let len = 1 + s.below(3);
            let mut text: Vec<u8> = match s.below(4) {
                0 => b"ymo".to_vec(), 1 => b"ymp".to_vec(),
                _ => (0..len).map(|_| LETTERS[s.below(52)]).collect(),
            };
            if s.below(3) == 0 { let i = s.below(text.len()); text[i] = *pick(s, b"yYmopqzZaA019_-`[{@ ~\xe9"); }
            let val = |t: &[u8]| -> Option<usize> { let mut v = 0; for c in t { v = v * 52 + LETTERS.iter().position(|l| l == c)?; if v > 65534 { return None; } } Some(v) };
            let want = val(&text);
            s.note(&|| format!("key text {:?}", String::from_utf8_lossy(&text)));
            s.nontrivial();
            let mut file = b"\"".to_vec();
            file.extend(&text);
            file.extend(b"\" = (/turf,/area)\n\n(1,1,1) = {\"\n");
            file.extend(&text);
            file.extend(b"\n\"}\n");
            match (read(&file), want) {
                (Ok(m), Some(v)) => {
                    ensure!(m.dictionary.len() == 1 && m.dictionary.contains_key(&keys()[v]), "read as another key than {v}");
                    ensure!(m.key_length() as usize == text.len(), "key length {}", m.key_length());
                    ensure!(m[Coord3::new(1, 1, 1)] == keys()[v], "the tile has another key");
                    ensure!(m.format_key(keys()[v]).to_string().as_bytes() == &text[..], "written back as {}", m.format_key(keys()[v]));
                }
                (Ok(_), None) => return Err("accepted although it is no valid key".into()),
                (Err(e), Some(v)) => return Err(format!("key {v} rejected: {e}")),
                (Err(e), None) => ensure!(e != "panicked", "invalid key text crashes the reader"),
            }
        }
        Ok(())
    },
};

pub const C07: Prop = Prop {
    id: "C07", enumerate: false, finite: false,
    rule: "grids up to 6x6x4 with a distinct key per cell; every cell by coordinate, both iterators, every neighbour; non-trivial: more than one row or level",
    run: |s| {
        let (dx, dy, dz) = (1 + s.below(6), 1 + s.below(6), 1 + s.below(4));
        s.note(&|| format!("{dx}x{dy}x{dz}"));
        if dy > 1 || dz > 1 { s.nontrivial(); }
        let mut m = Map::with_empty_dictionary(dx, dy, dz);
        ensure!(m.dim_xyz() == (dx, dy, dz) && m.dim_z() == dz, "dimensions {:?}", m.dim_xyz());
        for (i, k) in m.grid.iter_mut().enumerate() { *k = keys()[i]; }
        // storage order: level by level, top row first, left to right
        let at = |x: usize, y: usize, z: usize| keys()[((z - 1) * dy + (dy - y)) * dx + (x - 1)];
        for z in 1..=dz { for y in 1..=dy { for x in 1..=dx {
            let c = Coord3::new(x as i32, y as i32, z as i32);
            ensure!(m[c] == at(x, y, z), "cell {c} is wrong");
            ensure!(m.z_level(z - 1)[c.xy()] == at(x, y, z), "cell {c} of its level is wrong");
            ensure!(c.xy().z(z as i32) == c, "xy/z of {c}");
        } } }
        let mut levels = 0;
        for (z, l) in m.iter_levels() {
            levels += 1;
            ensure!(z == levels, "level numbered {z}, expected {levels}");
            let cells: Vec<(Coord2, Key)> = l.iter_top_down().collect();
            ensure!(cells.len() == dx * dy, "{} cells iterated", cells.len());
            for (i, (c, k)) in cells.iter().enumerate() {
                let want = Coord2::new((i % dx) as i32 + 1, (dy - i / dx) as i32);
                ensure!(*c == want, "cell number {i} of the iteration is {c}, expected {want}");
                ensure!(*k == at(c.x as usize, c.y as usize, z as usize), "iteration pairs {c} with another cell's key");
            }
        }
        ensure!(levels as usize == dz, "{levels} levels iterated");
        let c = Coord2::new(s.range(-3, 9) as i32, s.range(-3, 9) as i32);
        for d in Dir::ALL { let n = c + *d; ensure!((n.x - c.x, n.y - c.y) == d.offset(), "{c} + {d:?} = {n}"); }
        // outside the grid nothing is found
        let out = *pick(s, &[(0, 1, 1), (1, 0, 1), (1, 1, 0), (dx as i32 + 1, 1, 1), (1, dy as i32 + 1, 1), (1, 1, dz as i32 + 1), (-1, 1, 1)]);
        let c = Coord3::new(out.0, out.1, out.2);
        ensure!(std::panic::catch_unwind(|| m[c]).is_err(), "coordinate {c} outside {dx}x{dy}x{dz} yields a cell");
        Ok(())
    },
};

/// any number that is finite and neither tiny nor huge
fn number(s: &mut dyn Src) -> f32 {
    let m = s.range(-999999, 1000000) as f32;
    let e = s.range(-12, 13) as i32;
    (m as f64 * 10f64.powi(e)) as f32
}
/// equal, numbers to the six digits that are written
fn alike(a: &Constant, b: &Constant) -> bool {
    match (a, b) {
        (Constant::Float(x), Constant::Float(y)) => (*x as f64 - *y as f64).abs() <= 5.1e-6 * (*x as f64).abs() && (x.fract() != 0.0 || x.abs() > 999999.0 || x == y),
        (Constant::List(x), Constant::List(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| alike(&p.0, &q.0) && match (&p.1, &q.1) { (Some(c), Some(d)) => alike(c, d), (None, None) => true, _ => false }),
        _ => a == b,
    }
}
fn value(s: &mut dyn Src, depth: usize) -> Constant {
    match s.below(if depth > 0 { 8 } else { 6 }) {
        0 => Constant::Null(None),
        1 => Constant::Float(s.range(-99, 999) as f32),
        2 if s.bool() => Constant::Float(number(s)),
        2 => Constant::Float(*pick(s, &[0.5, -0.25, 1.5, 100000.0, 65535.0, 0.0])),
        3 => Constant::Resource((*pick(s, &["icons/a.dmi", "a b.dmi", "x"])).into()),
        4 | 5 => Constant::String((*pick(s, &["", "a", "a b", "; x = 2", "}", "{", "), (", "(1,1,1) = {", "// not a comment", "/*", "it's", "\\\"quoted\\\"", "back\\\\", "a,b", "=", "é", " lead", "trail ", "\\[x\\]", "two\nlines", "a\tb", "say \"hi\"", "\n", "\t//x"])).into()),
        6 => Constant::List((0..s.below(3)).map(|_| (value(s, 0), None)).collect::<Vec<_>>().into()),
        _ => Constant::List(vec![(Constant::String("k".into()), Some(value(s, 0))), (Constant::Float(2.0), None)].into()),
    }
}

/// a grid given as rectangles: each covers w x h tiles from its first coordinate on (y counts
/// from the top here, as in the text); returns the text and what each tile of the box must hold
fn blocks(s: &mut dyn Src, len: usize, used: &[usize]) -> (String, Result<(usize, usize, usize, Vec<usize>), ()>) {
    let (dx, dy, dz) = (1 + s.below(4), 1 + s.below(4), 1 + s.below(2));
    let mut at = std::collections::BTreeMap::new();
    let mut text = String::new();
    let mut bad = false;
    // cut every level into vertical strips, every strip into pieces
    let mut rects = vec![];
    for z in 1..=dz {
        let mut x = 1;
        while x <= dx {
            let w = 1 + s.below(dx - x + 1);
            let mut y = 1;
            while y <= dy { let h = 1 + s.below(dy - y + 1); rects.push((x, y, z, w, h)); y += h; }
            x += w;
        }
    }
    match s.below(8) {
        0 => { let i = s.below(rects.len()); rects.remove(i); }
        1 => { let i = s.below(rects.len()); rects.push(rects[i]); }
        2 => { let i = s.below(rects.len()); rects[i].3 += 1; }
        3 => { let i = s.below(rects.len()); rects[i].4 += 1; }
        4 => { let i = s.below(rects.len()); match s.below(3) { 0 => rects[i].0 -= 1, 1 => rects[i].1 -= 1, _ => rects[i].2 -= 1 } }
        _ => {}
    }
    for i in (1..rects.len()).rev() { let j = s.below(i + 1); rects.swap(i, j); }
    for (x, y, z, w, h) in rects {
        text += &format!("({x},{y},{z}) = {{\"");
        if h > 1 || s.bool() { text += "\n"; }
        if x == 0 || y == 0 || z == 0 { bad = true; }
        for r in 0..h {
            for c in 0..w {
                let k = *pick(s, used);
                text += &numeral(k, len);
                if at.insert((z, y + r, x + c), k).is_some() { bad = true; }
            }
            if r + 1 < h || s.bool() { text += "\n"; }
        }
        text += *pick(s, &["\"}\n", "\"} ", "\"}\n\n"]);
    }
    let (mx, my, mz) = at.keys().fold((0, 0, 0), |m, k| (m.0.max(k.2), m.1.max(k.1), m.2.max(k.0)));
    if bad || at.len() != mx * my * mz { return (text, Err(())); }
    (text, Ok((mx, my, mz, at.values().copied().collect())))
}

fn damaged(s: &mut dyn Src, text: &mut Vec<u8>) {
    const BITS: [&[u8]; 34] = [b"\"", b"(", b")", b"{", b"}", b",", b"=", b";", b"/", b"//", b"\\", b"\n", b"\r", b"\t", b" ", b"a", b"aa", b"aaaa", b"Z", b"zzz", b"1", b"0", b"9999999999", b"99999999999999999999999",
        b"4294967296", b"(1,1)", b"(1,1,1,1)", b"(0,1,1)", b"\"\"", b"{\"", b"\"}", b"\xff", b"[", b"-"];
    for _ in 0..1 + s.below(3) {
        if text.is_empty() { return; }
        // near the end lies the grid: aim there half of the time
        let i = if s.bool() { s.below(text.len()) } else { text.len() - 1 - s.below(text.len().min(40)) };
        match s.below(5) {
            0 => { text.remove(i); }
            1 => { let b = *pick(s, &BITS); let e = (i + 1).min(text.len()); text.splice(i..e, b.iter().copied()); }
            2 => { let b = *pick(s, &BITS); text.splice(i..i, b.iter().copied()); }
            3 => { let e = (i + 1 + s.below(12)).min(text.len()); text.drain(i..e); }
            _ => text.truncate(i),
        }
    }
}

pub const C08: Prop = Prop {
    id: "C08", enumerate: false, finite: false,
    rule: "maps up to 4x4x3 with up to six dictionary entries of up to four prefabs with variables (strings holding map syntax, numbers, resources, lists), written and read back, also with CRLF line ends, in row-major DMM layout, with free white space, and with up to three pieces of damage (no panic); grids given as rectangles in any order, with a missing, doubled, misplaced or oversized one; non-trivial: some prefab has variables, or the grid has several rectangles",
    run: |s| {
        if s.below(4) == 0 {
            let len = 1 + s.below(3);
            let n = 1 + s.below(4);
            let used: Vec<usize> = (0..n).map(|i| match len { 1 => i + s.below(48), 2 => 52 * i + s.below(2500), _ => 2704 * i + s.below(54000) }).collect();
            let (grid, want) = blocks(s, len, &used);
            let mut text = String::new();
            for k in &used { text += &format!("\"{}\" = (/turf,/area)\n", numeral(*k, len)); }
            text += "\n";
            text += &grid;
            s.note(&|| text.clone());
            if grid.matches('(').count() > 1 { s.nontrivial(); }
            match (read(text.as_bytes()), want) {
                (Err(e), _) if e == "panicked" => return Err("the reader panicked".into()),
                (Ok(_), Err(())) => return Err("read although a tile has no value, or two, or lies outside".into()),
                (Err(e), Ok(_)) => return Err(format!("rejected: {e}")),
                (Err(_), Err(())) => {}
                (Ok(m), Ok((x, y, z, tiles))) => {
                    ensure!(m.dim_xyz() == (x, y, z), "size {:?}, expected {:?}", m.dim_xyz(), (x, y, z));
                    ensure!(m.grid.iter().copied().eq(tiles.iter().map(|t| keys()[*t])), "tiles differ");
                }
            }
            return Ok(());
        }
        let (dx, dy, dz) = (1 + s.below(4), 1 + s.below(4), 1 + s.below(3));
        let mut m = Map::with_empty_dictionary(dx, dy, dz);
        let n = 1 + s.below(6);
        let mut ks = vec![];
        let mut vars = false;
        for _ in 0..n {
            let k = keys()[key(s)];
            let mut data = vec![];
            for _ in 0..1 + s.below(4) {
                let mut p = Prefab::from_path(*pick(s, &["/turf", "/area/a_b", "/obj/item/x1", "/mob"]));
                for _ in 0..s.below(4) {
                    let name = pick(s, &["name", "dir", "x", "icon_state", "tag_2"]).to_string();
                    p.vars.insert(name, value(s, 1));
                    vars = true;
                }
                data.push(p);
            }
            m.dictionary.insert(k, data);
            ks.push(k);
        }
        if vars { s.nontrivial(); }
        m.adjust_key_length();
        for c in m.grid.iter_mut() { *c = *pick(s, &ks); }
        let mut text = vec![];
        m.to_writer(&mut text).map_err(|e| format!("writing fails: {e}"))?;
        let style = s.below(4);
        if style == 1 {
            text = String::from_utf8(text).unwrap().replace('\n', "\r\n").into_bytes();
        } else if style == 2 {
            // the same map in BYOND's own layout: one string of rows per level
            let t = String::from_utf8(text).unwrap();
            let cut = t.find("\n(1,1,1)").ok_or("no grid written")?;
            let mut o = t[..cut + 1].to_string();
            for z in 1..=dz {
                o += &format!("(1,1,{z}) = {{\"\n");
                for y in (1..=dy).rev() { for x in 1..=dx { o += &m.format_key(m[Coord3::new(x as i32, y as i32, z as i32)]).to_string(); } o += "\n"; }
                o += "\"}\n\n";
            }
            text = o.into_bytes();
        } else if style == 3 {
            // every entry on a line of its own
            let t = String::from_utf8(text).unwrap();
            let cut = t.find("\n(1,1,1)").ok_or("no grid written")?;
            let (d, g) = t.split_at(cut);
            let end = *pick(s, &["}", ";}", "; }"]);
            text = (d.replace("{\n\t", "{").replace(";\n\t", "; ").replace("\n\t}", end).replace(",\n", ",").replace(" = (\n", " = (") + g).into_bytes();
        }
        if s.below(4) == 0 {
            damaged(s, &mut text);
            s.note(&|| format!("{:?}", String::from_utf8_lossy(&text)));
            if let Err(e) = read(&text) { ensure!(e != "panicked", "the reader panicked"); }
            return Ok(());
        }
        s.note(&|| String::from_utf8_lossy(&text).into_owned());
        let r = read(&text).map_err(|e| format!("reading back: {e}"))?;
        ensure!(r.key_length() == m.key_length(), "key length {} became {}", m.key_length(), r.key_length());
        ensure!(r.dim_xyz() == m.dim_xyz(), "size {:?} became {:?}", m.dim_xyz(), r.dim_xyz());
        ensure!(r.grid == m.grid, "the grid changed");
        ensure!(r.dictionary.len() == m.dictionary.len(), "{} entries became {}", m.dictionary.len(), r.dictionary.len());
        for ((ka, a), (kb, b)) in m.dictionary.iter().zip(r.dictionary.iter()) {
            ensure!(ka == kb && a.len() == b.len(), "a dictionary entry changed");
            for (p, q) in a.iter().zip(b) {
                ensure!(p.path == q.path, "path {:?} became {:?}", p.path, q.path);
                let (v, w): (Vec<_>, Vec<_>) = (p.vars.iter().collect(), q.vars.iter().collect());
                ensure!(v.len() == w.len() && v.iter().zip(&w).all(|(a, b)| a.0 == b.0 && alike(a.1, b.1)), "variables {v:?} became {w:?}");
            }
        }
        Ok(())
    },
};
