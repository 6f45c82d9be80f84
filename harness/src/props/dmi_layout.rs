use super::*;
use crate::src_::*;
use dmm_tools::dmi::{render::IconRenderer, Dir, Dirs, Frames, IconFile, Image, Metadata, Rgba8, StateIndex};

struct St { name: String, dirs: usize, frames: Option<usize>, delays: Option<Vec<f32>>, lp: u32, rewind: bool, mv: bool }

/// position of a facing within one frame
fn slot(n: usize, d: Dir) -> usize {
    let order = [Dir::South, Dir::North, Dir::East, Dir::West, Dir::Southeast, Dir::Southwest, Dir::Northeast, Dir::Northwest];
    let i = order.iter().position(|x| *x == d).unwrap();
    if i < n { i } else { 0 }
}

pub const C05: Prop = Prop {
    id: "C05", enumerate: false, finite: false,
    rule: "random icon descriptions of up to seven states (repeated names, 1/4/8 facings, frame counts with or without delays, loop/rewind/movement flags), sheets of up to nine columns; every facing and frame of every state; non-trivial: at least two states",
    run: |s| {
        let (w, h) = (1 + s.below(5) as u32 * 7, 1 + s.below(4) as u32 * 5);
        let n = s.below(8);
        let mut st = vec![];
        for _ in 0..n {
            let name = pick(s, &["", "a", "b", "a", "A", "a ", "a b", "x = y", "b0", "B0", "#", "# END DMI", "é", "\t"]).to_string();
            let dirs = *pick(s, &[1usize, 1, 4, 8]);
            let frames = match s.below(4) { 0 => None, 1 => Some(1), _ => Some(1 + s.below(4)) };
            let delays = if s.below(2) == 0 { None } else {
                let k = frames.unwrap_or(0).max(1) + s.below(3);
                Some((0..k).map(|_| if s.below(3) > 0 { 1.0f32 } else { *pick(s, &[0.5, 2.0, 10.0]) }).collect::<Vec<_>>())
            };
            st.push(St { name, dirs, frames, delays, lp: s.below(3) as u32, rewind: s.below(3) == 0, mv: s.below(3) == 0 });
        }
        let mut t = format!("# BEGIN DMI\nversion = 4.0\n\twidth = {w}\n\theight = {h}\n");
        for x in &st {
            t += &format!("state = \"{}\"\n", x.name);
            if x.dirs > 1 || s.bool() { t += &format!("\tdirs = {}\n", x.dirs); }
            if let Some(f) = x.frames { t += &format!("\tframes = {f}\n"); }
            if let Some(d) = &x.delays { t += &format!("\tdelay = {}\n", d.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")); }
            if x.lp > 0 { t += &format!("\tloop = {}\n", x.lp); }
            if x.rewind || s.below(4) == 0 { t += &format!("\trewind = {}\n", x.rewind as u8); }
            if x.mv || s.below(4) == 0 { t += &format!("\tmovement = {}\n", x.mv as u8); }
            if s.below(6) == 0 { t += "\thotspot = 1,1,1\n"; }
        }
        t += "# END DMI\n";
        s.note(&|| t.clone());
        if n > 1 { s.nontrivial(); }
        let m = Metadata::meta_from_str(&t).map_err(|e| format!("rejected: {e}"))?;
        ensure!(m.width == w && m.height == h, "size read as {}x{}", m.width, m.height);
        ensure!(m.states.len() == n, "{} states read, {n} written", m.states.len());
        let mut off = 0usize;
        let mut names = 0;
        for (i, x) in st.iter().enumerate() {
            let r = &m.states[i];
            let count = match (&x.frames, &x.delays) { (Some(f), _) => *f, (None, Some(d)) => d.len(), (None, None) => 1 };
            let dup = st[..i].iter().filter(|y| y.name == x.name).count();
            let dirs = match r.dirs { Dirs::One => 1, Dirs::Four => 4, Dirs::Eight => 8 };
            ensure!(r.name == x.name && dirs == x.dirs && r.loop_ == x.lp && r.rewind == x.rewind && r.movement == x.mv, "state {i} read as {r:?}");
            ensure!(r.frames.count() == count, "state {i} has {} frames, {count} written", r.frames.count());
            let used: Vec<f32> = x.delays.as_ref().map(|d| d[..count].to_vec()).unwrap_or_else(|| vec![1.0; count]);
            for k in 0..count { ensure!(r.frames.delay(k) == used[k], "state {i} frame {k} lasts {}, written {}", r.frames.delay(k), used[k]); }
            ensure!(matches!(r.frames, Frames::Delays(_)) == used.iter().any(|v| *v != 1.0), "state {i}: delays kept wrongly: {:?}", r.frames);
            ensure!(r.is_animated() == (count > 1 || used.iter().any(|v| *v != 1.0)), "state {i} is_animated: {}", r.is_animated());
            ensure!(r.offset == off, "state {i} starts at sprite {}, {off} sprites precede it", r.offset);
            ensure!(r.num_sprites() == count * x.dirs, "state {i} has {} sprites", r.num_sprites());
            ensure!(r.duplicate_index as usize == dup, "state {i} is number {} of its name, {dup} precede it", r.duplicate_index);
            let key = r.get_state_name_index();
            match m.get_icon_state(&key) { Some(g) => ensure!(std::ptr::eq(g, r), "looking up state {i} ({key}) finds another state"), None => return Err(format!("state {i} ({key}) is not found")) }
            if dup == 0 { names += 1; match m.get_icon_state(&StateIndex::from(x.name.as_str())) { Some(g) => ensure!(std::ptr::eq(g, r), "name {:?} finds a state other than the first", x.name), None => return Err("first state of a name not found".into()) } }
            for d in Dir::ALL {
                for f in 0..count {
                    let want = off + slot(x.dirs, *d) + f * x.dirs;
                    ensure!(r.index_of_frame(*d, f as u32) as usize == want, "state {i} {d:?} frame {f} is sprite {}, expected {want}", r.index_of_frame(*d, f as u32));
                }
                ensure!(r.index_of_dir(*d) as usize == off + slot(x.dirs, *d), "state {i} index_of_dir {d:?}");
            }
            off += count * x.dirs;
        }
        let _ = names;
        ensure!(m.get_icon_state(&StateIndex::from("absent")).is_none(), "a state that does not exist is found");
        // the sheet itself
        let cols = 1 + s.below(9);
        let rows = off.div_ceil(cols).max(1);
        let bw = cols as u32 * w + s.below(w as usize) as u32;
        let bh = rows as u32 * h;
        let mut img = Image::new_rgba(bw, bh);
        if off * (w * h) as usize <= 6000 {
            let (width, sl) = (bw, img.data.as_slice_mut().unwrap());
            for (i, p) in sl.iter_mut().enumerate() { let (x, y) = (i as u32 % width, i as u32 / width); *p = Rgba8 { r: x as u8, g: y as u8, b: (x / 256 * 16 + y / 256) as u8, a: 255 }; }
        }
        let drawn = off * (w * h) as usize <= 6000;
        let icon = IconFile { metadata: m, image: img };
        let m = &icon.metadata;
        if n == 0 {
            ensure!(m.rect_of(bw, &StateIndex::from(""), Dir::South, 0) == Some((0, 0, w, h)), "stateless icon");
            return Ok(());
        }
        let cell = |i: usize| ((i % cols) as u32 * w, (i / cols) as u32 * h, w, h);
        for i in 0..off { ensure!(icon.rect_of_index(i as u32) == cell(i), "sprite {i} is at {:?}, expected {:?}", icon.rect_of_index(i as u32), cell(i)); }
        for (i, r) in m.states.iter().enumerate() {
            let key = r.get_state_name_index();
            let (count, nd) = (r.frames.count(), r.dirs.count());
            for d in Dir::ALL {
                for f in 0..count {
                    let want = cell(r.offset + slot(nd, *d) + f * nd);
                    let got = m.rect_of(bw, &key, *d, f as u32);
                    ensure!(got == Some(want), "state {i} {d:?} frame {f} is at {got:?}, expected {want:?}");
                    if f == 0 { ensure!(icon.rect_of(&key, *d) == Some(want), "IconFile::rect_of for state {i} {d:?}: {:?}, expected {want:?}", icon.rect_of(&key, *d)); }
                }
            }
            if drawn {
                let imgs = IconRenderer::new(&icon).render_to_images(&key).map_err(|e| e.to_string())?;
                let seq: Vec<usize> = if r.rewind { (0..count).chain((0..count).rev()).collect() } else { (0..count).collect() };
                ensure!(imgs.len() == seq.len(), "state {i} renders {} frames", imgs.len());
                for (im, f) in imgs.iter().zip(seq) {
                    ensure!(im.width == w * nd as u32 && im.height == h, "state {i} frame size {}x{}", im.width, im.height);
                    let (a, b) = (im.data.as_slice().unwrap(), icon.image.data.as_slice().unwrap());
                    for k in 0..nd {
                        let c = cell(r.offset + k + f * nd);
                        for (y, x) in [(0, 0), (h - 1, w - 1), (0, w - 1), (h - 1, 0)] {
                            let p = a[(y * im.width + k as u32 * w + x) as usize];
                            let q = b[((c.1 + y) * bw + c.0 + x) as usize];
                            ensure!(p == q, "state {i} frame {f} facing number {k}: pixel ({x},{y}) is {p:?}, the sheet has {q:?}");
                        }
                    }
                }
            }
        }
        Ok(())
    },
};
