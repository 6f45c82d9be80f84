use super::*;
use crate::src_::*;
use dmm_tools::dmi::{Dir, Image, Rgba8};
use dmm_tools::dmm::{Key, Map, Prefab};
use dmm_tools::IconCache;
use dmm_tools::minimap::{self, Layer};
use dreammaker::constants::Constant;
use dreammaker::indents::IndentProcessor;
use dreammaker::objtree::ObjectTree;
use dreammaker::parser::Parser;
use dreammaker::preprocessor::Preprocessor;
use dreammaker::Context;
use std::collections::BTreeMap;
use std::sync::OnceLock;

// ---------------------------------------------------------------- what a picture should be
type Px = [u8; 4];
fn at(i: &Image, x: i64, y: i64) -> Px { let p = i.data.as_slice().unwrap()[(y * i.width as i64 + x) as usize]; [p.r, p.g, p.b, p.a] }
fn mul(a: u8, b: u8) -> u8 { (a as u32 * b as u32 / 255) as u8 }
fn over(s: Px, d: Px) -> Px {
    let (sa, da) = (s[3] as u64, d[3] as u64);
    if sa == 0 && da == 0 { return [0; 4]; }
    let (p, q) = (sa * 255, da * (255 - sa));
    let mut out = [0u8; 4];
    for i in 0..3 { out[i] = ((s[i] as u64 * p + d[i] as u64 * q) / (p + q)) as u8; }
    out[3] = s[3] + mul(d[3], 255 - s[3]);
    out
}

fn level(s: &mut dyn Src) -> u8 { match s.below(5) { 0 => 0, 1 => 255, 2 => *pick(s, &[1, 2, 127, 128, 254]), _ => s.u8() } }
fn random(s: &mut dyn Src, w: u32, h: u32) -> Image {
    let mut i = Image::new_rgba(w, h);
    for p in i.data.iter_mut() { *p = Rgba8::new(level(s), level(s), level(s), level(s)); }
    i
}

fn composite(s: &mut dyn Src) -> Result<(), String> {
    let (w, h, ow, oh) = (1 + s.below(5) as u32, 1 + s.below(5) as u32, 1 + s.below(5) as u32, 1 + s.below(5) as u32);
    let a = random(s, w, h);
    let b = random(s, ow, oh);
    let (cw, ch) = (s.below(1 + w.min(ow) as usize) as u32, s.below(1 + h.min(oh) as usize) as u32);
    let pos = (s.below(1 + (w - cw) as usize) as u32, s.below(1 + (h - ch) as usize) as u32);
    let crop = (s.below(1 + (ow - cw) as usize) as u32, s.below(1 + (oh - ch) as usize) as u32, cw, ch);
    let c = if s.bool() { [255; 4] } else { [level(s), level(s), level(s), level(s)] };
    s.note(&|| format!("composite onto {a:?}, of {b:?}, at {pos:?}, part {crop:?}, colour {c:?}"));
    if cw > 0 && ch > 0 { s.nontrivial(); }
    let mut got = a.clone();
    got.composite(&b, pos, crop, c);
    ensure!(got.width == w && got.height == h && got.data.len() == a.data.len(), "the size changed");
    for y in 0..h as i64 { for x in 0..w as i64 {
        let (dx, dy) = (x - pos.0 as i64, y - pos.1 as i64);
        let old = at(&a, x, y);
        let want = if 0 <= dx && dx < cw as i64 && 0 <= dy && dy < ch as i64 {
            let p = at(&b, crop.0 as i64 + dx, crop.1 as i64 + dy);
            over([mul(p[0], c[0]), mul(p[1], c[1]), mul(p[2], c[2]), mul(p[3], c[3])], old)
        } else { old };
        ensure!(at(&got, x, y) == want, "pixel {x},{y} is {:?}, should be {want:?}", at(&got, x, y));
    } }
    Ok(())
}

fn near(s: &mut dyn Src) -> f32 {
    let base = match s.below(4) { 0 => s.range(-5, 5) as f32, 1 => s.range(-300, 300) as f32 / 8.0, 2 => s.range(-32000, 32000) as f32, _ => float(s) };
    let mut f = base;
    for _ in 0..s.below(3) { f = if s.bool() { f.next_up() } else { f.next_down() }; }
    if s.below(6) == 0 { f += *pick(s, &[1e-9, -1e-9, 1e-5, -1e-5, 0.5, -0.5]); }
    f
}

fn layers(s: &mut dyn Src) -> Result<(), String> {
    let (mut a, mut b) = (near(s), near(s));
    if s.below(3) == 0 { b = a; for _ in 0..1 + s.below(4) { b = b.next_up(); } }
    if a > b { std::mem::swap(&mut a, &mut b); }
    if !(-32768.0..32768.0).contains(&a) || !(-32768.0..32768.0).contains(&b) { return Ok(()); }
    s.note(&|| format!("layers {a:?} and {b:?}"));
    s.nontrivial();
    let (x, y) = (Layer::from(a), Layer::from(b));
    ensure!(x <= y, "layer {a:?} is above {b:?}: {x:?}, {y:?}");
    if b - a >= 1.0 / 32768.0 { ensure!(x < y, "layer {a:?} is as high as {b:?}: {x:?}"); }
    if a.fract() == 0.0 { ensure!(x == Layer::from(a as i16) && x == Layer::from(a as i32), "layer {a:?} and {} differ", a as i16); }
    Ok(())
}

// ---------------------------------------------------------------- icons
struct Sheet { name: &'static str, w: u32, h: u32, states: Vec<(&'static str, u32, u32)>, image: Image }
fn slot(n: u32, d: Dir) -> u32 {
    let order = [Dir::South, Dir::North, Dir::East, Dir::West, Dir::Southeast, Dir::Southwest, Dir::Northeast, Dir::Northwest];
    let i = order.iter().position(|x| *x == d).unwrap() as u32;
    if i < n { i } else { 0 }
}
impl Sheet {
    fn rect(&self, state: &str, d: Dir) -> Option<(u32, u32)> {
        if self.states.is_empty() { return Some((0, 0)); }
        let mut off = 0;
        for (n, dirs, frames) in &self.states {
            if *n == state { let i = off + slot(*dirs, d); let c = self.image.width / self.w; return Some((i % c * self.w, i / c * self.h)); }
            off += dirs * frames;
        }
        None
    }
}
struct World { sheets: Vec<Sheet>, cache: IconCache, tree: ObjectTree, vars: BTreeMap<&'static str, Vec<(&'static str, Constant)>> }

const TREE: &str = "
/obj/za
\ticon = 'one.dmi'
\tlayer = 3
/obj/za/zb
\ticon_state = \"on\"
\tcolor = \"#f00\"
/obj/za/zb/zc
\ticon = 'two.dmi'
\tplane = -2
\tpixel_x = 7
\talpha = 100
/turf/zt
\ticon = 'big.dmi'
\tlayer = 2
/obj/zn
\tlayer = 5
";

/// loaded once; the pictures stay in memory, their files are removed again
fn world() -> &'static World {
    static W: OnceLock<World> = OnceLock::new();
    W.get_or_init(|| {
        let dir = std::env::temp_dir().join(format!("vharness-icons-{}", std::process::id()));
        let _ = std::fs::create_dir_all(&dir);
        let mut rng = Rng(7);
        let mut sheets = vec![];
        for (name, w, h, cols, rows, states) in [
            ("one.dmi", 32, 32, 3, 3, vec![("", 4, 1), ("on", 1, 2), ("x", 1, 1)]),
            ("two.dmi", 9, 40, 5, 3, vec![("on", 8, 1), ("", 4, 1), ("off", 1, 1)]),
            ("big.dmi", 70, 45, 1, 1, vec![]),
            ("dot.dmi", 1, 1, 2, 1, vec![("", 1, 2)]),
        ] {
            let mut image = Image::new_rgba(w * cols, h * rows);
            for p in image.data.iter_mut() {
                let r = rng.next();
                let a = match r % 5 { 0 => 0, 1 | 2 => 255, _ => (r >> 40) as u8 };
                *p = Rgba8::new((r >> 8) as u8, (r >> 16) as u8, (r >> 24) as u8, a);
            }
            let mut e = lodepng::Encoder::new();
            e.set_auto_convert(false);
            e.info_raw_mut().colortype = lodepng::ColorType::RGBA;
            e.info_raw_mut().set_bitdepth(8);
            e.info_png_mut().color.colortype = lodepng::ColorType::RGBA;
            e.info_png_mut().color.set_bitdepth(8);
            if !states.is_empty() {
                let mut t = format!("# BEGIN DMI\nversion = 4.0\n\twidth = {w}\n\theight = {h}\n");
                for (n, d, f) in &states { t += &format!("state = \"{n}\"\n\tdirs = {d}\n\tframes = {f}\n"); }
                e.info_png_mut().add_text("Description", &(t + "# END DMI\n")).unwrap();
            }
            let px: Vec<[u8; 4]> = image.data.iter().map(|p| [p.r, p.g, p.b, p.a]).collect();
            e.encode_file(dir.join(name), &px, (w * cols) as usize, (h * rows) as usize).unwrap();
            sheets.push(Sheet { name, w, h, states, image });
        }
        let mut cache = IconCache::default();
        cache.set_icons_root(&dir);
        for s in &sheets { cache.retrieve_shared(s.name.as_ref()).expect("icon does not load"); }
        cache.retrieve_shared("nosuch.dmi".as_ref());
        for s in &sheets { let _ = std::fs::remove_file(dir.join(s.name)); }
        let _ = std::fs::remove_dir(&dir);
        let ctx: &'static Context = Box::leak(Box::default());
        let pp = Preprocessor::from_buffer(ctx, "t.dm".into(), TREE.to_owned());
        let tree = Parser::new(ctx, IndentProcessor::new(ctx, pp)).parse_object_tree();
        let st = |x: &'static str| Constant::String(x.into());
        let file = |x: &'static str| Constant::Resource(x.into());
        let mut vars = BTreeMap::new();
        vars.insert("/obj/za", vec![("icon", file("one.dmi")), ("layer", Constant::Float(3.0))]);
        let mut v: Vec<(&'static str, Constant)> = vars["/obj/za"].clone();
        v.extend([("icon_state", st("on")), ("color", st("#f00"))]);
        vars.insert("/obj/za/zb", v.clone());
        v.retain(|x| x.0 != "icon");
        v.extend([("icon", file("two.dmi")), ("plane", Constant::Float(-2.0)), ("pixel_x", Constant::Float(7.0)), ("alpha", Constant::Float(100.0))]);
        vars.insert("/obj/za/zb/zc", v);
        vars.insert("/turf/zt", vec![("icon", file("big.dmi")), ("layer", Constant::Float(2.0))]);
        vars.insert("/obj/zn", vec![("layer", Constant::Float(5.0))]);
        World { sheets, cache, tree, vars }
    })
}

fn int(c: Option<&Constant>) -> i64 { match c { Some(Constant::Float(f)) => *f as i32 as i64, _ => 0 } }
fn color(c: Option<&Constant>, alpha: Option<&Constant>) -> Px {
    let a = match alpha { Some(Constant::Float(f)) if *f >= 0.0 && *f <= 255.0 => *f as u8, _ => 255 };
    let t = match c { Some(Constant::String(t)) => &**t, _ => return [255, 255, 255, a] };
    if let Some(d) = t.strip_prefix('#') {
        let v: Vec<u8> = d.chars().map(|c| c.to_digit(16).unwrap_or(0) as u8).collect();
        if t.is_ascii() && v.len() == 6 { return [v[0] * 16 + v[1], v[2] * 16 + v[3], v[4] * 16 + v[5], a]; }
        if t.is_ascii() && v.len() == 3 { return [v[0] * 17, v[1] * 17, v[2] * 17, a]; }
        return [255, 255, 255, a];
    }
    let n: u32 = match t {
        "black" => 0, "silver" => 0xc0c0c0, "gray" | "grey" => 0x808080, "white" => 0xffffff, "maroon" => 0x800000, "red" => 0xff0000,
        "purple" => 0x800080, "fuchsia" | "magenta" => 0xff00ff, "green" => 0xc000, "lime" => 0xff00, "olive" | "gold" => 0x808000,
        "yellow" => 0xffff00, "navy" => 0x80, "blue" => 0xff, "teal" => 0x8080, "aqua" | "cyan" => 0xffff, _ => 0xffffff,
    };
    [(n >> 16) as u8, (n >> 8) as u8, n as u8, a]
}

fn offset(s: &mut dyn Src) -> f32 {
    match s.below(10) { 0 => *pick(s, &[1e10, -1e10, 2147483647.0, -2147483648.0, -2147483520.0, 2147483520.0, 70000.0, -70000.0]), 1..=3 => s.range(-100, 100) as f32, 4 => -(s.range(0, 80) as f32), _ => s.range(-20, 20) as f32 }
}

fn scene(s: &mut dyn Src) -> Result<(), String> {
    let w = world();
    let st = |x: &'static str| Constant::String(x.into());
    let mut dict: Vec<Vec<(&'static str, Vec<(&'static str, Constant)>)>> = vec![];
    for _ in 0..1 + s.below(3) {
        let mut tile = vec![];
        let many = s.below(6) == 0;
        for _ in 0..if many { 8 + s.below(24) } else { s.below(4) } {
            let path = *pick(s, &["/obj/za", "/obj/za/zb", "/obj/za/zb/zc", "/turf/zt", "/obj/zn", "/obj/nosuch"]);
            let mut v: Vec<(&'static str, Constant)> = vec![];
            let mut huge = [false; 2];
            if s.below(4) == 0 { v.push(("icon", if s.below(5) == 0 { Constant::Null(None) } else { Constant::Resource((*pick(s, &["one.dmi", "two.dmi", "big.dmi", "dot.dmi", "nosuch.dmi"])).into()) })); }
            if s.below(3) == 0 { v.push(("icon_state", st(*pick(s, &["", "on", "off", "x", "nosuch"])))); }
            if s.below(3) == 0 { v.push(("dir", Constant::Float(*pick(s, &[1., 2., 4., 8., 5., 6., 9., 10., 0., 3., 99., -1.])))); }
            if s.below(3) == 0 { v.push(("color", if s.below(8) == 0 { Constant::Null(None) } else { st(*pick(s, &["#123456", "#fff", "#a0B", "#1234", "#123456789abcdef", "#zzz", "#1é34", "#", "black", "silver", "gray", "grey", "white", "maroon", "red", "purple", "fuchsia", "magenta", "green", "lime", "olive", "gold", "yellow", "navy", "blue", "teal", "aqua", "cyan", "Red", ""])) })); }
            if s.below(3) == 0 { v.push(("alpha", Constant::Float(*pick(s, &[0., 1., 128., 254.9, 255., 256., -1., 60.])))); }
            if s.below(2) == 0 { v.push(("layer", Constant::Float(*pick(s, &[-1.5, -1., -0.5, -1e-9, 0., 0.5, 1., 2., 2.25, 3., 3.01, 3.9, 4., 20., 1000., -1000.])))); }
            if s.below(4) == 0 { v.push(("plane", Constant::Float(*pick(s, &[0., -2., 5., -99., 0.5, 1., -0.5])))); }
            for (n, k) in [("pixel_x", 0), ("pixel_w", 0), ("step_x", 0), ("pixel_y", 1), ("pixel_z", 1), ("step_y", 1)] {
                if s.below(3) == 0 { let f = offset(s); if f.abs() < 1e5 || !huge[k] { huge[k] |= f.abs() >= 1e5; v.push((n, Constant::Float(f))); } }
            }
            tile.push((path, v));
        }
        dict.push(tile);
    }
    let (nx, ny) = (1 + s.below(3), 1 + s.below(3));
    let cells: Vec<usize> = (0..nx * ny).map(|_| s.below(dict.len())).collect();
    let min = (s.below(nx), s.below(ny));
    let max = (min.0 + s.below(nx - min.0), min.1 + s.below(ny - min.1));
    s.note(&|| format!("{nx}x{ny} map (rows from the top) {cells:?} of {dict:?}, drawn from {min:?} to {max:?}; types: {TREE:?}"));
    // ---- the code
    let mut m = Map::with_empty_dictionary(nx, ny, 1);
    let mut k = Key::default();
    let mut keys = vec![];
    for t in &dict {
        m.dictionary.insert(k, t.iter().map(|(p, v)| { let mut f = Prefab::from_path(*p); for (n, c) in v { f.vars.insert((*n).into(), c.clone()); } f }).collect());
        keys.push(k);
        k = k.next();
    }
    for y in 0..ny { for x in 0..nx { m.grid[(0, y, x)] = keys[cells[y * nx + x]]; } }
    let (errors, bump) = (Default::default(), Default::default());
    let got = minimap::generate(minimap::Context { objtree: &w.tree, map: &m, level: m.z_level(0), min, max, render_passes: &[], errors: &errors, bump: &bump, print_errors: false }, &w.cache).map_err(|_| "generate failed")?;
    // ---- the text
    let mut sprites = vec![];
    for y in 0..ny { for x in 0..nx {
        let up = ny - 1 - y;
        if x < min.0 || x > max.0 || up < min.1 || up > max.1 { continue; }
        for (p, v) in &dict[cells[y * nx + x]] {
            let Some(ty) = w.vars.get(p) else { continue };
            let get = |n: &str| v.iter().rev().find(|c| c.0 == n).or_else(|| ty.iter().rev().find(|c| c.0 == n)).map(|c| &c.1);
            let Some(Constant::Resource(icon)) = get("icon") else { continue };
            let Some(sheet) = w.sheets.iter().find(|t| t.name == &**icon) else { continue };
            let state = match get("icon_state") { Some(Constant::String(t)) => &**t, _ => "" };
            let dir = Dir::from_int(int(get("dir")) as i32).unwrap_or(Dir::South);
            let Some(from) = sheet.rect(state, dir) else { continue };
            let layer = match get("layer") { Some(Constant::Float(f)) => *f, _ => 1.0 };
            let plane = match get("plane") { Some(Constant::Float(f)) => *f as i32, _ => 0 };
            let left = (x - min.0) as i64 * 32 + int(get("pixel_x")) + int(get("pixel_w")) + int(get("step_x"));
            let top = (max.1 - up + 1) as i64 * 32 - sheet.h as i64 - int(get("pixel_y")) - int(get("pixel_z")) - int(get("step_y"));
            sprites.push((plane, layer, sheet, from, left, top, color(get("color"), get("alpha"))));
        }
    } }
    if sprites.len() > 1 { s.nontrivial(); }
    sprites.sort_by(|a, b| a.0.cmp(&b.0).then(a.1.partial_cmp(&b.1).unwrap()));
    let (iw, ih) = ((max.0 - min.0 + 1) as i64 * 32, (max.1 - min.1 + 1) as i64 * 32);
    let mut want: Vec<Px> = vec![[0; 4]; (iw * ih) as usize];
    for (_, _, sheet, from, left, top, c) in &sprites {
        for dy in 0..sheet.h as i64 { for dx in 0..sheet.w as i64 {
            let (x, y) = (left + dx, top + dy);
            if x < 0 || y < 0 || x >= iw || y >= ih { continue; }
            let p = at(&sheet.image, from.0 as i64 + dx, from.1 as i64 + dy);
            let d = &mut want[(y * iw + x) as usize];
            *d = over([mul(p[0], c[0]), mul(p[1], c[1]), mul(p[2], c[2]), mul(p[3], c[3])], *d);
        } }
    }
    ensure!(got.width as i64 == iw && got.height as i64 == ih, "the picture is {}x{}, should be {iw}x{ih}", got.width, got.height);
    for y in 0..ih { for x in 0..iw {
        let p = want[(y * iw + x) as usize];
        ensure!(at(&got, x, y) == p, "pixel {x},{y} is {:?}, should be {p:?}", at(&got, x, y));
    } }
    Ok(())
}

pub const C12: Prop = Prop {
    id: "C12", enumerate: false, finite: false,
    rule: "maps of up to 3x3 tiles of up to three kinds with up to three (sometimes thirty) objects each (icons with 1/4/8 facings, offsets, layers, planes, colours, alphas), any part drawn: the picture is compared pixel by pixel with one painted naively; also single blends of small pictures, and pairs of neighbouring layers; non-trivial: at least two sprites",
    run: |s| match s.below(8) {
        0..=1 => composite(s),
        2 => layers(s),
        _ => scene(s),
    },
};
