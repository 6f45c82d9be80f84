M = "crates/dmm-tools/src/minimap.rs"
D = "crates/dmm-tools/src/dmi.rs"
DEPS = ["dmm-tools", "dreammaker", 'lodepng = "3"']
RUN = '''use dmm_tools::{dmm::*, minimap::{self, *}, IconCache, dmi::Image};
use dreammaker::{constants::Constant, Context as Ctx, preprocessor::Preprocessor, indents::IndentProcessor, parser::Parser};
/// draws a map of columns x rows tiles (from the top) of the given kinds; p.dmi is 2x2: red, green above blue, white
#[allow(dead_code)]
fn draw(types: &str, kinds: &[&[(&str, &[(&str, Constant)])]], nx: usize, ny: usize, cells: &[usize], min: (usize, usize), max: (usize, usize)) -> Image {
    let d = std::env::temp_dir().join(format!("c12-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let px: Vec<[u8; 4]> = vec![[255, 0, 0, 255], [0, 255, 0, 255], [0, 0, 255, 255], [255, 255, 255, 255]];
    lodepng::encode32_file(d.join("p.dmi"), &px, 2, 2).unwrap();
    let mut cache = IconCache::default();
    cache.set_icons_root(&d);
    cache.retrieve_shared("p.dmi".as_ref()).unwrap();
    std::fs::remove_dir_all(&d).unwrap();
    let c = Ctx::default();
    let pp = Preprocessor::from_buffer(&c, "t.dm".into(), types.to_owned());
    let tree = Parser::new(&c, IndentProcessor::new(&c, pp)).parse_object_tree();
    let mut m = Map::with_empty_dictionary(nx, ny, 1);
    let mut k = Key::default();
    let mut keys = vec![];
    for kind in kinds {
        m.dictionary.insert(k, kind.iter().map(|(p, v)| { let mut f = Prefab::from_path(*p); for (n, c) in v.iter() { f.vars.insert((*n).into(), c.clone()); } f }).collect());
        keys.push(k);
        k = k.next();
    }
    for y in 0..ny { for x in 0..nx { m.grid[(0, y, x)] = keys[cells[y * nx + x]]; } }
    let (errors, bump) = (Default::default(), Default::default());
    minimap::generate(minimap::Context { objtree: &tree, map: &m, level: m.z_level(0), min, max, render_passes: &[], errors: &errors, bump: &bump, print_errors: false }, &cache).unwrap()
}
#[allow(dead_code)]
fn at(i: &Image, x: usize, y: usize) -> [u8; 4] { let p = i.data.as_slice().unwrap()[y * i.width as usize + x]; [p.r, p.g, p.b, p.a] }
#[allow(dead_code)]
fn n(f: f32) -> Constant { Constant::Float(f) }
const O: &str = "/obj/a\\n\\ticon = 'p.dmi'\\n\\tlayer = 3\\n";
'''
SEEDS = {
 "c12_unstable": dict(property="C12", deps=DEPS, edits=[(M, "    sprites.sort_by_key(", "    sprites.sort_unstable_by_key(")],
  needs="more than twenty sprites of which several share plane and layer",
  breaks="objects of one layer may be drawn in another order than the map's",
  demo=RUN + '''fn main() {
    let colors = ["red", "blue"];
    let kind: Vec<(String, Vec<(&str, Constant)>)> = (0..400).map(|i| ("/obj/a".to_owned(), vec![("color", Constant::String(colors[i % 2].into())), ("layer", n((i / 2 % 3) as f32))])).collect();
    let kind: Vec<(&str, &[(&str, Constant)])> = kind.iter().map(|(p, v)| (p.as_str(), v.as_slice())).collect();
    for k in 1..200 {
        // the white pixel shows the colour of the last of the highest layer
        let g = draw(O, &[&kind[..2 * k]], 1, 1, &[0], (0, 0), (0, 0));
        assert_eq!(at(&g, 1, 31), [0, 0, 255, 255], "{k}");
    }
}
'''),
 "c12_null_override": dict(property="C12", deps=DEPS, edits=[(M, "        if let Some(prefab) = self.prefab {\n            if let Some(v) = prefab.get(key) {", "        if let Some(prefab) = self.prefab {\n            if let Some(v) = prefab.get(key).filter(|v| !v.is_null()) {")],
  needs="a map object with a var set to null that its type sets to something",
  breaks="the type's value is used",
  demo=RUN + '''fn main() {
    let g = draw("/obj/a\\n\\ticon = 'p.dmi'\\n\\tlayer = 3\\n\\tcolor = \\"#f00\\"\\n", &[&[("/obj/a", &[("color", Constant::Null(None))])]], 1, 1, &[0], (0, 0), (0, 0));
    assert_eq!(at(&g, 1, 31), [255, 255, 255, 255]);
}
'''),
 "c12_alpha_zero": dict(property="C12", deps=DEPS, edits=[(M, "&Constant::Float(i) if (0. ..=255.).contains(&i) => i as u8,", "&Constant::Float(i) if i >= 1. && i <= 255. => i as u8,")],
  needs="an object with alpha = 0",
  breaks="it is drawn opaque",
  demo=RUN + '''fn main() {
    let g = draw(O, &[&[("/obj/a", &[("alpha", n(0.0))])]], 1, 1, &[0], (0, 0), (0, 0));
    assert_eq!(at(&g, 1, 31), [0, 0, 0, 0]);
}
'''),
 "c12_partial_rows": dict(property="C12", deps=DEPS, edits=[(M, "    let (min_y, max_y) = (len_y - ctx.max.1 - 1, len_y - ctx.min.1 - 1);", "    let (min_y, max_y) = (len_y - ctx.max.1 - 1, len_y.saturating_sub(ctx.max.1 + 1) + ctx.max.1);")],
  needs="drawing a part of the map that leaves out the bottom rows, with an object there that sticks out upwards",
  breaks="objects outside of the part are drawn",
  demo=RUN + '''fn main() {
    let k: &[(&str, &[(&str, Constant)])] = &[("/obj/a", &[("pixel_y", Constant::Float(32.0))])];
    let g = draw(O, &[&[], k], 1, 2, &[0, 1], (0, 1), (0, 1));
    assert_eq!(at(&g, 1, 31), [0, 0, 0, 0]);
}
'''),
 "c12_bottom_crop": dict(property="C12", deps=DEPS, edits=[(M, "        rect.3 = rect.3.checked_sub(overhang as u32)?;", "        rect.3 = rect.3.checked_sub(overhang as u32)?;\n        rect.1 += overhang as u32;")],
  needs="an object that hangs over the bottom edge",
  breaks="the wrong part of its icon is shown",
  demo=RUN + '''fn main() {
    let g = draw(O, &[&[("/obj/a", &[("pixel_y", n(-1.0))])]], 1, 1, &[0], (0, 0), (0, 0));
    assert_eq!(at(&g, 0, 31), [255, 0, 0, 255]);
}
'''),
 "c12_row_stride": dict(property="C12", deps=["dmm-tools"], edits=[(D, "                let src = other_dat[(sy * other.width + sx) as usize];", "                let src = other_dat[((sy * other.width.min(crop.0 + crop.2)) + sx) as usize];")],
  needs="an icon that is not the rightmost of a sheet with several rows, or is cut at its right",
  breaks="the rows of the icon are read from other places of the sheet",
  demo='''use dmm_tools::dmi::*;
fn main() {
    let mut a = Image::new_rgba(1, 2);
    let mut b = Image::new_rgba(2, 2);
    for (i, p) in b.data.iter_mut().enumerate() { *p = Rgba8::new(i as u8, 0, 0, 255); }
    a.composite(&b, (0, 0), (0, 0, 1, 2), [255; 4]);
    let v: Vec<u8> = a.data.iter().map(|p| p.r).collect();
    assert_eq!(v, [0, 2]);
}
'''),
}
