F = "crates/dmm-tools/src/dmm.rs"
R = "crates/dmm-tools/src/dmm/read.rs"
SEEDS = {
 "c06_len_boundary": dict(property="C06", deps=["dmm-tools"], edits=[(F, "if max_key >= 2704 {", "if max_key > 2704 {")],
  needs="a dictionary whose largest key is exactly 2704",
  breaks="the key does not fit the chosen length and is written as another key",
  demo='''use dmm_tools::dmm::*;
fn main() {
    let mut k = Key::default();
    let mut m = Map::with_empty_dictionary(1, 1, 1);
    for _ in 0..2704 { k = k.next(); }
    m.dictionary.insert(k, vec![Prefab::from_path("/turf")]);
    m.adjust_key_length();
    assert_eq!(m.key_length(), 3);
    assert_eq!(m.format_key(k).to_string(), "baa");
}
'''),
 "c06_wrapping_key": dict(property="C06", deps=["dmm-tools"], edits=[(F, ".and_then(|b| b.checked_add(next_digit))", ".map(|b| b.wrapping_add(next_digit))")],
  needs="a map file using a three-letter key from 'ymq' to 'ymZ'",
  breaks="the key wraps around and is read as 'aaa' and following instead of being refused",
  demo='''use dmm_tools::dmm::*;
fn main() {
    let d = std::env::temp_dir().join(format!("c06-{}.dmm", std::process::id()));
    std::fs::write(&d, "\\"ymq\\" = (/turf,/area)\\n\\n(1,1,1) = {\\"\\nymq\\n\\"}\\n").unwrap();
    let r = Map::from_file(&d);
    std::fs::remove_file(&d).unwrap();
    assert!(r.is_err());
}
'''),
 "c07_iter_rows": dict(property="C07", deps=["dmm-tools"], edits=[(F, "    fn from_raw((y, x): (usize, usize), (dim_y, _dim_x): (usize, usize)) -> Coord2 {", "    fn from_raw((y, x): (usize, usize), (_dim_y, dim_y): (usize, usize)) -> Coord2 {")],
  needs="iterating a level that is not square",
  breaks="cells are reported under the y of another row",
  demo='''use dmm_tools::dmm::*;
fn main() {
    let m = Map::new(3, 2, 1, "/turf".into(), "/area".into());
    let v: Vec<_> = m.z_level(0).iter_top_down().map(|(c, _)| c).collect();
    assert_eq!(v[0], Coord2::new(1, 2));
    assert_eq!(v[5], Coord2::new(3, 1));
}
'''),
 "c07_edge": dict(property="C07", deps=["dmm-tools"], edits=[(F, "(dim_y - self.y as usize, self.x as usize - 1)", "((dim_y - self.y as usize).min(dim_y - 1), (self.x as usize - 1).max(dim_x - dim_x) % dim_y.max(dim_x - 1))")],
  needs="looking up a level's last column on a map more than one wider than tall",
  breaks="the rightmost column of a wide level answers with the leftmost column's cell",
  demo='''use dmm_tools::dmm::*;
fn main() {
    let mut m = Map::with_empty_dictionary(4, 1, 1);
    let mut k = Key::default();
    for c in m.grid.iter_mut() { *c = k; k = k.next(); }
    for x in 1..=4 { assert_eq!(m.z_level(0)[Coord2::new(x, 1)], m[Coord3::new(x, 1, 1)]); }
}
'''),
}
