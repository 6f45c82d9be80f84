F = "crates/dreammaker/src/dmi.rs"
T = "crates/dmm-tools/src/dmi.rs"
SEEDS = {
 "c05_ceil_columns": dict(property="C05", deps=["dmm-tools"], edits=[(T, "let icon_count = self.image.width / self.metadata.width;", "let icon_count = self.image.width.div_ceil(self.metadata.width);")],
  needs="a sheet whose width is not a multiple of the icon width, and a sprite beyond the first row",
  breaks="sprites after the first row are read from cells outside the grid",
  demo='''use dmm_tools::dmi::*;
fn main() {
    let m = Metadata::meta_from_str("# BEGIN DMI\\nversion = 4.0\\nwidth = 8\\nheight = 8\\nstate = \\"a\\"\\ndirs = 4\\nframes = 2\\n# END DMI").unwrap();
    let f = IconFile { metadata: m, image: Image::new_rgba(28, 32) };
    for i in 0..8 { assert_eq!(f.rect_of_index(i), ((i % 3) * 8, (i / 3) * 8, 8, 8)); }
}
'''),
 "c05_diag_slots": dict(property="C05", deps=["dreammaker"], edits=[(F, "(Dirs::Eight, Dir::Northeast) => 6,\n            (Dirs::Eight, Dir::Southwest) => 5,", "(Dirs::Eight, Dir::Northeast) => 5,\n            (Dirs::Eight, Dir::Southwest) => 6,")],
  needs="an eight-facing state shown facing northeast or southwest",
  breaks="the sprites of two diagonal facings are exchanged",
  demo='''use dreammaker::dmi::*;
fn main() {
    let m = Metadata::meta_from_str("# BEGIN DMI\\nversion = 4.0\\nwidth = 8\\nheight = 8\\nstate = \\"a\\"\\ndirs = 8\\nframes = 1\\n# END DMI").unwrap();
    let order = [Dir::South, Dir::North, Dir::East, Dir::West, Dir::Southeast, Dir::Southwest, Dir::Northeast, Dir::Northwest];
    for (i, d) in order.iter().enumerate() { assert_eq!(m.states[0].index_of_dir(*d), i as u32, "{d:?}"); }
}
'''),
 "c05_case_names": dict(property="C05", deps=["dreammaker"], edits=[(F, "duplicate_map.entry(unquoted.clone())", "duplicate_map.entry(unquoted.to_lowercase())")],
  needs="two states whose names differ only in case",
  breaks="the second one is numbered as a duplicate and is not found by its name",
  demo='''use dreammaker::dmi::*;
fn main() {
    let m = Metadata::meta_from_str("# BEGIN DMI\\nversion = 4.0\\nwidth = 8\\nheight = 8\\nstate = \\"door\\"\\ndirs = 1\\nframes = 1\\nstate = \\"Door\\"\\ndirs = 1\\nframes = 1\\n# END DMI").unwrap();
    assert!(m.get_icon_state(&StateIndex::from("Door")).is_some());
    assert!(m.get_icon_state(&StateIndex::from("door")).is_some());
}
'''),
}
