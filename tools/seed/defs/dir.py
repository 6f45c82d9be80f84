D = "crates/dreammaker/src/dmi.rs"
SEEDS = {
 "c04_ccw45": {"property": "C04", "deps": ["dreammaker"],
  "edits": [(D, "            Dir::Southeast => Dir::East,\n            Dir::South => Dir::Southeast,", "            Dir::Southeast => Dir::South,\n            Dir::South => Dir::Southeast,")],
  "needs": "the single facing southeast", "breaks": "turning southeast counterclockwise by 45 degrees goes clockwise",
  "demo": '''use dreammaker::dmi::Dir;
fn main() { for &d in Dir::ALL { assert_eq!(d.counterclockwise_45().clockwise_45(), d); assert_eq!(d.counterclockwise_45().counterclockwise_45(), d.counterclockwise_90()); } }
'''},
 "c04_from_int": {"property": "C04", "deps": ["dreammaker"],
  "edits": [(D, "        Some(match int {\n            1 =>", "        Some(match int & 0xff {\n            1 =>")],
  "needs": "an integer that is a facing only modulo 256", "breaks": "integers that are no facing are accepted",
  "demo": '''use dreammaker::dmi::Dir;
fn main() { for i in -2000..2000 { let ok = [1, 2, 4, 8, 5, 9, 6, 10].contains(&i); assert_eq!(Dir::from_int(i).is_some(), ok, "{i}"); if let Some(d) = Dir::from_int(i) { assert_eq!(d.to_int(), i); } } }
'''},
}
