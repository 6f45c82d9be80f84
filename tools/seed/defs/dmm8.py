
R = "crates/dmm-tools/src/dmm/read.rs"
W = "crates/dmm-tools/src/dmm/save_tgm.rs"
DEPS = ["dmm-tools", "dreammaker"]
RUN = '''use dmm_tools::dmm::*;
use dreammaker::constants::Constant;
#[allow(dead_code)]
fn load(text: &[u8]) -> Result<Map, String> {
    let p = std::env::temp_dir().join(format!("c08-{}.dmm", std::process::id()));
    std::fs::write(&p, text).unwrap();
    let r = std::panic::catch_unwind(|| Map::from_file(&p));
    std::fs::remove_file(&p).unwrap();
    r.map_err(|_| "panic".to_owned())?.map_err(|e| e.to_string())
}
/// one object with these variables, written and read
#[allow(dead_code)]
fn again(vars: &[(&str, Constant)]) -> Vec<(String, Constant)> {
    let mut m = Map::new(1, 1, 1, "/turf".into(), "/area".into());
    let k = Key::default().next();
    let mut p = Prefab::from_path("/obj");
    for (n, v) in vars { p.vars.insert((*n).into(), v.clone()); }
    m.dictionary.insert(k, vec![p, Prefab::from_path("/mob")]);
    let mut o = vec![];
    m.to_writer(&mut o).unwrap();
    let r = load(&o).unwrap();
    assert_eq!(r.dictionary[&k].len(), 2);
    r.dictionary[&k][0].vars.iter().map(|(a, b)| (a.clone(), b.clone())).collect()
}
#[allow(dead_code)]
fn s(t: &'static str) -> Constant { Constant::String(t.into()) }
#[allow(dead_code)]
fn n(f: f32) -> Constant { Constant::Float(f) }
'''
SEEDS = {
 "c08_url": dict(property="C08", deps=DEPS, edits=[(R, "if ch == b'/' && !in_quote_block {", "if ch == b'/' && !escaping {")],
  needs="a variable whose string holds two slashes in a row",
  breaks="the rest of the line, with the closing quote, is taken for a comment",
  demo=RUN + '''fn main() {
    let v = again(&[("name", s("see https://example.org")), ("dir", n(4.0))]);
    assert_eq!(v, vec![("name".to_owned(), s("see https://example.org")), ("dir".to_owned(), n(4.0))]);
}
'''),
 "c08_equals": dict(property="C08", deps=DEPS, edits=[(R, "} else if ch == b'=' && curr_var.is_empty() {", "} else if ch == b'=' && !curr_datum.is_empty() {")],
  needs="a variable whose value has an equals sign outside a string: an associative list",
  breaks="the value is cut at the sign and the key becomes the variable's name",
  demo=RUN + '''fn main() {
    let l = Constant::List(vec![(s("a"), Some(n(1.0))), (s("b"), Some(n(2.0)))].into());
    let v = std::panic::catch_unwind(|| again(&[("contents", l.clone())])).unwrap();
    assert_eq!(v, vec![("contents".to_owned(), l)]);
}
'''),
 "c08_doubled": dict(property="C08", deps=DEPS, edits=[(R, "if grid.insert((curr_x, curr_y, curr_z), Key(key)).is_some() {", "if grid.insert((curr_x, curr_y, curr_z), Key(key)).is_some_and(|k| k != Key(key)) {")],
  needs="two blocks of the grid which overlap with the same key, say two columns with the same number, and another column missing or not",
  breaks="a place that is written twice is accepted",
  demo=RUN + r'''fn main() {
    let d = "\"a\" = (/turf,/area)\n\"b\" = (/turf/x,/area)\n\n";
    assert!(load(format!("{d}(1,1,1) = {{\"\na\nb\n\"}}\n(2,1,1) = {{\"\na\nb\n\"}}\n").as_bytes()).is_ok());
    assert!(load(format!("{d}(1,1,1) = {{\"\na\nb\n\"}}\n(1,1,1) = {{\"\na\nb\n\"}}\n").as_bytes()).is_err());
}
'''),
}
