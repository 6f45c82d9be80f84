E = "crates/dreammaker/src/error.rs"
C = "crates/dreammaker/src/config.rs"
L = "crates/dreammaker/src/lexer.rs"
SEEDS = {
 "c13_pred_line": dict(property="C13", deps=["dreammaker"], edits=[(E, "if self.column != 0 {\n            self.column -= 1;", "if self.column > 1 {\n            self.column -= 1;")],
  needs="the predecessor of the first column of a line",
  breaks="pred() jumps to the end of the previous line, over column 0 of its own",
  demo='''use dreammaker::Location;
fn main() {
    let l = Location { line: 7, column: 1, ..Location::builtins() };
    assert_eq!(l.pred(), Location { line: 7, column: 0, ..l });
}
'''),
 "c13_bom_shift": dict(property="C13", deps=["dreammaker"], edits=[(L, "            this.offset += 3;", "            this.offset += 3;\n            this.location.line += 1;\n            this.at_line_end = false;\n            this.location.column = this.offset as u16 - 2;")],
  needs="a file starting with a UTF-8 byte order mark",
  breaks="columns of the first line are shifted by one",
  demo='''use dreammaker::{FileId, lexer::LocationTracker};
fn main() {
    let mut t = LocationTracker::new(FileId::default(), (&b"\\xef\\xbb\\xbfab"[..]).into());
    t.next();
    assert_eq!((t.location().line, t.location().column), (1, 1));
}
'''),
 "c13_reverse_id": dict(property="C13", deps=["dreammaker"], edits=[(E, "        let len = files.len() as u16;\n        files.push(path.to_owned());", "        if let Some(free) = files.iter().position(|f| f.file_name() == path.file_name() && f.is_relative() != path.is_relative()) {\n            let id = FileId(free as u16 + FILEID_MIN.0);\n            self.reverse_files.borrow_mut().insert(path.to_owned(), id);\n            return id;\n        }\n        let len = files.len() as u16;\n        files.push(path.to_owned());")],
  needs="an absolute and a relative path with the same file name",
  breaks="two different files share one id",
  demo='''use dreammaker::FileList;
use std::path::Path;
fn main() {
    let l = FileList::default();
    let (a, b) = (l.register(Path::new("code/a.dm")), l.register(Path::new("/other/a.dm")));
    assert_ne!(a, b);
    assert_eq!(&*l.get_path(b), Path::new("/other/a.dm"));
}
'''),
 "c14_level_first": dict(property="C14", deps=["dreammaker"], edits=[(E, "        let Some(error) = self.config.set_configured_severity(error) else {\n            return; // errortype is disabled\n        };\n        // ignore errors with severity above configured level\n        if !self.config.registerable_error(&error) {\n            return;\n        }", "        // ignore errors with severity above configured level\n        if !self.config.registerable_error(&error) {\n            return;\n        }\n        let Some(error) = self.config.set_configured_severity(error) else {\n            return; // errortype is disabled\n        };")],
  needs="a type whose configured severity lies on the other side of the error level than its own",
  breaks="the level is applied to the severity before configuration: raised diagnostics vanish, lowered ones stay",
  demo='''use dreammaker::*;
fn main() {
    let f = std::env::temp_dir().join(format!("c14-{}.toml", std::process::id()));
    std::fs::write(&f, "[display]\\nerror_level = \\"warning\\"\\n[diagnostics]\\na = \\"error\\"\\nb = \\"hint\\"\\n").unwrap();
    let mut c = Context::default();
    c.force_config(&f);
    std::fs::remove_file(&f).unwrap();
    DMError::new(Location::default(), "x").set_severity(Severity::Hint).with_errortype("a").register(&c);
    DMError::new(Location::default(), "y").with_errortype("b").register(&c);
    assert_eq!(c.errors().iter().map(|e| e.description().to_owned()).collect::<Vec<_>>(), ["x"]);
}
'''),
 "c14_unset_level": dict(property="C14", deps=["dreammaker"], edits=[(C, "            Some(WarningLevel::Disabled) => return None,", "            Some(WarningLevel::Disabled) if error.severity() == Severity::Error => error,\n            Some(WarningLevel::Disabled) => return None,")],
  needs="a disabled type registered with severity error",
  breaks="it is recorded although the configuration turns it off",
  demo='''use dreammaker::*;
fn main() {
    let f = std::env::temp_dir().join(format!("c14-{}.toml", std::process::id()));
    std::fs::write(&f, "[diagnostics]\\na = \\"off\\"\\n").unwrap();
    let mut c = Context::default();
    c.force_config(&f);
    std::fs::remove_file(&f).unwrap();
    DMError::new(Location::default(), "x").with_errortype("a").register(&c);
    assert!(c.errors().is_empty());
}
'''),
}
