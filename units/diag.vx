@@header
use vstd::prelude::*;

@@source err crates/dreammaker/src/error.rs
@@source lex crates/dreammaker/src/lexer.rs
@@source cfg crates/dreammaker/src/config.rs

@@include prelude.inc

@@type err::FileId derive Clone, Copy, PartialEq, Eq, Structural
@@type err::Location derive Clone, Copy, PartialEq, Eq, Structural
@@type err::Severity derive Clone, Copy, PartialEq, Eq, Structural
@@type err::Component derive Clone, Copy, PartialEq, Eq, Structural
@@type cfg::WarningLevel derive Clone, Copy, PartialEq, Eq, Structural
@@type cfg::WarningDisplay

@@verbatim
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None::<T> }),
;
// ---- trusted stand-ins: paths (compared by their text), maps keyed by text, causes
#[verifier::external_body]
pub struct PathBuf { _x: u8 }
pub type Path = PathBuf;
impl PathBuf {
    pub uninterp spec fn view(&self) -> int;
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &PathBuf) ensures r@ == self@ { unimplemented!() }
}
/// Path::new("(builtins)") and Path::new("(unknown)")
pub uninterp spec fn builtins_path() -> int;
pub uninterp spec fn unknown_path() -> int;
#[verifier::external_body]
pub fn vx_builtins<'a>() -> (r: &'a PathBuf) ensures r@ == builtins_path() { unimplemented!() }
#[verifier::external_body]
pub fn vx_unknown<'a>() -> (r: &'a PathBuf) ensures r@ == unknown_path() { unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct HashMap<K, V> { _x: Vec<(K, V)> }
impl HashMap<PathBuf, FileId> {
    pub uninterp spec fn view(&self) -> Map<int, FileId>;
    #[verifier::external_body]
    pub fn get(&self, k: &PathBuf) -> (r: Option<&FileId>)
        ensures r matches Some(v) ==> self@.contains_key(k@) && *v == self@[k@], r is None ==> !self@.contains_key(k@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: PathBuf, v: FileId) -> (r: Option<FileId>)
        ensures final(self)@ == old(self)@.insert(k@, v),
    { unimplemented!() }
}
impl HashMap<String, WarningLevel> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, WarningLevel>;
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&WarningLevel>)
        ensures r matches Some(v) ==> self@.contains_key(k@) && *v == self@[k@], r is None ==> !self@.contains_key(k@),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Cause { _x: u8 }
#[verifier::external_body]
pub struct Stream { _x: u8 }
#[verifier::external_body]
pub struct CodeStandards { _x: u8 }
#[verifier::external_body]
pub struct Langserver { _x: u8 }
#[verifier::external_body]
pub struct DMDoc { _x: u8 }
#[verifier::external_body]
pub struct Debugger { _x: u8 }
#[verifier::external_body]
pub struct MapRenderer { _x: u8 }
#[verifier::external_body]
pub struct Duration { _x: u8 }

@@type err::DiagnosticNote
@@type err::DMError
@rewrite <<<Option<Box<dyn error::Error + Send + Sync> > >>> => <<<Option<Cause> >>>
@@type cfg::Config
@@type err::FileList
@rewrite <<<RefCell<Vec<PathBuf> > >>> => <<<Vec<PathBuf> >>>
@rewrite <<<RefCell<HashMap<PathBuf, FileId> > >>> => <<<HashMap<PathBuf, FileId> >>>
@@type err::Context
@rewrite <<<RefCell<Vec<DMError> > >>> => <<<Vec<DMError> >>>
@rewrite <<<std::cell::Cell<std::time::Duration> >>> => <<<Duration>>>

@@verbatim
// ---------------------------------------------------------------- locations
/// the order of places: by file, then line, then column (this is the derived Ord)
pub open spec fn before(a: Location, b: Location) -> bool {
    a.file.0 < b.file.0 || (a.file.0 == b.file.0 && (a.line < b.line || (a.line == b.line && a.column < b.column)))
}
pub open spec fn packed(l: Location) -> int { l.file.0 * 0x1_0000_0000_0000 + l.line * 0x1_0000 + l.column }

@@fn err::Location::builtins
@ret r
@spec
    ensures r.file == FileId(0), r.line == 1, r.column == 1,

@@fn err::Location::is_builtins
@ret r
@spec
    ensures r == (self.file.0 == 0),

@@fn err::Location::pack
@ret r
@rewrite <<<u64::from(self.file.0)>>> => <<<(self.file.0 as u64)>>>
@rewrite <<<u64::from(self.line)>>> => <<<(self.line as u64)>>>
@rewrite <<<u64::from(self.column)>>> => <<<(self.column as u64)>>>
@spec
    ensures r == packed(self),
@ghost start
    proof {
        let (f, l, c) = (self.file.0 as u64, self.line as u64, self.column as u64);
        assert((f << 48) | (l << 16) | c == f * 0x1_0000_0000_0000 + l * 0x1_0000 + c) by (bit_vector)
            requires f < 0x1_0000, l < 0x1_0000_0000, c < 0x1_0000;
    }

@@fn err::Location::pred
@ret r
@spec
    requires self.file.0 != 0 || self.line != 0 || self.column != 0,
    ensures
        // the unset location stays as it is; any other gets its immediate predecessor
        self == (Location { file: FileId(0xffff), line: 0, column: 0 }) ==> r == self,
        self != (Location { file: FileId(0xffff), line: 0, column: 0 }) ==> before(r, self) && forall|x: Location| #[trigger] before(x, self) ==> !before(r, x),
@ghost start
    proof { assert(!0u16 == 0xffffu16) by (bit_vector); assert(!0u32 == 0xffff_ffffu32) by (bit_vector); }

@@fn err::Location::add_columns
@ret r
@spec
    requires self.column + num <= 0xffff,
    ensures r.file == self.file, r.line == self.line, r.column == self.column + num,

@@type lex::LocationTracker
@rewrite <<<Cow<'a, [u8]> >>> => <<<&'a [u8]>>>

@@verbatim
// ---------------------------------------------------------------- lines and columns
/// line and column of byte i, when the first counted byte (number start) is at line l0, column c0
pub open spec fn place(s: Seq<u8>, start: int, l0: int, c0: int, i: int) -> (int, int) decreases i - start {
    if i <= start { (l0, c0) } else {
        let p = place(s, start, l0, c0, i - 1);
        if s[i - 1] == 10 { (p.0 + 1, 1) } else { (p.0, p.1 + 1) }
    }
}
impl<'a> LocationTracker<'a> {
    /// the location is that of the byte returned last
    pub open spec fn wf(&self, start: int, l0: int, c0: int) -> bool {
        let (s, o, l) = (self.inner@, self.offset as int, self.location);
        &&& 0 <= start <= o <= s.len()
        // nothing read yet
        &&& o == start ==> (if self.at_line_end { l.line + 1 == l0 && c0 == 1 } else { l.line == l0 && l.column + 1 == c0 })
        &&& o > start ==> {
            let p = place(s, start, l0, c0, o - 1);
            if s[o - 1] == 10 && !self.at_line_end { l.line == p.0 + 1 && l.column == 0 } else { l.line == p.0 && l.column == p.1 && self.at_line_end == (s[o - 1] == 10) }
        }
    }
}
#[verifier::external_body]
pub fn vx_starts_with(s: &[u8], p: [u8; 3]) -> (r: bool)
    ensures r == (s@.len() >= 3 && s@[0] == p@[0] && s@[1] == p@[1] && s@[2] == p@[2]),
{ unimplemented!() }
pub open spec fn bom(s: Seq<u8>) -> bool { s.len() >= 3 && s[0] == 0xef && s[1] == 0xbb && s[2] == 0xbf }

@@fn lex::LocationTracker::new
@ret r
@sig <<<fn new(file: FileId, inner: &'a [u8]) -> LocationTracker<'a> >>>
@rewrite <<<this.inner.starts_with(b"\xEF\xBB\xBF")>>> => <<<vx_starts_with(this.inner, [0xefu8, 0xbbu8, 0xbfu8])>>>
@spec
    ensures r.inner@ == inner@, r.offset == (if bom(inner@) { 3int } else { 0 }), r.wf(r.offset as int, 1, 1), r.location.file == file,

@@fn lex::LocationTracker::from_location
@ret r
@sig <<<fn from_location(location: Location, inner: &'a [u8]) -> LocationTracker<'a> >>>
@spec
    requires location.column >= 1,
    ensures r.inner@ == inner@, r.offset == 0, r.wf(0, location.line as int, location.column as int), r.location.file == location.file,
@ghost start
    let ghost at = location;
    let ghost e = Location { file: at.file, line: at.line, column: (at.column - 1) as u16 };
    proof { assert(!0u16 == 0xffffu16) by (bit_vector); assert(before(e, at)); }

@@fn lex::LocationTracker::location
@ret r
@spec
    ensures r == self.location,

@@fn lex::LocationTracker::remaining
@ret r
@rewrite <<<&self.inner[self.offset..]>>> => <<<vx_from(self.inner, self.offset)>>>
@spec
    requires self.offset <= self.inner@.len(),
    ensures r@ == self.inner@.subrange(self.offset as int, self.inner@.len() as int),

@@verbatim
#[verifier::external_body]
pub fn vx_from(s: &[u8], o: usize) -> (r: &[u8])
    requires o <= s@.len(),
    ensures r@ == s@.subrange(o as int, s@.len() as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_byte(s: &[u8], o: usize) -> (r: Option<&u8>)
    ensures s@.len() <= usize::MAX, r matches Some(b) ==> o < s@.len() && *b == s@[o as int], r is None ==> o >= s@.len(),
{ unimplemented!() }

@@fn lex::LocationTracker.Iterator::next
@name advance
@sig <<<fn advance(&mut self, Ghost(start): Ghost<int>, Ghost(l0): Ghost<int>, Ghost(c0): Ghost<int>) -> Option<u8> >>>
@impl <<<impl<'a> LocationTracker<'a> >>>
@ret r
@opt partial
@rewrite <<<self.inner.get(self.offset)>>> => <<<vx_byte(self.inner, self.offset)>>>
@spec
    requires old(self).wf(start, l0, c0),
    ensures
        final(self).wf(start, l0, c0), final(self).inner@ == old(self).inner@, final(self).location.file == old(self).location.file,
        old(self).offset == old(self).inner@.len() ==> r is None && final(self).offset == old(self).offset,
        old(self).offset < old(self).inner@.len() ==> {
            &&& r == Some(old(self).inner@[old(self).offset as int]) && final(self).offset == old(self).offset + 1
            // the byte is reported at its own line and column
            &&& (final(self).location.line as int, final(self).location.column as int) == place(old(self).inner@, start, l0, c0, old(self).offset as int)
        },

@@verbatim
/// packing is injective and keeps the order, taking the predecessor is invertible on the left
pub fn pack_order(a: Location, b: Location) {
    let (x, y) = (a.pack(), b.pack());
    assert((x < y) == before(a, b)) by (nonlinear_arith)
        requires x == packed(a), y == packed(b), a.line <= u32::MAX, b.line <= u32::MAX, a.column <= u16::MAX, b.column <= u16::MAX;
    assert((x == y) == (a == b)) by {
        assert((x == y) == (a.file.0 == b.file.0 && a.line == b.line && a.column == b.column)) by (nonlinear_arith)
            requires x == packed(a), y == packed(b), a.line <= u32::MAX, b.line <= u32::MAX, a.column <= u16::MAX, b.column <= u16::MAX;
    }
}

// ---------------------------------------------------------------- the file list
impl FileList {
    /// ids are handed out in order from 1, each for one path, and found again by it
    pub open spec fn wf(&self) -> bool {
        &&& self.files.len() <= 0xfffe
        &&& forall|p: int| #[trigger] self.reverse_files@.contains_key(p) ==> {
            let id = self.reverse_files@[p];
            1 <= id.0 <= self.files.len() && self.files[id.0 - 1]@ == p
        }
        &&& forall|i: int| 0 <= i < self.files.len() ==> self.reverse_files@.contains_key(#[trigger] self.files[i]@) && self.reverse_files@[self.files[i]@].0 == i + 1
    }
}

@@fn err::FileList::register
@ret r
@opt partial
@sig <<<fn register(&mut self, path: &Path) -> FileId>>>
@rewrite <<<self.reverse_files.borrow().get(path)>>> => <<<self.reverse_files.get(path)>>>
@rewrite <<<.cloned()>>> => <<<.copied()>>>
@rewrite <<<let mut files = self.files.borrow_mut();>>> => <<<let files = &mut self.files;>>>
@rewrite <<<self.reverse_files.borrow_mut()>>> => <<<self.reverse_files>>>
@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        // a valid id, neither the one for builtins nor the one for no file
        1 <= r.0 <= 0xfffe,
        final(self).reverse_files@.contains_key(path@) && final(self).reverse_files@[path@] == r,
        old(self).reverse_files@.contains_key(path@) ==> *final(self) == *old(self),
        // nothing registered before changes
        forall|i: int| 0 <= i < old(self).files.len() ==> final(self).files.len() > i && final(self).files[i]@ == #[trigger] old(self).files[i]@,
        forall|p: int| old(self).reverse_files@.contains_key(p) ==> final(self).reverse_files@.contains_key(p) && final(self).reverse_files@[p] == old(self).reverse_files@[p],
        !old(self).reverse_files@.contains_key(path@) ==> r.0 == old(self).files.len() + 1,
@ghost end
    proof {
        assert(self.files.len() == old(self).files.len() + 1);
        assert forall|i: int| 0 <= i < self.files.len() implies self.reverse_files@.contains_key(#[trigger] self.files[i]@) && self.reverse_files@[self.files[i]@].0 == i + 1 by {
            if i < old(self).files.len() { assert(self.files[i] == old(self).files[i]); }
        }
        assert forall|p: int| #[trigger] self.reverse_files@.contains_key(p) implies ({
            let id = self.reverse_files@[p];
            1 <= id.0 <= self.files.len() && self.files[id.0 - 1]@ == p
        }) by {
            if p != path@ { assert(old(self).reverse_files@.contains_key(p)); assert(self.files[self.reverse_files@[p].0 - 1] == old(self).files[self.reverse_files@[p].0 - 1]); }
        }
    }

@@fn err::FileList::get_id
@ret r
@rewrite <<<self.reverse_files.borrow().get(path)>>> => <<<self.reverse_files.get(path)>>>
@rewrite <<<.cloned()>>> => <<<.copied()>>>
@spec
    requires self.wf(),
    ensures
        r matches Some(id) ==> self.reverse_files@.contains_key(path@) && self.reverse_files@[path@] == id,
        r is None ==> !self.reverse_files@.contains_key(path@),

@@fn err::FileList::get_path
@ret r
@sig <<<fn get_path(&self, file: FileId) -> &Path>>>
@rewrite <<<let files = self.files.borrow();>>> => <<<let files = &self.files;>>>
@rewrite <<<Ref::map(files, |_| Path::new("(builtins)"))>>> => <<<vx_builtins()>>>
@rewrite <<<Ref::map(files, |_| Path::new("(unknown)"))>>> => <<<vx_unknown()>>>
@rewrite <<<Ref::map(files, |files| files[idx].as_path())>>> => <<<files[idx].as_path()>>>
@spec
    requires self.wf(),
    ensures
        r@ == (if file.0 == 0 { builtins_path() } else if file.0 <= self.files.len() { self.files[file.0 - 1]@ } else { unknown_path() }),

@@verbatim
/// a registered path is found again under its id, also after others are registered; distinct paths have distinct ids
pub fn files_client(l: &mut FileList, a: &PathBuf, b: &PathBuf)
    requires old(l).wf(),
{
    let ia = l.register(a);
    let ib = l.register(b);
    let ia2 = l.register(a);
    let ga = l.get_id(a);
    let pa = l.get_path(ia);
    let pb = l.get_path(ib);
    assert(ia2 == ia && ga == Some(ia));
    assert(pa@ == a@ && pb@ == b@);
    assert((ia == ib) == (a@ == b@));
}

// ---------------------------------------------------------------- diagnostics and configuration
pub open spec fn rank(s: Severity) -> int { match s { Severity::Error => 1, Severity::Warning => 2, Severity::Info => 3, Severity::Hint => 4 } }
/// least severe rank a level lets through
pub open spec fn cut(l: WarningLevel) -> int { match l { WarningLevel::Disabled => 0, WarningLevel::Error => 1, WarningLevel::Warning => 2, WarningLevel::Info => 3, WarningLevel::Hint => 4, WarningLevel::Unset => 4 } }
/// what the configuration says about diagnostics of this type
pub open spec fn setting(c: Config, e: DMError) -> WarningLevel {
    match e.errortype { Some(t) => if c.diagnostics@.contains_key(t@) { c.diagnostics@[t@] } else { WarningLevel::Unset }, None => WarningLevel::Unset }
}
pub open spec fn with_setting(l: WarningLevel, s: Severity) -> Severity {
    match l { WarningLevel::Error => Severity::Error, WarningLevel::Warning => Severity::Warning, WarningLevel::Info => Severity::Info, WarningLevel::Hint => Severity::Hint, _ => s }
}
/// the diagnostic as it is to be recorded, if it is
pub open spec fn recorded(c: Config, e: DMError) -> Option<DMError> {
    let l = setting(c, e);
    let s = with_setting(l, e.severity);
    if l is Disabled || rank(s) > cut(c.display.error_level) { None } else { Some(DMError { severity: s, ..e }) }
}

@@fn err::DMError::set_severity
@ret r
@spec
    ensures r == (DMError { severity, ..self }),

@@fn err::DMError::with_component
@ret r
@spec
    ensures r == (DMError { component, ..self }),

@@fn err::DMError::with_errortype
@ret r
@spec
    ensures r == (DMError { errortype: Some(errortype), ..self }),

@@fn err::DMError::with_location
@ret r
@spec
    ensures r == (DMError { location, ..self }),

@@fn err::DMError::severity
@ret r
@spec
    ensures r == self.severity,

@@fn err::DMError::location
@ret r
@spec
    ensures r == self.location,

@@fn err::DMError::component
@ret r
@spec
    ensures r == self.component,

@@fn err::DMError::errortype
@ret r
@spec
    ensures r == self.errortype,

@@fn cfg::WarningLevel::applies_to
@ret r
@rewrite <<<severity <= Severity::Error>>> => <<<(severity as u8) <= (Severity::Error as u8)>>>
@rewrite <<<severity <= Severity::Warning>>> => <<<(severity as u8) <= (Severity::Warning as u8)>>>
@rewrite <<<severity <= Severity::Info>>> => <<<(severity as u8) <= (Severity::Info as u8)>>>
@rewrite <<<severity <= Severity::Hint>>> => <<<(severity as u8) <= (Severity::Hint as u8)>>>
@spec
    ensures r == (rank(severity) <= cut(self)),

@@fn cfg::WarningLevel.From::from
@name of_severity
@sig <<<fn of_severity(severity: Severity) -> WarningLevel>>>
@impl <<<impl WarningLevel>>>
@ret r
@spec
    ensures cut(r) == rank(severity), !(r is Unset),

@@fn cfg::Config::config_warninglevel
@ret r
@spec
    ensures
        r matches Some(l) ==> *l == setting(*self, *error),
        r is None ==> setting(*self, *error) is Unset,

@@fn cfg::Config::set_configured_severity
@ret r
@spec
    ensures
        r is None <==> setting(*self, error) is Disabled,
        r matches Some(e) ==> e == (DMError { severity: with_setting(setting(*self, error), error.severity), ..error }),

@@fn cfg::Config::registerable_error
@ret r
@spec
    ensures r == (rank(error.severity) <= cut(self.display.error_level)),

@@verbatim
impl Context {
    /// printing: external, changes nothing recorded
    #[verifier::external_body]
    pub fn vx_print(&self, e: &DMError) { unimplemented!() }
}

@@fn err::Context::register_error
@opt noinline
@sig <<<fn register_error(&mut self, error: DMError)>>>
@rewrite <<<let stderr = termcolor::StandardStream::stderr(termcolor::ColorChoice::Auto);>>> => <<<>>>
@rewrite <<<self.pretty_print_error(&mut stderr.lock(), &error).expect("error writing to stderr");>>> => <<<self.vx_print(&error);>>>
@rewrite <<<error.severity() <= print_severity>>> => <<<(error.severity() as u8) <= (print_severity as u8)>>>
@rewrite <<<self.errors.borrow_mut().push(error)>>> => <<<self.errors.push(error)>>>
@spec
    ensures
        // exactly this diagnostic is added at the end, or nothing; earlier ones stay
        final(self).errors@ == (match recorded(old(self).config, error) { Some(e) => old(self).errors@.push(e), None => old(self).errors@ }),
        final(self).config == old(self).config, final(self).files == old(self).files, final(self).print_severity == old(self).print_severity,

@@fn err::DMError::register
@sig <<<fn register(self, context: &mut Context)>>>
@spec
    ensures
        final(context).errors@ == (match recorded(old(context).config, self) { Some(e) => old(context).errors@.push(e), None => old(context).errors@ }),
        final(context).config == old(context).config,
