use crate::src_::Src;

pub struct Prop {
    pub id: &'static str,
    /// thread 0 enumerates choice lists depth-first before random search
    pub enumerate: bool,
    /// the choice space is finite: stop when it has been enumerated
    pub finite: bool,
    pub rule: &'static str,
    pub run: fn(&mut dyn Src) -> Result<(), String>,
}

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
pub(crate) use ensure;

macro_rules! modules {
    ($($f:literal $m:ident: $($c:ident)*;)*) => {
        $(#[cfg(feature = $f)] mod $m;)*
        pub fn all() -> Vec<Prop> {
            #[allow(unused_mut)]
            let mut v: Vec<Prop> = vec![];
            $($(#[cfg(feature = $f)] v.push($m::$c);)*)*
            v
        }
    };
}

modules! {
    "tree" tree: C01 C02;
    "dir" dir: C04;
    "indents" indents: C03;
    "dmi_layout" dmi_layout: C05;
    "dmm" dmm: C06 C07 C08;
    "diag" diag: C13 C14;
    "pp" pp: C10 C23;
    "parser" parser: C15;
    "consts" consts: C09;
    "lexer" lexer: C20;
    "objtree" objtree: C11;
    "minimap" minimap: C12;
    "checker" checker: C16;
    "flow" flow: C17;
    "switch" switch: C18;
    "calls" calls: C19;
}
