// payload types of tokens that no contract inspects
pub struct Ident_ { pub s: String }
pub type Ident = Ident_;
#[verifier::external_body]
pub struct DocComment { _x: u8 }
