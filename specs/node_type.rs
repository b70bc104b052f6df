// Node types: fall/tree/src/node_type.rs
//@owner C13
verus! {

//@item fall/tree/src/node_type.rs struct:NodeType
«#[derive(PartialEq, Eq, Structural, Copy, Clone)]»
pub struct NodeType(pub u32);
//@end

//@item fall/tree/src/node_type.rs const:ERROR
pub const ERROR: NodeType = NodeType(0);
//@end

/// a language: tells which types of tokens are spaces
#[verifier::external_body]
pub struct Language { x: u8 }
impl Language {
    pub uninterp spec fn ws(&self, ty: NodeType) -> bool;
}
/// measurements, which nothing depends on
#[verifier::external_body]
pub struct Metrics { x: u8 }
/// a value the code only stores
#[verifier::external_body]
pub struct Opaque { x: u8 }

} // verus!
