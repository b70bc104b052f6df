// Name resolution in grammar files: lang/fall/src/analysis, lang/fall/syntax/src/{fall,ast_ext}.rs
//@owner C20
//@dropmod rt db query ast crate syntax analysis super self hash_map
//@iterfn parameters attributes
//@strlit
//@rewrite QMap < 'f , $v > ==> QMap < $v >
//@rewrite Default :: default ( ) ==> Empty :: empty ( )
//@rewrite HashSet :: new ( ) ==> TextSet :: new ( )
//@rewrite HashMap :: new ( ) ==> TextMap :: new ( )
//@rewrite HashMap < Text < 'f > , $v > ==> TextMap < $v >
verus! {
mod gram_ {
use super::*;
use std::sync::Arc;

// ---- shims --------------------------------------------------------------------------------
/// the UTF-8 bytes of a string literal
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn strlit(s: &'static str) -> (r: &'static Str) ensures r@ == utf8(s@) { unimplemented!() }
/// different strings have different bytes; the quote is one byte
pub axiom fn axiom_utf8() ensures
    forall|a: Seq<char>, b: Seq<char>| #[trigger] utf8(a) == #[trigger] utf8(b) ==> a == b,
    utf8("'"@) == seq![39u8];
/// `format!(..)`: messages are not looked at
#[verifier::external_body]
pub fn vformat() -> Str { unimplemented!() }
pub trait IntoStr: Sized { fn into(self) -> Str; }
impl IntoStr for Str { fn into(self) -> Str { self } }
impl<'a> IntoStr for &'a Str { #[verifier::external_body] fn into(self) -> Str { unimplemented!() } }

// comparison of texts (the contracts of eq__text and eq__str, C08)
pub uninterp spec fn other_eq(a: Text, b: Text) -> bool;
pub uninterp spec fn other_eq_str(a: Text, b: Str) -> bool;
impl<'a, 'b> vstd::std_specs::cmp::PartialEqSpecImpl<Text<'b>> for Text<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Text<'b>) -> bool { if self.good() && other.good() { self@ == other@ } else { other_eq(*self, *other) } }
}
impl<'a, 'b> PartialEq<Text<'b>> for Text<'a> {
    #[verifier::external_body]
    fn eq(&self, other: &Text<'b>) -> bool { unimplemented!() }
}
impl<'a, 'b> vstd::std_specs::cmp::PartialEqSpecImpl<&'b Str> for Text<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &&'b Str) -> bool { if self.good() { self@ == other@ } else { other_eq_str(*self, **other) } }
}
impl<'a, 'b> PartialEq<&'b Str> for Text<'a> {
    #[verifier::external_body]
    fn eq(&self, other: &&'b Str) -> bool { unimplemented!() }
}
impl<'a> Text<'a> {
    pub open spec fn good(self) -> bool { self.wf() && self.bounded() }
}

/// `HashMap<Text, V>` and its entries
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct TextMap<V> { v: Vec<V> }
pub enum Entry<V, O> { Vacant(V), Occupied(O) }
#[verifier::reject_recursive_types(V)]
pub struct VacantText<'a, 'f, V> { pub map: &'a mut TextMap<V>, pub key: Text<'f> }
pub struct OccupiedText { pub x: u8 }
impl<V> TextMap<V> {
    pub uninterp spec fn at(&self, k: Seq<u8>) -> Option<V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures forall|k: Seq<u8>| (#[trigger] r.at(k)).is_none() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Text) -> (r: Option<&V>) requires k.good()
        ensures match r { Some(v) => self.at(k@) == Some(*v), None => self.at(k@).is_none() } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Text, v: V) -> (r: Option<V>) requires k.good()
        ensures r == old(self).at(k@), forall|x: Seq<u8>| #[trigger] final(self).at(x) == if x == k@ { Some(v) } else { old(self).at(x) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Text) -> (r: bool) requires k.good() ensures r == self.at(k@).is_some() { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a, 'f>(&'a mut self, k: Text<'f>) -> (r: Entry<VacantText<'a, 'f, V>, OccupiedText>) requires k.good()
        ensures match r {
            Entry::Vacant(e) => *old(self) == *e.map && *final(self) == *final(e.map) && old(self).at(k@).is_none() && e.key@ == k@,
            Entry::Occupied(e) => *final(self) == *old(self) && old(self).at(k@).is_some(),
        } { unimplemented!() }
}
impl<'a, 'f, V> VacantText<'a, 'f, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V)
        ensures forall|x: Seq<u8>| #[trigger] (*final(self.map)).at(x) == if x == self.key@ { Some(v) } else { (*old(self.map)).at(x) } { unimplemented!() }
}
/// `HashSet<Text>`
#[verifier::external_body]
pub struct TextSet { x: u8 }
impl TextSet {
    pub uninterp spec fn has(&self, k: Seq<u8>) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures forall|k: Seq<u8>| !(#[trigger] r.has(k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Text) -> (r: bool) requires k.good()
        ensures r == !old(self).has(k@), forall|x: Seq<u8>| #[trigger] final(self).has(x) == (x == k@ || old(self).has(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &Text) -> (r: bool) requires k.good() ensures r == self.has(k@) { unimplemented!() }
}
impl<'f, A: AstNode<'f>> AstChildren<'f, A> {
    /// `Iterator::count`
    pub fn count(self) -> (r: usize) requires self.wf() ensures r == self.rest().len()
    {
        let cap = self.inner.inner.s.len();
        let mut it = self;
        let mut n: usize = 0;
        proof { lemma_rest_len(it); }
        loop
            invariant_except_break it.wf(), n + it.rest().len() == self.rest().len(), it.rest().len() <= it.left()
            invariant self.rest().len() <= usize::MAX
            ensures n == self.rest().len()
            decreases it.left()
        {
            let ghost r0 = it.rest();
            match it.next() {
                Some(a) => { assert(r0.len() == 1 + it.rest().len()); proof { lemma_rest_len(it); } n = n + 1; }
                None => { break; }
            }
        }
        n
    }
    /// itertools `next_tuple`, for pairs
    pub fn next_tuple(&mut self) -> (r: Option<(A, A)>) requires old(self).wf()
        ensures match r {
            Some((a, b)) => old(self).rest().len() >= 2 && a == old(self).rest()[0] && b == old(self).rest()[1],
            None => old(self).rest().len() < 2,
        }
    {
        let ghost r0 = self.rest();
        match self.next() {
            Some(a) => {
                let ghost r1 = self.rest();
                assert(r0[0] == a);
                match self.next() {
                    Some(b) => { assert(r1[0] == b); assert(r0[1] == r1[0]); Some((a, b)) }
                    None => { assert(r0.len() == 1); None }
                }
            }
            None => None,
        }
    }
    /// `Iterator::zip`
    pub fn zip<B: AstNode<'f>>(self, o: AstChildren<'f, B>) -> (r: Zip<'f, A, B>) ensures r.a == self, r.b == o { Zip { a: self, b: o } }
}
pub struct Zip<'f, A: AstNode<'f>, B: AstNode<'f>> { pub a: AstChildren<'f, A>, pub b: AstChildren<'f, B> }
pub open spec fn zipped<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> {
    Seq::new(if a.len() < b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i]))
}
impl<'f, A: AstNode<'f>, B: AstNode<'f>> Zip<'f, A, B> {
    pub fn collect(self) -> (r: Vec<(A, B)>) requires self.a.wf(), self.b.wf() ensures r@ == zipped(self.a.rest(), self.b.rest())
    {
        let mut a = self.a;
        let mut b = self.b;
        let mut r: Vec<(A, B)> = Vec::new();
        loop
            invariant_except_break a.wf(), b.wf(), r@ + zipped(a.rest(), b.rest()) =~= zipped(self.a.rest(), self.b.rest())
            ensures r@ == zipped(self.a.rest(), self.b.rest())
            decreases a.left()
        {
            let ghost a0 = a.rest();
            let ghost b0 = b.rest();
            match a.next() {
                Some(x) => match b.next() {
                    Some(y) => {
                        assert(zipped(a0, b0) =~= seq![(x, y)] + zipped(a.rest(), b.rest()));
                        r.push((x, y));
                    }
                    None => { assert(zipped(a0, b0) =~= Seq::empty()); break; }
                },
                None => { assert(zipped(a0, b0) =~= Seq::empty()); break; }
            }
        }
        r
    }
}
pub proof fn lemma_rest_len<'f, A: AstNode<'f>>(c: AstChildren<'f, A>)
    requires c.wf()
    ensures c.rest().len() <= c.left()
{
    lemma_typed_len::<A>(c.inner.file, ids(c.inner.inner.s@), c.inner.pos());
}
pub proof fn lemma_typed_len<'f, A: AstNode<'f>>(f: &'f File, s: Seq<int>, k: int)
    requires 0 <= k <= s.len()
    ensures typed::<A>(f, s, k).len() <= s.len() - k
    decreases s.len() - k
{
    if k < s.len() { lemma_typed_len::<A>(f, s, k + 1); }
}

// ---- the syntax tree ----------------------------------------------------------------------
//@item lang/fall/syntax/src/fall.rs const:SIMPLE_STRING
pub const SIMPLE_STRING: NodeType = NodeType(128);
//@end
//@item lang/fall/syntax/src/fall.rs const:IDENT
pub const IDENT: NodeType = NodeType(130);
//@end
//@item lang/fall/syntax/src/fall.rs const:PUB
pub const PUB: NodeType = NodeType(109);
//@end
//@item lang/fall/syntax/src/fall.rs const:STRING
pub const STRING: NodeType = NodeType(147);
//@end
//@item lang/fall/syntax/src/fall.rs const:FALL_FILE
pub const FALL_FILE: NodeType = NodeType(131);
//@end
//@item lang/fall/syntax/src/fall.rs const:TOKENIZER_DEF
pub const TOKENIZER_DEF: NodeType = NodeType(141);
//@end
//@item lang/fall/syntax/src/fall.rs const:LEX_RULE
pub const LEX_RULE: NodeType = NodeType(142);
//@end
//@item lang/fall/syntax/src/fall.rs const:SYN_RULE
pub const SYN_RULE: NodeType = NodeType(132);
//@end
//@item lang/fall/syntax/src/fall.rs const:PARAMETERS
pub const PARAMETERS: NodeType = NodeType(133);
//@end
//@item lang/fall/syntax/src/fall.rs const:PARAMETER
pub const PARAMETER: NodeType = NodeType(134);
//@end
//@item lang/fall/syntax/src/fall.rs const:ATTRIBUTES
pub const ATTRIBUTES: NodeType = NodeType(144);
//@end
//@item lang/fall/syntax/src/fall.rs const:ATTRIBUTE
pub const ATTRIBUTE: NodeType = NodeType(145);
//@end
//@item lang/fall/syntax/src/fall.rs const:ATTRIBUTE_VALUE
pub const ATTRIBUTE_VALUE: NodeType = NodeType(146);
//@end
//@item lang/fall/syntax/src/fall.rs const:REF_EXPR
pub const REF_EXPR: NodeType = NodeType(135);
//@end
//@item lang/fall/syntax/src/fall.rs const:CALL_EXPR
pub const CALL_EXPR: NodeType = NodeType(140);
//@end
//@item lang/fall/syntax/src/fall.rs const:BLOCK_EXPR
pub const BLOCK_EXPR: NodeType = NodeType(137);
//@end
//@item lang/fall/syntax/src/fall.rs const:OPT_EXPR
pub const OPT_EXPR: NodeType = NodeType(138);
//@end
//@item lang/fall/syntax/src/fall.rs const:REP_EXPR
pub const REP_EXPR: NodeType = NodeType(139);
//@end
//@item lang/fall/syntax/src/fall.rs const:SEQ_EXPR
pub const SEQ_EXPR: NodeType = NodeType(136);
//@end
//@item lang/fall/syntax/src/fall.rs struct:FallFile
«#[derive(Clone, Copy)]»
pub struct FallFile<'f> { pub node: Node<'f> }
//@end
impl<'f> AstNode<'f> for FallFile<'f> {
    open spec fn wrap_spec(node: Node<'f>) -> Option<Self> { if node.d().ty == FALL_FILE { Some(FallFile { node }) } else { None } }
    open spec fn node_spec(self) -> Node<'f> { self.node }
//@fn lang/fall/syntax/src/fall.rs <FallFile as AstNode>::wrap
    fn wrap(node: Node<'f>) -> «(r:» Option<Self> «)» {
        if node.ty() == FALL_FILE {
            Some(FallFile { node })
        } else {
            None
        }
    }
//@end
//@fn lang/fall/syntax/src/fall.rs <FallFile as AstNode>::node
    fn node(self) -> «(r:» Node<'f> «)» { self.node }
//@end
}
//@item lang/fall/syntax/src/fall.rs struct:TokenizerDef
«#[derive(Clone, Copy)]»
pub struct TokenizerDef<'f> { pub node: Node<'f> }
//@end
impl<'f> AstNode<'f> for TokenizerDef<'f> {
    open spec fn wrap_spec(node: Node<'f>) -> Option<Self> { if node.d().ty == TOKENIZER_DEF { Some(TokenizerDef { node }) } else { None } }
    open spec fn node_spec(self) -> Node<'f> { self.node }
//@fn lang/fall/syntax/src/fall.rs <TokenizerDef as AstNode>::wrap
    fn wrap(node: Node<'f>) -> «(r:» Option<Self> «)» {
        if node.ty() == TOKENIZER_DEF {
            Some(TokenizerDef { node })
        } else {
            None
        }
    }
//@end
//@fn lang/fall/syntax/src/fall.rs <TokenizerDef as AstNode>::node
    fn node(self) -> «(r:» Node<'f> «)» { self.node }
//@end
}
//@item lang/fall/syntax/src/fall.rs struct:LexRule
«#[derive(Clone, Copy)]»
pub struct LexRule<'f> { pub node: Node<'f> }
//@end
impl<'f> AstNode<'f> for LexRule<'f> {
    open spec fn wrap_spec(node: Node<'f>) -> Option<Self> { if node.d().ty == LEX_RULE { Some(LexRule { node }) } else { None } }
    open spec fn node_spec(self) -> Node<'f> { self.node }
//@fn lang/fall/syntax/src/fall.rs <LexRule as AstNode>::wrap
    fn wrap(node: Node<'f>) -> «(r:» Option<Self> «)» {
        if node.ty() == LEX_RULE {
            Some(LexRule { node })
        } else {
            None
        }
    }
//@end
//@fn lang/fall/syntax/src/fall.rs <LexRule as AstNode>::node
    fn node(self) -> «(r:» Node<'f> «)» { self.node }
//@end
}
//@item lang/fall/syntax/src/fall.rs struct:SynRule
«#[derive(Clone, Copy)]»
pub struct SynRule<'f> { pub node: Node<'f> }
//@end
impl<'f> AstNode<'f> for SynRule<'f> {
    open spec fn wrap_spec(node: Node<'f>) -> Option<Self> { if node.d().ty == SYN_RULE { Some(SynRule { node }) } else { None } }
    open spec fn node_spec(self) -> Node<'f> { self.node }
//@fn lang/fall/syntax/src/fall.rs <SynRule as AstNode>::wrap
    fn wrap(node: Node<'f>) -> «(r:» Option<Self> «)» {
        if node.ty() == SYN_RULE {
            Some(SynRule { node })
        } else {
            None
        }
    }
//@end
//@fn lang/fall/syntax/src/fall.rs <SynRule as AstNode>::node
    fn node(self) -> «(r:» Node<'f> «)» { self.node }
//@end
}
//@item lang/fall/syntax/src/fall.rs struct:Parameters
«#[derive(Clone, Copy)]»
pub struct Parameters<'f> { pub node: Node<'f> }
//@end
impl<'f> AstNode<'f> for Parameters<'f> {
    open spec fn wrap_spec(node: Node<'f>) -> Option<Self> { if node.d().ty == PARAMETERS { Some(Parameters { node }) } else { None } }
    open spec fn node_spec(self) -> Node<'f> { self.node }
//@fn lang/fall/syntax/src/fall.rs <Parameters as AstNode>::wrap
    fn wrap(node: Node<'f>) -> «(r:» Option<Self> «)» {
        if node.ty() == PARAMETERS {
            Some(Parameters { node })
        } else {
            None
        }
    }
//@end
//@fn lang/fall/syntax/src/fall.rs <Parameters as AstNode>::node
    fn node(self) -> «(r:» Node<'f> «)» { self.node }
//@end
}
//@item lang/fall/syntax/src/fall.rs struct:Parameter
«#[derive(Clone, Copy)]»
pub struct Parameter<'f> { pub node: Node<'f> }
//@end
impl<'f> AstNode<'f> for Parameter<'f> {
    open spec fn wrap_spec(node: Node<'f>) -> Option<Self> { if node.d().ty == PARAMETER { Some(Parameter { node }) } else { None } }
    open spec fn node_spec(self) -> Node<'f> { self.node }
//@fn lang/fall/syntax/src/fall.rs <Parameter as AstNode>::wrap
    fn wrap(node: Node<'f>) -> «(r:» Option<Self> «)» {
        if node.ty() == PARAMETER {
            Some(Parameter { node })
        } else {
            None
        }
    }
//@end
//@fn lang/fall/syntax/src/fall.rs <Parameter as AstNode>::node
    fn node(self) -> «(r:» Node<'f> «)» { self.node }
//@end
}
//@item lang/fall/syntax/src/fall.rs struct:Attributes
«#[derive(Clone, Copy)]»
pub struct Attributes<'f> { pub node: Node<'f> }
//@end
impl<'f> AstNode<'f> for Attributes<'f> {
    open spec fn wrap_spec(node: Node<'f>) -> Option<Self> { if node.d().ty == ATTRIBUTES { Some(Attributes { node }) } else { None } }
    open spec fn node_spec(self) -> Node<'f> { self.node }
//@fn lang/fall/syntax/src/fall.rs <Attributes as AstNode>::wrap
    fn wrap(node: Node<'f>) -> «(r:» Option<Self> «)» {
        if node.ty() == ATTRIBUTES {
            Some(Attributes { node })
        } else {
            None
        }
    }
//@end
//@fn lang/fall/syntax/src/fall.rs <Attributes as AstNode>::node
    fn node(self) -> «(r:» Node<'f> «)» { self.node }
//@end
}
//@item lang/fall/syntax/src/fall.rs struct:Attribute
«#[derive(Clone, Copy)]»
pub struct Attribute<'f> { pub node: Node<'f> }
//@end
impl<'f> AstNode<'f> for Attribute<'f> {
    open spec fn wrap_spec(node: Node<'f>) -> Option<Self> { if node.d().ty == ATTRIBUTE { Some(Attribute { node }) } else { None } }
    open spec fn node_spec(self) -> Node<'f> { self.node }
//@fn lang/fall/syntax/src/fall.rs <Attribute as AstNode>::wrap
    fn wrap(node: Node<'f>) -> «(r:» Option<Self> «)» {
        if node.ty() == ATTRIBUTE {
            Some(Attribute { node })
        } else {
            None
        }
    }
//@end
//@fn lang/fall/syntax/src/fall.rs <Attribute as AstNode>::node
    fn node(self) -> «(r:» Node<'f> «)» { self.node }
//@end
}
//@item lang/fall/syntax/src/fall.rs struct:AttributeValue
«#[derive(Clone, Copy)]»
pub struct AttributeValue<'f> { pub node: Node<'f> }
//@end
impl<'f> AstNode<'f> for AttributeValue<'f> {
    open spec fn wrap_spec(node: Node<'f>) -> Option<Self> { if node.d().ty == ATTRIBUTE_VALUE { Some(AttributeValue { node }) } else { None } }
    open spec fn node_spec(self) -> Node<'f> { self.node }
//@fn lang/fall/syntax/src/fall.rs <AttributeValue as AstNode>::wrap
    fn wrap(node: Node<'f>) -> «(r:» Option<Self> «)» {
        if node.ty() == ATTRIBUTE_VALUE {
            Some(AttributeValue { node })
        } else {
            None
        }
    }
//@end
//@fn lang/fall/syntax/src/fall.rs <AttributeValue as AstNode>::node
    fn node(self) -> «(r:» Node<'f> «)» { self.node }
//@end
}
//@item lang/fall/syntax/src/fall.rs struct:RefExpr
«#[derive(Clone, Copy)]»
pub struct RefExpr<'f> { pub node: Node<'f> }
//@end
impl<'f> AstNode<'f> for RefExpr<'f> {
    open spec fn wrap_spec(node: Node<'f>) -> Option<Self> { if node.d().ty == REF_EXPR { Some(RefExpr { node }) } else { None } }
    open spec fn node_spec(self) -> Node<'f> { self.node }
//@fn lang/fall/syntax/src/fall.rs <RefExpr as AstNode>::wrap
    fn wrap(node: Node<'f>) -> «(r:» Option<Self> «)» {
        if node.ty() == REF_EXPR {
            Some(RefExpr { node })
        } else {
            None
        }
    }
//@end
//@fn lang/fall/syntax/src/fall.rs <RefExpr as AstNode>::node
    fn node(self) -> «(r:» Node<'f> «)» { self.node }
//@end
}
//@item lang/fall/syntax/src/fall.rs struct:CallExpr
«#[derive(Clone, Copy)]»
pub struct CallExpr<'f> { pub node: Node<'f> }
//@end
impl<'f> AstNode<'f> for CallExpr<'f> {
    open spec fn wrap_spec(node: Node<'f>) -> Option<Self> { if node.d().ty == CALL_EXPR { Some(CallExpr { node }) } else { None } }
    open spec fn node_spec(self) -> Node<'f> { self.node }
//@fn lang/fall/syntax/src/fall.rs <CallExpr as AstNode>::wrap
    fn wrap(node: Node<'f>) -> «(r:» Option<Self> «)» {
        if node.ty() == CALL_EXPR {
            Some(CallExpr { node })
        } else {
            None
        }
    }
//@end
//@fn lang/fall/syntax/src/fall.rs <CallExpr as AstNode>::node
    fn node(self) -> «(r:» Node<'f> «)» { self.node }
//@end
}
//@item lang/fall/syntax/src/fall.rs struct:BlockExpr
«#[derive(Clone, Copy)]»
pub struct BlockExpr<'f> { pub node: Node<'f> }
//@end
impl<'f> AstNode<'f> for BlockExpr<'f> {
    open spec fn wrap_spec(node: Node<'f>) -> Option<Self> { if node.d().ty == BLOCK_EXPR { Some(BlockExpr { node }) } else { None } }
    open spec fn node_spec(self) -> Node<'f> { self.node }
//@fn lang/fall/syntax/src/fall.rs <BlockExpr as AstNode>::wrap
    fn wrap(node: Node<'f>) -> «(r:» Option<Self> «)» {
        if node.ty() == BLOCK_EXPR {
            Some(BlockExpr { node })
        } else {
            None
        }
    }
//@end
//@fn lang/fall/syntax/src/fall.rs <BlockExpr as AstNode>::node
    fn node(self) -> «(r:» Node<'f> «)» { self.node }
//@end
}
//@item lang/fall/syntax/src/fall.rs struct:OptExpr
«#[derive(Clone, Copy)]»
pub struct OptExpr<'f> { pub node: Node<'f> }
//@end
impl<'f> AstNode<'f> for OptExpr<'f> {
    open spec fn wrap_spec(node: Node<'f>) -> Option<Self> { if node.d().ty == OPT_EXPR { Some(OptExpr { node }) } else { None } }
    open spec fn node_spec(self) -> Node<'f> { self.node }
//@fn lang/fall/syntax/src/fall.rs <OptExpr as AstNode>::wrap
    fn wrap(node: Node<'f>) -> «(r:» Option<Self> «)» {
        if node.ty() == OPT_EXPR {
            Some(OptExpr { node })
        } else {
            None
        }
    }
//@end
//@fn lang/fall/syntax/src/fall.rs <OptExpr as AstNode>::node
    fn node(self) -> «(r:» Node<'f> «)» { self.node }
//@end
}
//@item lang/fall/syntax/src/fall.rs struct:RepExpr
«#[derive(Clone, Copy)]»
pub struct RepExpr<'f> { pub node: Node<'f> }
//@end
impl<'f> AstNode<'f> for RepExpr<'f> {
    open spec fn wrap_spec(node: Node<'f>) -> Option<Self> { if node.d().ty == REP_EXPR { Some(RepExpr { node }) } else { None } }
    open spec fn node_spec(self) -> Node<'f> { self.node }
//@fn lang/fall/syntax/src/fall.rs <RepExpr as AstNode>::wrap
    fn wrap(node: Node<'f>) -> «(r:» Option<Self> «)» {
        if node.ty() == REP_EXPR {
            Some(RepExpr { node })
        } else {
            None
        }
    }
//@end
//@fn lang/fall/syntax/src/fall.rs <RepExpr as AstNode>::node
    fn node(self) -> «(r:» Node<'f> «)» { self.node }
//@end
}
//@item lang/fall/syntax/src/fall.rs struct:SeqExpr
«#[derive(Clone, Copy)]»
pub struct SeqExpr<'f> { pub node: Node<'f> }
//@end
impl<'f> AstNode<'f> for SeqExpr<'f> {
    open spec fn wrap_spec(node: Node<'f>) -> Option<Self> { if node.d().ty == SEQ_EXPR { Some(SeqExpr { node }) } else { None } }
    open spec fn node_spec(self) -> Node<'f> { self.node }
//@fn lang/fall/syntax/src/fall.rs <SeqExpr as AstNode>::wrap
    fn wrap(node: Node<'f>) -> «(r:» Option<Self> «)» {
        if node.ty() == SEQ_EXPR {
            Some(SeqExpr { node })
        } else {
            None
        }
    }
//@end
//@fn lang/fall/syntax/src/fall.rs <SeqExpr as AstNode>::node
    fn node(self) -> «(r:» Node<'f> «)» { self.node }
//@end
}
//@item lang/fall/syntax/src/fall.rs enum:Expr
«#[derive(Clone, Copy)]»
pub enum Expr<'f> {
    RefExpr(RefExpr<'f>),
    CallExpr(CallExpr<'f>),
    BlockExpr(BlockExpr<'f>),
    OptExpr(OptExpr<'f>),
    RepExpr(RepExpr<'f>),
    SeqExpr(SeqExpr<'f>),
}
//@end
impl<'f> AstNode<'f> for Expr<'f> {
    open spec fn wrap_spec(node: Node<'f>) -> Option<Self> {
        if node.d().ty == REF_EXPR { Some(Expr::RefExpr(RefExpr { node })) }
        else if node.d().ty == CALL_EXPR { Some(Expr::CallExpr(CallExpr { node })) }
        else if node.d().ty == BLOCK_EXPR { Some(Expr::BlockExpr(BlockExpr { node })) }
        else if node.d().ty == OPT_EXPR { Some(Expr::OptExpr(OptExpr { node })) }
        else if node.d().ty == REP_EXPR { Some(Expr::RepExpr(RepExpr { node })) }
        else if node.d().ty == SEQ_EXPR { Some(Expr::SeqExpr(SeqExpr { node })) }
        else { None }
    }
    open spec fn node_spec(self) -> Node<'f> {
        match self { Expr::RefExpr(n) => n.node, Expr::CallExpr(n) => n.node, Expr::BlockExpr(n) => n.node, Expr::OptExpr(n) => n.node, Expr::RepExpr(n) => n.node, Expr::SeqExpr(n) => n.node, }
    }
//@fn lang/fall/syntax/src/fall.rs <Expr as AstNode>::wrap
    fn wrap(node: Node<'f>) -> «(r:» Option<Self> «)» {
        if let Some(n) = RefExpr::wrap(node) {
            return Some(Expr::RefExpr(n))
        }
        if let Some(n) = CallExpr::wrap(node) {
            return Some(Expr::CallExpr(n))
        }
        if let Some(n) = BlockExpr::wrap(node) {
            return Some(Expr::BlockExpr(n))
        }
        if let Some(n) = OptExpr::wrap(node) {
            return Some(Expr::OptExpr(n))
        }
        if let Some(n) = RepExpr::wrap(node) {
            return Some(Expr::RepExpr(n))
        }
        if let Some(n) = SeqExpr::wrap(node) {
            return Some(Expr::SeqExpr(n))
        }
        None
    }
//@end
//@fn lang/fall/syntax/src/fall.rs <Expr as AstNode>::node
    fn node(self) -> «(r:» Node<'f> «)» {
        match self {
            Expr::RefExpr(n) => n.node(),
            Expr::CallExpr(n) => n.node(),
            Expr::BlockExpr(n) => n.node(),
            Expr::OptExpr(n) => n.node(),
            Expr::RepExpr(n) => n.node(),
            Expr::SeqExpr(n) => n.node(),
        }
    }
//@end
}
//@item lang/fall/syntax/src/fall.rs const:METHOD_DEF
pub const METHOD_DEF: NodeType = NodeType(153);
//@end
//@item lang/fall/syntax/src/fall.rs struct:MethodDef
«#[derive(Clone, Copy)]»
pub struct MethodDef<'f> { pub node: Node<'f> }
//@end
//@item lang/fall/syntax/src/fall.rs const:AST_NODE_DEF
pub const AST_NODE_DEF: NodeType = NodeType(150);
//@end
//@item lang/fall/syntax/src/fall.rs struct:AstNodeDef
«#[derive(Clone, Copy)]»
pub struct AstNodeDef<'f> { pub node: Node<'f> }
//@end

// ---- what is specified --------------------------------------------------------------------
pub open spec fn txt(n: Node) -> Seq<u8> { n.0.file.imp.text@.subrange(n.d().start, n.d().end) }
pub open spec fn first_kid<'f, A: AstNode<'f>>(n: Node<'f>) -> Option<A> { if kids_of::<A>(n).len() > 0 { Some(kids_of::<A>(n)[0]) } else { None } }
/// `n` (of a tree whose nodes have the parts that the grammar of grammars gives them)
pub open spec fn node_shape(n: Node) -> bool {
    let ty = n.d().ty;
    &&& (ty == CALL_EXPR || ty == PARAMETER || ty == ATTRIBUTE || ty == LEX_RULE) ==> first_ty(n, IDENT).is_some()
    &&& ty == REF_EXPR ==> (first_ty(n, IDENT).is_some() || first_ty(n, SIMPLE_STRING).is_some()) && nearest::<SynRule>(n, n.i()).is_some()
    &&& ty == SIMPLE_STRING ==> quoted(txt(n))
}
pub open spec fn nth<'f>(f: &'f File, i: int) -> Node<'f> { Node(NodeImpl { id: NodeId(i as u32), file: f }) }
pub open spec fn shape(f: &File) -> bool {
    forall|i: int| 0 <= i < f.t().len() ==> node_shape(#[trigger] nth(f, i))
}
pub open spec fn quoted(t: Seq<u8>) -> bool { t.len() >= 2 && t[0] == 39 && t[t.len() - 1] == 39 && bnd(t, 1) }
pub open spec fn body_of(t: Seq<u8>) -> Seq<u8> { t.subrange(1, t.len() - 1) }

pub open spec fn good_node(n: Node) -> bool { n.wf() && shape(n.0.file) && node_shape(n) }
pub broadcast proof fn lemma_good(n: Node)
    requires n.wf(), #[trigger] shape(n.0.file)
    ensures node_shape(n)
{
    assert(n == nth(n.0.file, n.i()));
}
pub open spec fn ident_text(n: Node) -> Seq<u8> { txt(first_ty(n, IDENT)->0) }
pub open spec fn opt_text(n: Option<Node>) -> Option<Seq<u8>> { match n { Some(n) => Some(txt(n)), None => None } }
/// the value of an optional text
pub open spec fn tv(t: Option<Text>) -> Option<Seq<u8>> { match t { Some(t) => Some(t@), None => None } }
pub open spec fn tgood(t: Option<Text>) -> bool { t.is_some() ==> t->0.good() }

impl<'f> FallFile<'f> {
    pub open spec fn wf(self) -> bool { good_node(self.node) && self.node.d().ty == FALL_FILE }
//@fn lang/fall/syntax/src/fall.rs FallFile::tokenizer_def
    pub fn tokenizer_def(&self) -> «(r:» Option<TokenizerDef<'f>> «) requires self.wf() ensures r == first_kid::<TokenizerDef>(self.node), r.is_some() ==> good_node(r->0.node)» {
        «proof { lemma_kids_wf(self.node); } broadcast use lemma_good;»
        AstChildren::new(self.node().children()).next()
    }
//@end
//@fn lang/fall/syntax/src/fall.rs FallFile::syn_rules
    pub fn syn_rules(&self) -> «(r:» AstChildren<'f, SynRule<'f>> «) requires self.node.wf() ensures r.wf(), r.rest() == kids_of::<SynRule>(self.node), r.inner.file == self.node.0.file» {
        «proof { lemma_kids_wf(self.node); }»
        AstChildren::new(self.node().children())
    }
//@end
}
impl<'f> TokenizerDef<'f> {
//@fn lang/fall/syntax/src/fall.rs TokenizerDef::lex_rules
    pub fn lex_rules(&self) -> «(r:» AstChildren<'f, LexRule<'f>> «) requires self.node.wf() ensures r.wf(), r.rest() == kids_of::<LexRule>(self.node), r.inner.file == self.node.0.file» {
        «proof { lemma_kids_wf(self.node); }»
        AstChildren::new(self.node().children())
    }
//@end
}
impl<'f> LexRule<'f> {
    pub open spec fn wf(self) -> bool { good_node(self.node) && self.node.d().ty == LEX_RULE }
    pub open spec fn re_spec(self) -> Option<Seq<u8>> { opt_text(first_ty(self.node, STRING)) }
    /// the quoted text of the token, or its identifier
    pub open spec fn token(self) -> Seq<u8> {
        if self.re_spec().is_some() && occurs(self.re_spec()->0, utf8("'"@), 0) { self.re_spec()->0 } else { ident_text(self.node) }
    }
//@fn lang/fall/syntax/src/fall.rs LexRule::node_type
    pub fn node_type(&self) -> «(r:» Text<'f> «) requires self.wf() ensures r.good(), r@ == ident_text(self.node)» {
        «proof { lemma_has(self.node, IDENT); }»
        child_of_type_exn(self.node(), IDENT).text()
    }
//@end
//@fn lang/fall/syntax/src/ast_ext.rs LexRule::re
    pub fn re(&self) -> «(r:» Option<Text<'f>> «) requires self.wf() ensures tv(r) == self.re_spec(), tgood(r)» {
        match child_of_type(self.node(), STRING) {
            Some(v__0) => Some({
                let n = v__0;
                n.text()
            }),
            None => None
        }
    }
//@end
//@fn lang/fall/syntax/src/ast_ext.rs LexRule::token_name
    pub fn token_name(&self) -> «(r:» Text<'f> «) requires self.wf() ensures r.good(), r@ == self.token()» {
        if let Some(r) = self.re() {
            if r.starts_with(strlit("'")) {
                return r;
            }
        }
        self.node_type()
    }
//@end
}
impl<'f> SynRule<'f> {
    pub open spec fn wf(self) -> bool { good_node(self.node) && self.node.d().ty == SYN_RULE }
    pub open spec fn name_spec(self) -> Option<Seq<u8>> { opt_text(first_ty(self.node, IDENT)) }
    pub open spec fn params_spec(self) -> Option<Parameters<'f>> { first_kid::<Parameters>(self.node) }
    pub open spec fn attr(self, name: Seq<u8>) -> Option<Attribute<'f>> {
        match first_kid::<Attributes>(self.node) { Some(a) => attr_from(kids_of::<Attribute>(a.node), name, 0), None => None }
    }
    /// the name of the type of node of a public rule
    pub open spec fn ty_spec(self) -> Option<Seq<u8>> {
        if first_ty(self.node, PUB).is_none() || self.attr(utf8("pratt"@)).is_some() { None }
        else if self.attr(utf8("type"@)).is_some() { self.attr(utf8("type"@))->0.value_spec() }
        else { self.name_spec() }
    }
//@fn lang/fall/syntax/src/fall.rs SynRule::attributes
    pub fn attributes(&self) -> «(r:» Option<Attributes<'f>> «) requires self.wf() ensures r == first_kid::<Attributes>(self.node), r.is_some() ==> r->0.wf()» {
        «proof { lemma_kids_wf(self.node); } broadcast use lemma_good;»
        AstChildren::new(self.node().children()).next()
    }
//@end
//@fn lang/fall/syntax/src/fall.rs SynRule::name_ident
    pub fn name_ident(&self) -> «(r:» Option<Node<'f>> «) requires self.wf() ensures r == first_ty(self.node, IDENT), r.is_some() ==> r->0.wf() && (r->0).0.file == self.node.0.file» {
        «proof { lemma_kids_below(self.node.t(), self.node.i()); } let ghost n0 = self.node;»
        {
            let mut r__0 «: Option<Node<'f>>» = None;
            let mut it__0 = self.node().children();
            loop
            «invariant_except_break r__0.is_none(), it__0.pos() <= n0.d().kids.len(), first_ty(n0, IDENT) == kid_from(n0, IDENT, it__0.pos())
             invariant it__0.of(n0), n0.wf(), forall|k: int| 0 <= k < n0.d().kids.len() ==> n0.i() < #[trigger] n0.d().kids[k] < n0.t().len()
             ensures r__0 == first_ty(n0, IDENT), r__0.is_some() ==> r__0->0.wf() && (r__0->0).0.file == n0.0.file
             decreases n0.d().kids.len() - it__0.pos()»
            {
                «let ghost k = it__0.pos();»
                if let Some(x__0) = it__0.next() {
                    «proof { assert(x__0.i() == n0.d().kids[k]); assert(x__0 == at(n0, n0.d().kids[k])); }»
                    let n = &x__0;
                    if n.ty() == IDENT {
                        r__0 = Some(x__0);
                        break;
                    }
                } else {
                    break;
                }
            }
            r__0
        }
    }
//@end
//@fn lang/fall/syntax/src/fall.rs SynRule::name
    pub fn name(&self) -> «(r:» Option<Text<'f>> «) requires self.wf() ensures tv(r) == self.name_spec(), tgood(r)» {
        match child_of_type(self.node(), IDENT) {
            Some(v__0) => Some({
                let n = v__0;
                n.text()
            }),
            None => None
        }
    }
//@end
//@fn lang/fall/syntax/src/fall.rs SynRule::parameters
    pub fn parameters(&self) -> «(r:» Option<Parameters<'f>> «) requires self.wf() ensures r == self.params_spec(), r.is_some() ==> r->0.wf()» {
        «proof { lemma_kids_wf(self.node); } broadcast use lemma_good;»
        AstChildren::new(self.node().children()).next()
    }
//@end
//@fn lang/fall/syntax/src/ast_ext.rs SynRule::is_pub
    pub fn is_pub(&self) -> «(r:» bool «) requires self.wf() ensures r == first_ty(self.node, PUB).is_some()» {
        child_of_type(self.node(), PUB).is_some()
    }
//@end
//@fn lang/fall/syntax/src/ast_ext.rs SynRule::is_pratt
    pub fn is_pratt(&self) -> «(r:» bool «) requires self.wf() ensures r == self.attr(utf8("pratt"@)).is_some()» {
        self.has_attribute(strlit("pratt"))
    }
//@end
//@fn lang/fall/syntax/src/ast_ext.rs SynRule::has_attribute
    pub fn has_attribute(&self, attribute: &Str) -> «(r:» bool «) requires self.wf() ensures r == self.attr(attribute@).is_some()» {
        if let Some(attrs) = self.attributes() {
            attrs.has_attribute(attribute)
        } else {
            false
        }
    }
//@end
//@fn lang/fall/syntax/src/ast_ext.rs SynRule::type_attr
    pub fn type_attr(&self) -> «(r:» Option<Attribute<'f>> «) requires self.wf() ensures r == self.attr(utf8("type"@)), r.is_some() ==> r->0.wf()» {
        match self.attributes() {
            Some(v__0) => {
                let attrs = v__0;
                attrs.find(strlit("type"))
            }
            None => None
        }
    }
//@end
//@fn lang/fall/syntax/src/ast_ext.rs SynRule::ty_name
    pub fn ty_name(&self) -> «(r:» Option<Text<'f>> «) requires self.wf() ensures tv(r) == self.ty_spec(), tgood(r)» {
        if !self.is_pub() || self.is_pratt() {
            return None;
        }
        if let Some(ty) = self.type_attr() {
            return ty.text_value();
        }
        self.name()
    }
//@end
}
pub open spec fn attr_from<'f>(s: Seq<Attribute<'f>>, name: Seq<u8>, k: int) -> Option<Attribute<'f>>
    decreases s.len() - k
{
    if !(0 <= k < s.len()) { None } else if ident_text(s[k].node) == name { Some(s[k]) } else { attr_from(s, name, k + 1) }
}
pub open spec fn param_from<'f>(s: Seq<Parameter<'f>>, name: Seq<u8>, k: int) -> Option<Parameter<'f>>
    decreases s.len() - k
{
    if !(0 <= k < s.len()) { None } else if ident_text(s[k].node) == name { Some(s[k]) } else { param_from(s, name, k + 1) }
}
impl<'f> Parameters<'f> {
    pub open spec fn wf(self) -> bool { good_node(self.node) }
//@fn lang/fall/syntax/src/fall.rs Parameters::parameters
    pub fn parameters(&self) -> «(r:» AstChildren<'f, Parameter<'f>> «) requires self.wf() ensures r.wf(), r.rest() == kids_of::<Parameter>(self.node), r.inner.file == self.node.0.file» {
        «proof { lemma_kids_wf(self.node); }»
        AstChildren::new(self.node().children())
    }
//@end
}
impl<'f> Parameter<'f> {
    pub open spec fn wf(self) -> bool { good_node(self.node) && self.node.d().ty == PARAMETER }
//@fn lang/fall/syntax/src/fall.rs Parameter::name
    pub fn name(&self) -> «(r:» Text<'f> «) requires self.wf() ensures r.good(), r@ == ident_text(self.node)» {
        «proof { lemma_has(self.node, IDENT); }»
        child_of_type_exn(self.node(), IDENT).text()
    }
//@end
}
impl<'f> Attributes<'f> {
    pub open spec fn wf(self) -> bool { good_node(self.node) }
//@fn lang/fall/syntax/src/fall.rs Attributes::attributes
    pub fn attributes(&self) -> «(r:» AstChildren<'f, Attribute<'f>> «) requires self.wf() ensures r.wf(), r.rest() == kids_of::<Attribute>(self.node), r.inner.file == self.node.0.file» {
        «proof { lemma_kids_wf(self.node); }»
        AstChildren::new(self.node().children())
    }
//@end
//@fn lang/fall/syntax/src/ast_ext.rs Attributes::has_attribute
    pub fn has_attribute(&self, name: &Str) -> «(r:» bool «) requires self.wf() ensures r == attr_from(kids_of::<Attribute>(self.node), name@, 0).is_some()» {
        self.find(name).is_some()
    }
//@end
//@fn lang/fall/syntax/src/ast_ext.rs Attributes::find
    pub fn find(&self, name: &Str) -> «(r:» Option<Attribute<'f>> «) requires self.wf() ensures r == attr_from(kids_of::<Attribute>(self.node), name@, 0), r.is_some() ==> r->0.wf()» {
        «let ghost all = kids_of::<Attribute>(self.node); let ghost mut k = 0int; broadcast use lemma_good;»
        {
            let mut r__0 «: Option<Attribute<'f>>» = None;
            let mut it__0 = self.attributes();
            loop
            «invariant_except_break r__0.is_none(), it__0.wf(), it__0.inner.file == self.node.0.file, 0 <= k <= all.len(), it__0.rest() == all.skip(k), attr_from(all, name@, 0) == attr_from(all, name@, k)
             invariant self.wf()
             ensures r__0 == attr_from(all, name@, 0), r__0.is_some() ==> r__0->0.wf()
             decreases it__0.left()»
            {
                «let ghost r0 = it__0.rest();»
                if let Some(x__0) = it__0.next() {
                    «proof { lemma_step(all, k, r0, x__0, it__0.rest()); k = k + 1; lemma_good(x__0.node); }»
                    let a = &x__0;
                    if a.name() == name {
                        r__0 = Some(x__0);
                        break;
                    }
                } else {
                    «proof { assert(k == all.len()); }»
                    break;
                }
            }
            r__0
        }
    }
//@end
}
impl<'f> Attribute<'f> {
    pub open spec fn wf(self) -> bool { good_node(self.node) && self.node.d().ty == ATTRIBUTE }
    pub open spec fn value_spec(self) -> Option<Seq<u8>> {
        match first_kid::<AttributeValue>(self.node) { Some(v) => Some(txt(v.node)), None => None }
    }
//@fn lang/fall/syntax/src/fall.rs Attribute::name
    pub fn name(&self) -> «(r:» Text<'f> «) requires self.wf() ensures r.good(), r@ == ident_text(self.node)» {
        «proof { lemma_has(self.node, IDENT); }»
        child_of_type_exn(self.node(), IDENT).text()
    }
//@end
//@fn lang/fall/syntax/src/fall.rs Attribute::value
    pub fn value(&self) -> «(r:» Option<AttributeValue<'f>> «) requires self.wf() ensures r == first_kid::<AttributeValue>(self.node), r.is_some() ==> good_node(r->0.node)» {
        «proof { lemma_kids_wf(self.node); } broadcast use lemma_good;»
        AstChildren::new(self.node().children()).next()
    }
//@end
//@fn lang/fall/syntax/src/ast_ext.rs Attribute::text_value
    pub fn text_value(&self) -> «(r:» Option<Text<'f>> «) requires self.wf() ensures tv(r) == self.value_spec(), tgood(r)» {
        match self.value() {
            Some(v__0) => Some({
                let v = v__0;
                v.node().text()
            }),
            None => None
        }
    }
//@end
}
impl<'f> RefExpr<'f> {
    pub open spec fn wf(self) -> bool { good_node(self.node) && self.node.d().ty == REF_EXPR }
    pub open spec fn name_spec(self) -> Seq<u8> {
        if first_ty(self.node, IDENT).is_some() { txt(first_ty(self.node, IDENT)->0) } else { txt(first_ty(self.node, SIMPLE_STRING)->0) }
    }
//@fn lang/fall/syntax/src/ast_ext.rs RefExpr::reference_name
    pub fn reference_name(&self) -> «(r:» Text<'f> «) requires self.wf() ensures r.good(), r@ == self.name_spec()» {
        match child_of_type(self.node(), IDENT) {
            Some(v__0) => v__0,
            None => {
                «proof { lemma_has(self.node, SIMPLE_STRING); }»
                child_of_type_exn(self.node(), SIMPLE_STRING)
            }
        }.text()
    }
//@end
}
impl<'f> CallExpr<'f> {
    pub open spec fn wf(self) -> bool { good_node(self.node) && self.node.d().ty == CALL_EXPR }
    pub open spec fn name_spec(self) -> Seq<u8> { ident_text(self.node) }
    pub open spec fn args_spec(self) -> Seq<Expr<'f>> { kids_of::<Expr>(self.node) }
    /// the name of the context that a call uses
    pub open spec fn context_spec(self) -> Option<Seq<u8>> {
        if !(self.name_spec() == utf8("is_in"@) || self.name_spec() == utf8("enter"@) || self.name_spec() == utf8("exit"@)) { None }
        else if self.args_spec().len() == 0 { None }
        else { match first_ty(self.args_spec()[0].node_spec(), SIMPLE_STRING) { Some(s) => Some(body_of(txt(s))), None => None } }
    }
//@fn lang/fall/syntax/src/fall.rs CallExpr::fn_name
    pub fn fn_name(&self) -> «(r:» Text<'f> «) requires self.wf() ensures r.good(), r@ == self.name_spec()» {
        «proof { lemma_has(self.node, IDENT); }»
        child_of_type_exn(self.node(), IDENT).text()
    }
//@end
//@fn lang/fall/syntax/src/fall.rs CallExpr::args
    pub fn args(&self) -> «(r:» AstChildren<'f, Expr<'f>> «) requires self.wf() ensures r.wf(), r.rest() == self.args_spec(), r.inner.file == self.node.0.file» {
        «proof { lemma_kids_wf(self.node); }»
        AstChildren::new(self.node().children())
    }
//@end
//@fn lang/fall/syntax/src/ast_ext.rs CallExpr::context_name
    pub fn context_name(&self) -> «(r:» Option<Text<'f>> «) requires self.wf() ensures tv(r) == self.context_spec(), tgood(r)» {
        «broadcast use lemma_good;»
        if !(self.fn_name() == strlit("is_in") || self.fn_name() == strlit("enter") || self.fn_name() == strlit("exit")) {
            return None;
        }
        return match match self.args().next() {
            Some(v__0) => {
                let arg = v__0;
                child_of_type(arg.node(), SIMPLE_STRING)
            }
            None => None
        } {
            Some(v__1) => Some({
                let ctx = v__1;
                lit_body(ctx.text())
            }),
            None => None
        };
    }
//@end
}
//@fn lang/fall/syntax/src/ast_ext.rs lit_body
pub fn lit_body(lit: Text) -> «(r:» Text «) requires lit.good(), quoted(lit@) ensures r.good(), r@ == body_of(lit@)» {
    «proof { axiom_utf8(); let q = seq![39u8]; assert(lit@.subrange(0, 1) =~= q); assert(lit@.subrange(lit@.len() - 1, lit@.len() as int) =~= q);
        assert(occurs(lit@, q, 0) && occurs(lit@, q, lit@.len() - 1)); }»
    let q = if lit.starts_with(strlit("'")) {
        strlit("'")
    } else {
        strlit("\"")
    };
    let s = lit.find(q).unwrap();
    let e = lit.rfind(q).unwrap();
    lit.slice(TextRange::from_to(s + 1, e))
}
//@end
pub proof fn lemma_step<A>(all: Seq<A>, k: int, r0: Seq<A>, x: A, rest: Seq<A>)
    requires 0 <= k <= all.len(), r0 == all.skip(k), r0 == seq![x] + rest
    ensures k < all.len(), all[k] == x, rest == all.skip(k + 1)
{
    assert(r0.len() == 1 + rest.len());
    assert(r0[0] == x);
    assert(all.skip(k)[0] == all[k]);
    assert(rest =~= all.skip(k + 1)) by {
        assert forall|i: int| 0 <= i < rest.len() implies rest[i] == #[trigger] all.skip(k + 1)[i] by { assert(r0[i + 1] == rest[i]); assert(all.skip(k)[i + 1] == all[k + i + 1]); }
    }
}
/// there is a child of type `ty`
pub proof fn lemma_has(n: Node, ty: NodeType)
    requires n.wf(), first_ty(n, ty).is_some()
    ensures exists|k: int| in_kids(n.t(), n.i(), k) && n.t()[#[trigger] n.d().kids[k]].ty == ty
{
    lemma_has_from(n, ty, 0);
}
pub proof fn lemma_has_from(n: Node, ty: NodeType, k: int)
    requires n.wf(), kid_from(n, ty, k).is_some(), 0 <= k
    ensures exists|k: int| in_kids(n.t(), n.i(), k) && n.t()[#[trigger] n.d().kids[k]].ty == ty
    decreases n.d().kids.len() - k
{
    if n.t()[n.d().kids[k]].ty == ty { assert(in_kids(n.t(), n.i(), k)); } else { lemma_has_from(n, ty, k + 1); }
}

// ---- C20: what names mean -----------------------------------------------------------------
/// diagnostics: which range, and whether it is an error
pub struct Dg { pub start: int, pub end: int, pub error: bool }
pub open spec fn err_at(n: Node) -> Dg { Dg { start: n.d().start, end: n.d().end, error: true } }

/// the first rule of that name
pub open spec fn syn_from<'f>(s: Seq<SynRule<'f>>, name: Seq<u8>, k: int) -> Option<SynRule<'f>>
    decreases s.len() - k
{
    if !(0 <= k < s.len()) { None } else if s[k].name_spec() == Some(name) { Some(s[k]) } else { syn_from(s, name, k + 1) }
}
pub open spec fn syn_rule<'f>(file: FallFile<'f>, name: Seq<u8>) -> Option<SynRule<'f>> { syn_from(kids_of::<SynRule>(file.node), name, 0) }
/// the rules `s[..k]` whose name an earlier one has are reported
pub open spec fn dup_rules<'f>(s: Seq<SynRule<'f>>, k: int) -> Seq<Dg>
    decreases k
{
    if k <= 0 { Seq::empty() } else {
        let r = dup_rules(s, k - 1);
        if s[k - 1].name_spec().is_some() && syn_from(s.take(k - 1), s[k - 1].name_spec()->0, 0).is_some() { r.push(err_at(first_ty(s[k - 1].node, IDENT)->0)) } else { r }
    }
}
/// the tokens of the file
pub open spec fn tokens<'f>(file: FallFile<'f>) -> Seq<LexRule<'f>> {
    match first_kid::<TokenizerDef>(file.node) { Some(t) => kids_of::<LexRule>(t.node), None => Seq::empty() }
}
/// the last token of that name among the first `k`
pub open spec fn lex_upto<'f>(s: Seq<LexRule<'f>>, name: Seq<u8>, k: int) -> Option<LexRule<'f>>
    decreases k
{
    if k <= 0 { None } else if s[k - 1].token() == name { Some(s[k - 1]) } else { lex_upto(s, name, k - 1) }
}
pub open spec fn lex_rule<'f>(file: FallFile<'f>, name: Seq<u8>) -> Option<LexRule<'f>> { lex_upto(tokens(file), name, tokens(file).len() as int) }
pub open spec fn has_ty<'f>(s: Seq<LexRule<'f>>, ty: Seq<u8>, k: int) -> bool { exists|j: int| 0 <= j < k && ident_text((#[trigger] s[j]).node) == ty }
pub open spec fn dup_tokens<'f>(s: Seq<LexRule<'f>>, k: int) -> Seq<Dg>
    decreases k
{
    if k <= 0 { Seq::empty() } else {
        let r = dup_tokens(s, k - 1);
        if has_ty(s, ident_text(s[k - 1].node), k - 1) { r.push(err_at(s[k - 1].node)) } else { r }
    }
}
/// the parameter of that name of the rule around a reference
pub open spec fn param_of<'f>(r: RefExpr<'f>, name: Seq<u8>) -> Option<Parameter<'f>> {
    match nearest::<SynRule>(r.node, r.node.i())->0.params_spec() { Some(ps) => param_from(kids_of::<Parameter>(ps.node), name, 0), None => None }
}
/// C20: parameter, else rule, else token, else nothing
#[verifier::opaque]
pub open spec fn ref_spec<'f>(file: FallFile<'f>, r: RefExpr<'f>) -> Option<RefKind<'f>> {
    let name = r.name_spec();
    if param_of(r, name).is_some() { Some(RefKind::Param(param_of(r, name)->0)) }
    else if syn_rule(file, name).is_some() { Some(RefKind::RuleReference(syn_rule(file, name)->0)) }
    else if lex_rule(file, name).is_some() { Some(RefKind::Token(lex_rule(file, name)->0)) }
    else { None }
}
/// the reference is the context of a call
pub open spec fn is_context<'f>(r: RefExpr<'f>) -> bool {
    r.node.d().parent.is_some() && {
        let p = at(r.node, r.node.d().parent->0);
        p.d().ty == CALL_EXPR && ({ let c = CallExpr { node: p }; c.context_spec().is_some() && c.args_spec().len() > 0 && same_node(c.args_spec()[0].node_spec(), r.node) })
    }
}
pub open spec fn same_node(a: Node, b: Node) -> bool { key_of(*a.0.file) == key_of(*b.0.file) && a.0.id == b.0.id }
pub open spec fn ref_says<'f>(file: FallFile<'f>, r: RefExpr<'f>) -> Seq<Dg> {
    if ref_spec(file, r).is_none() && !is_context(r) { seq![err_at(r.node)] } else { Seq::empty() }
}
/// the contexts of a file
pub uninterp spec fn contexts<'f>(file: FallFile<'f>) -> Seq<Seq<u8>>;
pub open spec fn find_from(s: Seq<Seq<u8>>, x: Seq<u8>, k: int) -> Option<int>
    decreases s.len() - k
{
    if !(0 <= k < s.len()) { None } else if s[k] == x { Some(k) } else { find_from(s, x, k + 1) }
}
pub open spec fn ctx_spec<'f>(file: FallFile<'f>, c: CallExpr<'f>) -> Option<u32> {
    match c.context_spec() { Some(name) => match find_from(contexts(file), name, 0) { Some(i) => Some(i as u32), None => None }, None => None }
}
pub open spec fn ctx_says<'f>(c: CallExpr<'f>) -> Seq<Dg> { if c.context_spec().is_some() { Seq::empty() } else { seq![err_at(c.args_spec()[0].node_spec())] } }
pub open spec fn arity<'f>(c: CallExpr<'f>, n: int) -> Seq<Dg> { if c.args_spec().len() == n { Seq::empty() } else { seq![err_at(c.node)] } }
/// the rule that an argument of `prev_is` names, which must have a type of node
pub open spec fn prev_rule<'f>(file: FallFile<'f>, e: Expr<'f>) -> Option<SynRule<'f>> {
    match e {
        Expr::RefExpr(r) => match ref_spec(file, r) { Some(RefKind::RuleReference(rule)) => if rule.ty_spec().is_some() { Some(rule) } else { None }, _ => None },
        _ => None,
    }
}
pub open spec fn prev_rules<'f>(file: FallFile<'f>, s: Seq<Expr<'f>>, k: int) -> Seq<SynRule<'f>>
    decreases k
{
    if k <= 0 { Seq::empty() } else { match prev_rule(file, s[k - 1]) { Some(r) => prev_rules(file, s, k - 1).push(r), None => prev_rules(file, s, k - 1) } }
}
pub open spec fn prev_says<'f>(file: FallFile<'f>, c: CallExpr<'f>, k: int) -> Seq<Dg>
    decreases k
{
    if k <= 0 { Seq::empty() } else { match prev_rule(file, c.args_spec()[k - 1]) { Some(r) => prev_says(file, c, k - 1), None => prev_says(file, c, k - 1).push(err_at(c.node)) } }
}
/// the rule that is called: it must have parameters
pub open spec fn callee<'f>(file: FallFile<'f>, c: CallExpr<'f>) -> Option<SynRule<'f>> {
    match syn_rule(file, c.name_spec()) { Some(r) => if r.params_spec().is_some() { Some(r) } else { None }, None => None }
}
pub open spec fn params_of<'f>(r: SynRule<'f>) -> Seq<Parameter<'f>> { kids_of::<Parameter>(r.params_spec()->0.node) }
/// C20: what a call means
#[verifier::opaque]
pub open spec fn call_is<'f>(file: FallFile<'f>, c: CallExpr<'f>, r: Option<CallKind<'f>>) -> bool {
    let n = c.name_spec();
    let a = c.args_spec();
    let ctx = ctx_spec(file, c);
    if n == utf8("any"@) { r == Some(CallKind::<'f>::Any) }
    else if n == utf8("commit"@) { r == Some(CallKind::<'f>::Commit) }
    else if n == utf8("eof"@) { r == Some(CallKind::<'f>::Eof) }
    else if n == utf8("not"@) { r == if a.len() >= 1 { Some(CallKind::Not(a[0])) } else { None } }
    else if n == utf8("is_in"@) { r == if a.len() >= 1 && ctx.is_some() { Some(CallKind::<'f>::IsIn(ctx->0)) } else { None } }
    else if n == utf8("layer"@) { r == if a.len() >= 2 { Some(CallKind::Layer(a[0], a[1])) } else { None } }
    else if n == utf8("with_skip"@) { r == if a.len() >= 2 { Some(CallKind::WithSkip(a[0], a[1])) } else { None } }
    else if n == utf8("inject"@) { r == if a.len() >= 2 { Some(CallKind::Inject(a[0], a[1])) } else { None } }
    else if n == utf8("enter"@) { r == if a.len() >= 2 && ctx.is_some() { Some(CallKind::Enter(ctx->0, a[1])) } else { None } }
    else if n == utf8("exit"@) { r == if a.len() >= 2 && ctx.is_some() { Some(CallKind::Exit(ctx->0, a[1])) } else { None } }
    else if n == utf8("prev_is"@) { match r { Some(CallKind::PrevIs(v)) => v@ == prev_rules(file, a, a.len() as int), _ => false } }
    else { match callee(file, c) {
        Some(rule) => match r { Some(CallKind::RuleCall(x, v)) => x == rule && v@ == zipped(params_of(rule), a), _ => false },
        None => r.is_none(),
    } }
}
pub open spec fn call_says<'f>(file: FallFile<'f>, c: CallExpr<'f>) -> Seq<Dg> {
    let n = c.name_spec();
    let a = c.args_spec();
    if n == utf8("any"@) || n == utf8("commit"@) || n == utf8("eof"@) { arity(c, 0) }
    else if n == utf8("not"@) { arity(c, 1) }
    else if n == utf8("is_in"@) { if a.len() >= 1 { arity(c, 1) + ctx_says(c) } else { arity(c, 1) } }
    else if n == utf8("layer"@) || n == utf8("with_skip"@) || n == utf8("inject"@) { arity(c, 2) }
    else if n == utf8("enter"@) || n == utf8("exit"@) { if a.len() >= 2 { arity(c, 2) + ctx_says(c) } else { arity(c, 2) } }
    else if n == utf8("prev_is"@) { prev_says(file, c, a.len() as int) }
    else { match callee(file, c) { Some(rule) => arity(c, params_of(rule).len() as int), None => seq![err_at(first_ty(c.node, IDENT)->0)] } }
}
/// C20: a call that is not resolved, or has not as many arguments as it should, is reported
pub proof fn theorem_calls_reported<'f>(file: FallFile<'f>, c: CallExpr<'f>, r: Option<CallKind<'f>>)
    requires call_is(file, c, r), call_says(file, c).len() == 0, ctx_spec(file, c).is_some() || c.context_spec().is_none()
    ensures r.is_some(), r is Some && r->0 is RuleCall ==> r->0->RuleCall_1@.len() == c.args_spec().len() && c.args_spec().len() == params_of(r->0->RuleCall_0).len()
{
    reveal(call_is);
    assert(arity(c, 0).len() == 0 || arity(c, 0).len() == 1);
}

//@item lang/fall/src/analysis/query/mod.rs enum:RefKind
«#[derive(Clone, Copy)]»
pub enum RefKind<'f> {
    Token(LexRule<'f>),
    RuleReference(SynRule<'f>),
    Param(Parameter<'f>),
}
//@end
//@item lang/fall/src/analysis/query/mod.rs enum:CallKind
pub enum CallKind<'f> {
    Eof,
    Any,
    Commit,

    Not(Expr<'f>),
    Layer(Expr<'f>, Expr<'f>),
    WithSkip(Expr<'f>, Expr<'f>),

    Enter(u32, Expr<'f>),
    Exit(u32, Expr<'f>),
    IsIn(u32),

    RuleCall(SynRule<'f>, Arc<Vec<(Parameter<'f>, Expr<'f>)>>),
    PrevIs(Arc<Vec<SynRule<'f>>>),
    Inject(Expr<'f>, Expr<'f>),
}
//@end

// ---- diagnostics --------------------------------------------------------------------------
//@item fall/editor/src/lib.rs enum:Severity
«#[derive(Clone, Copy)]»
pub enum Severity { Error, Warning }
//@end
//@item fall/editor/src/lib.rs struct:Diagnostic
pub struct Diagnostic {
    pub range: TextRange,
    pub severity: Severity,
    pub message: Str
}
//@end
pub open spec fn dg(d: Diagnostic) -> Dg { Dg { start: d.range.start.0 as int, end: d.range.end.0 as int, error: d.severity is Error } }
pub open spec fn dgs(s: Seq<Diagnostic>) -> Seq<Dg> { s.map_values(|d: Diagnostic| dg(d)) }
//@item lang/fall/src/analysis/diagnostics.rs struct:DiagnosticSink
pub struct DiagnosticSink<'d> {
    pub diagnostics: &'d mut Vec<Diagnostic>
}
//@end
impl<'d> DiagnosticSink<'d> {
    pub open spec fn said(self) -> Seq<Dg> { dgs((*self.diagnostics)@) }
//@fn lang/fall/src/analysis/diagnostics.rs DiagnosticSink::new
    pub fn new(diagnostics: &'d mut Vec<Diagnostic>) -> «(r:» DiagnosticSink<'d> «) ensures *r.diagnostics == *old(diagnostics), *final(r.diagnostics) == *final(diagnostics)» {
        DiagnosticSink { diagnostics }
    }
//@end
//@rewrite1 Into < String > ==> IntoStr
//@fn lang/fall/src/analysis/diagnostics.rs DiagnosticSink::error
    pub fn error<T: IntoStr>(&mut self, node: Node, message: T) «requires node.wf() ensures final(self).said() == old(self).said().push(err_at(node)), *final(final(self).diagnostics) == *final(old(self).diagnostics)» {
        self.diagnostics.push(Diagnostic {
            range: node.range(),
            severity: Severity::Error,
            message: message.into(),
        })
        «; proof { assert(self.said() =~= old(self).said().push(err_at(node))); }»
    }
//@end
}

// ---- queries and their cache --------------------------------------------------------------
/// derived `Clone`s
pub trait CloneExact: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
impl<T> CloneExact for Arc<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl<'f> CloneExact for Option<RefKind<'f>> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl<'f> CloneExact for Option<CallKind<'f>> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }

/// a question about a file: when it makes sense, its answer, and what is reported on the way
pub trait Query<'f>: Sized {
    type Result;
    spec fn pre(self, file: FallFile<'f>) -> bool;
    spec fn ok(self, file: FallFile<'f>, r: Self::Result) -> bool;
    spec fn says(self, file: FallFile<'f>) -> Seq<Dg>;
    spec fn done(self, file: FallFile<'f>) -> bool;
}
/// the diagnostics of `q` have been added to the diagnostics of the file (and stay there)
pub uninterp spec fn reported<'f, Q>(file: FallFile<'f>, q: Q) -> bool;
/// the question was not answered before
pub uninterp spec fn fresh<'f, Q>(file: FallFile<'f>, q: Q) -> bool;
pub trait QExecutor<'f>: Query<'f> {
    fn execute(self, db: &DB<'f>) -> (r: Self::Result)
        requires db.wf(), self.pre(db.file) ensures self.ok(db.file, r), self.done(db.file);
}
pub trait OnceQExecutor<'f>: Query<'f> {
    proof fn lemma_done(self, file: FallFile<'f>) requires reported(file, self) ensures self.done(file);
    fn execute(self, db: &DB<'f>, d: &mut DiagnosticSink) -> (r: Self::Result)
        requires db.wf(), self.pre(db.file)
        ensures self.ok(db.file, r), final(d).said() == old(d).said() + self.says(db.file), *final(final(d).diagnostics) == *final(old(d).diagnostics);
}
/// the table of answers of one kind of question: right answers only, whose diagnostics are reported
#[verifier::external_body]
#[verifier::reject_recursive_types(Q)]
pub struct QMap<Q> { q: Vec<Q> }
#[verifier::external_body]
#[verifier::reject_recursive_types(Q)]
pub struct QGuard<Q> { q: Vec<Q> }
#[verifier::external_body]
#[verifier::reject_recursive_types(Q)]
pub struct QVacant<Q> { q: Vec<Q> }
#[verifier::external_body]
#[verifier::reject_recursive_types(Q)]
pub struct QOccupied<Q> { q: Vec<Q> }
impl<Q> QMap<Q> {
    /// the answers are about this file
    pub uninterp spec fn is_about<'f>(&self, f: FallFile<'f>) -> bool;
    #[verifier::external_body]
    pub fn lock(&self) -> (r: Locked<QGuard<Q>>) ensures forall|f: FallFile| #![trigger r.0.is_about(f)] #![trigger self.is_about(f)] r.0.is_about(f) == self.is_about(f) { unimplemented!() }
}
pub struct Locked<T>(pub T);
impl<T> Locked<T> { pub fn unwrap(self) -> (r: T) ensures r == self.0 { self.0 } }
impl<Q> QGuard<Q> {
    pub uninterp spec fn is_about<'f>(&self, f: FallFile<'f>) -> bool;
    #[verifier::external_body]
    pub fn get<'f>(&self, q: &Q) -> (r: Option<&Q::Result>) where Q: Query<'f>
        ensures forall|f: FallFile<'f>| r.is_some() && #[trigger] self.is_about(f) ==> q.ok(f, *r->0) && reported(f, *q) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, q: Q) -> (r: Entry<QVacant<Q>, QOccupied<Q>>)
        ensures match r {
            Entry::Vacant(e) => e.key() == q && forall|f: FallFile| #[trigger] old(self).is_about(f) ==> e.is_about(f) && fresh(f, q),
            Entry::Occupied(e) => e.key() == q && forall|f: FallFile| #[trigger] old(self).is_about(f) ==> e.is_about(f),
        } { unimplemented!() }
}
impl<Q> QVacant<Q> {
    pub uninterp spec fn is_about<'f>(&self, f: FallFile<'f>) -> bool;
    pub uninterp spec fn key(&self) -> Q;
    #[verifier::external_body]
    pub fn insert<'f, 'a>(self, r: Q::Result) -> (x: &'a Q::Result) where Q: Query<'f>
        requires exists|f: FallFile<'f>| #[trigger] self.is_about(f) && self.key().ok(f, r) && reported(f, self.key()) ensures *x == r { unimplemented!() }
}
impl<Q> QOccupied<Q> {
    pub uninterp spec fn is_about<'f>(&self, f: FallFile<'f>) -> bool;
    pub uninterp spec fn key(&self) -> Q;
    #[verifier::external_body]
    pub fn get<'f>(&self) -> (x: &Q::Result) where Q: Query<'f>
        ensures forall|f: FallFile<'f>| #[trigger] self.is_about(f) ==> self.key().ok(f, *x) && reported(f, self.key()) { unimplemented!() }
}
/// the diagnostics of a file: what questions report
#[verifier::external_body]
pub struct AllDiagnostics { x: u8 }
impl AllDiagnostics {
    pub uninterp spec fn is_about<'f>(&self, f: FallFile<'f>) -> bool;
    #[verifier::external_body]
    pub fn lock(&self) -> (r: Locked<&AllDiagnostics>) ensures r.0 == self { unimplemented!() }
    #[verifier::external_body]
    pub fn extend<'f, Q: Query<'f>>(&self, ds: Vec<Diagnostic>, Ghost(f): Ghost<FallFile<'f>>, Ghost(q): Ghost<Q>)
        requires self.is_about(f), dgs(ds@) == q.says(f), fresh(f, q)
        ensures reported(f, q) { unimplemented!() }
}
//@rewrite1 Mutex < Vec < Diagnostic > > ==> AllDiagnostics
//@item lang/fall/src/analysis/db.rs struct:DB
pub struct DB<'f> {
    pub file: FallFile<'f>,
    pub diagnostics: AllDiagnostics,
    pub all_lex_rules: QMap<AllLexRules>,
    pub all_syn_rules: QMap<AllSynRules>,
    pub all_contexts: QMap<AllContexts>,
    pub resolve_ref_expr: QMap<ResolveRefExpr<'f>>,
    pub resolve_call: QMap<ResolveCall<'f>>,
    pub unused_rules: QMap<UnusedRules>,
    pub resolve_pratt_variant: QMap<ResolvePrattVariant<'f>>,
    pub resolve_method: QMap<ResolveMethod<'f>>,
    pub ast_node_traits: QMap<AstNodeTraits<'f>>,
}
//@end
/// `Default::default()` of an empty table: it has no wrong answers
pub trait Empty: Sized { spec fn none(self) -> bool; fn empty() -> (r: Self) ensures r.none(); }
impl<Q> Empty for QMap<Q> {
    open spec fn none(self) -> bool { forall|f: FallFile| #[trigger] self.is_about(f) }
    #[verifier::external_body]
    fn empty() -> (r: Self) { unimplemented!() }
}
impl Empty for AllDiagnostics {
    open spec fn none(self) -> bool { forall|f: FallFile| #[trigger] self.is_about(f) }
    #[verifier::external_body]
    fn empty() -> (r: Self) { unimplemented!() }
}
impl<'f> DB<'f> {
    pub open spec fn wf(self) -> bool {
        self.file.wf() && self.file.node.i() == 0
        && self.diagnostics.is_about(self.file) && self.all_lex_rules.is_about(self.file) && self.all_syn_rules.is_about(self.file)
        && self.all_contexts.is_about(self.file) && self.resolve_ref_expr.is_about(self.file) && self.resolve_call.is_about(self.file)
        && self.unused_rules.is_about(self.file) && self.resolve_pratt_variant.is_about(self.file) && self.resolve_method.is_about(self.file) && self.ast_node_traits.is_about(self.file)
    }
//@fn lang/fall/src/analysis/db.rs DB::new
    pub fn new(file: FallFile<'f>) -> «(r:» Self «) requires file.wf(), file.node.i() == 0 ensures r.wf(), r.file == file» {
        DB {
            file,
            diagnostics: Empty::empty(),
            all_lex_rules: Empty::empty(),
            all_syn_rules: Empty::empty(),
            all_contexts: Empty::empty(),
            resolve_ref_expr: Empty::empty(),
            resolve_call: Empty::empty(),
            unused_rules: Empty::empty(),
            resolve_pratt_variant: Empty::empty(),
            resolve_method: Empty::empty(),
            ast_node_traits: Empty::empty(),
        }
    }
//@end
//@fn lang/fall/src/analysis/db.rs DB::file
    pub fn file(&self) -> «(r:» FallFile<'f> «) ensures r == self.file» {
        self.file
    }
//@end
//@fn lang/fall/src/analysis/db.rs DB::get
    pub fn get<Q: QExecutor<'f>>(&self, q: Q) -> «(r:» Q::Result «) requires self.wf(), q.pre(self.file) ensures q.ok(self.file, r), q.done(self.file)» {
        let result = q.execute(self);
        result
    }
//@end
}
pub trait IsDB<'f> { spec fn this(&self) -> DB<'f>; }
impl<'f> IsDB<'f> for DB<'f> { open spec fn this(&self) -> DB<'f> { *self } }
pub trait QueryCache<'f, Q: Query<'f>>: IsDB<'f> {
    fn get_cache(&self) -> (r: &QMap<Q>) requires self.this().wf() ensures r.is_about(self.this().file);
}
impl<'f> QueryCache<'f, AllLexRules> for DB<'f> {
//@fn lang/fall/src/analysis/db.rs <DB as QueryCache<,query::AllLexRules>>::get_cache
    fn get_cache(&self) -> &QMap<AllLexRules> {
        &self.all_lex_rules
    }
//@end
}
impl<'f> QueryCache<'f, AllSynRules> for DB<'f> {
//@fn lang/fall/src/analysis/db.rs <DB as QueryCache<,query::AllSynRules>>::get_cache
    fn get_cache(&self) -> &QMap<AllSynRules> {
        &self.all_syn_rules
    }
//@end
}
impl<'f> QueryCache<'f, AllContexts> for DB<'f> {
//@fn lang/fall/src/analysis/db.rs <DB as QueryCache<,query::AllContexts>>::get_cache
    fn get_cache(&self) -> &QMap<AllContexts> {
        &self.all_contexts
    }
//@end
}
impl<'f> QueryCache<'f, ResolveRefExpr<'f>> for DB<'f> {
//@fn lang/fall/src/analysis/db.rs <DB as QueryCache<,query::ResolveRefExpr<>>>::get_cache
    fn get_cache(&self) -> &QMap<ResolveRefExpr<'f>> {
        &self.resolve_ref_expr
    }
//@end
}
impl<'f> QueryCache<'f, ResolveCall<'f>> for DB<'f> {
//@fn lang/fall/src/analysis/db.rs <DB as QueryCache<,query::ResolveCall<>>>::get_cache
    fn get_cache(&self) -> &QMap<ResolveCall<'f>> {
        &self.resolve_call
    }
//@end
}
impl<'f, Q: OnceQExecutor<'f> + CloneExact> QExecutor<'f> for Q where Q::Result: CloneExact, DB<'f>: QueryCache<'f, Q> {
//@fn lang/fall/src/analysis/db.rs <Q as QExecutor>::execute
    fn execute(self, db: &DB<'f>) -> «(r:» Self::Result «)» {
        «proof { if reported(db.file, self) { self.lemma_done(db.file); } }»
        if let Some(result) = db.get_cache().lock().unwrap().get(&self) {
            return result.clone();
        }
        let mut diagnostics = Vec::new();
        let key = self.clone();
        let value = {
            let mut sink = DiagnosticSink::new(&mut diagnostics);
            <Self as OnceQExecutor>::execute(self, db, &mut sink)
        };
        let mut cache = db.get_cache().lock().unwrap();
        match cache.entry(key) {
            Entry::Vacant(vacant) => {
                db.diagnostics.lock().unwrap().extend(diagnostics «, Ghost(db.file), Ghost::<Q>(key)»);
                vacant.insert(value).clone()
            }
            Entry::Occupied(occupied) => occupied.get().clone()
        }
    }
//@end
}

// ---- the questions ------------------------------------------------------------------------
//@item lang/fall/src/analysis/query/mod.rs struct:AllLexRules
pub struct AllLexRules;
//@end
//@item lang/fall/src/analysis/query/mod.rs struct:FindLexRule
pub struct FindLexRule<'f>(pub Text<'f>);
//@end
//@item lang/fall/src/analysis/query/mod.rs struct:AllSynRules
pub struct AllSynRules;
//@end
//@item lang/fall/src/analysis/query/mod.rs struct:FindSynRule
pub struct FindSynRule<'f>(pub Text<'f>);
//@end
//@item lang/fall/src/analysis/query/mod.rs struct:AllContexts
pub struct AllContexts;
//@end
//@item lang/fall/src/analysis/query/mod.rs struct:ResolveRefExpr
pub struct ResolveRefExpr<'f>(pub RefExpr<'f>);
//@end
//@item lang/fall/src/analysis/query/mod.rs struct:ResolveCall
pub struct ResolveCall<'f>(pub CallExpr<'f>);
//@end
//@item lang/fall/src/analysis/query/mod.rs struct:UnusedRules
pub struct UnusedRules;
//@end
//@item lang/fall/src/analysis/query/mod.rs struct:ResolvePrattVariant
pub struct ResolvePrattVariant<'f>(pub SynRule<'f>);
//@end
//@item lang/fall/src/analysis/query/mod.rs struct:ResolveMethod
pub struct ResolveMethod<'f>(pub MethodDef<'f>);
//@end
//@item lang/fall/src/analysis/query/mod.rs struct:AstNodeTraits
pub struct AstNodeTraits<'f>(pub AstNodeDef<'f>);
//@end
impl CloneExact for AllLexRules { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneExact for AllSynRules { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl CloneExact for AllContexts { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl<'f> CloneExact for ResolveRefExpr<'f> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl<'f> CloneExact for ResolveCall<'f> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }

impl<'f> Query<'f> for AllLexRules {
    type Result = Arc<TextMap<LexRule<'f>>>;
    open spec fn pre(self, file: FallFile<'f>) -> bool { true }
    open spec fn ok(self, file: FallFile<'f>, r: Arc<TextMap<LexRule<'f>>>) -> bool { forall|name: Seq<u8>| #[trigger] (*r).at(name) == lex_rule(file, name) }
    open spec fn says(self, file: FallFile<'f>) -> Seq<Dg> { dup_tokens(tokens(file), tokens(file).len() as int) }
    open spec fn done(self, file: FallFile<'f>) -> bool { reported(file, self) }
}
impl<'f> Query<'f> for FindLexRule<'f> {
    type Result = Option<LexRule<'f>>;
    open spec fn pre(self, file: FallFile<'f>) -> bool { self.0.good() }
    open spec fn ok(self, file: FallFile<'f>, r: Option<LexRule<'f>>) -> bool { r == lex_rule(file, self.0@) }
    open spec fn says(self, file: FallFile<'f>) -> Seq<Dg> { Seq::empty() }
    open spec fn done(self, file: FallFile<'f>) -> bool { reported(file, AllLexRules) }
}
impl<'f> Query<'f> for AllSynRules {
    type Result = Arc<TextMap<SynRule<'f>>>;
    open spec fn pre(self, file: FallFile<'f>) -> bool { true }
    open spec fn ok(self, file: FallFile<'f>, r: Arc<TextMap<SynRule<'f>>>) -> bool { forall|name: Seq<u8>| #[trigger] (*r).at(name) == syn_rule(file, name) }
    open spec fn says(self, file: FallFile<'f>) -> Seq<Dg> { dup_rules(kids_of::<SynRule>(file.node), kids_of::<SynRule>(file.node).len() as int) }
    open spec fn done(self, file: FallFile<'f>) -> bool { reported(file, self) }
}
impl<'f> Query<'f> for FindSynRule<'f> {
    type Result = Option<SynRule<'f>>;
    open spec fn pre(self, file: FallFile<'f>) -> bool { self.0.good() }
    open spec fn ok(self, file: FallFile<'f>, r: Option<SynRule<'f>>) -> bool { r == syn_rule(file, self.0@) && (r.is_some() ==> r->0.wf() && r->0.node.0.file == file.node.0.file) }
    open spec fn says(self, file: FallFile<'f>) -> Seq<Dg> { Seq::empty() }
    open spec fn done(self, file: FallFile<'f>) -> bool { reported(file, AllSynRules) }
}
pub uninterp spec fn context_warnings<'f>(file: FallFile<'f>) -> Seq<Dg>;
impl<'f> Query<'f> for AllContexts {
    type Result = Arc<Vec<Text<'f>>>;
    open spec fn pre(self, file: FallFile<'f>) -> bool { true }
    open spec fn ok(self, file: FallFile<'f>, r: Arc<Vec<Text<'f>>>) -> bool {
        (*r)@.len() == contexts(file).len() <= u32::MAX && forall|i: int| 0 <= i < (*r)@.len() ==> (#[trigger] (*r)@[i]).good() && (*r)@[i]@ == contexts(file)[i]
    }
    open spec fn says(self, file: FallFile<'f>) -> Seq<Dg> { context_warnings(file) }
    open spec fn done(self, file: FallFile<'f>) -> bool { reported(file, self) }
}
impl<'f> Query<'f> for ResolveRefExpr<'f> {
    type Result = Option<RefKind<'f>>;
    open spec fn pre(self, file: FallFile<'f>) -> bool { self.0.wf() && self.0.node.0.file == file.node.0.file }
    open spec fn ok(self, file: FallFile<'f>, r: Option<RefKind<'f>>) -> bool {
        r == ref_spec(file, self.0) && match r { Some(RefKind::RuleReference(rule)) => rule.wf() && rule.node.0.file == file.node.0.file, _ => true }
    }
    open spec fn says(self, file: FallFile<'f>) -> Seq<Dg> { ref_says(file, self.0) }
    open spec fn done(self, file: FallFile<'f>) -> bool { reported(file, self) }
}
impl<'f> Query<'f> for ResolveCall<'f> {
    type Result = Option<CallKind<'f>>;
    open spec fn pre(self, file: FallFile<'f>) -> bool { self.0.wf() && self.0.node.0.file == file.node.0.file }
    open spec fn ok(self, file: FallFile<'f>, r: Option<CallKind<'f>>) -> bool { call_is(file, self.0, r) }
    open spec fn says(self, file: FallFile<'f>) -> Seq<Dg> { call_says(file, self.0) }
    open spec fn done(self, file: FallFile<'f>) -> bool { reported(file, self) }
}

impl<'f> OnceQExecutor<'f> for AllLexRules {
    proof fn lemma_done(self, file: FallFile<'f>) {}
//@fn lang/fall/src/analysis/query/all_lex_rules.rs <AllLexRules as OnceQExecutor>::execute
    fn execute(self, db: &DB<'f>, d: &mut DiagnosticSink) -> «(r:» Arc<TextMap<LexRule<'f>>> «)» {
        «broadcast use lemma_good;»
        let file = db.file();
        let mut result = TextMap::new();
        let mut tys = TextSet::new();
        «let ghost all = tokens(db.file); let ghost mut k = 0int; let ghost said0 = d.said(); let ghost fin0 = *final(d.diagnostics);
        proof { lemma_tokens(db.file); assert(said0 + dup_tokens(all, 0) =~= said0); }»
        if let Some(tokenizer) = file.tokenizer_def() {
            {
                let mut it__0 = tokenizer.lex_rules();
                loop
                «invariant_except_break it__0.wf(), 0 <= k <= all.len(), it__0.rest() == all.skip(k)
                 invariant 0 <= k <= all.len(), forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).wf(),
                    forall|name: Seq<u8>| #[trigger] result.at(name) == lex_upto(all, name, k),
                    forall|ty: Seq<u8>| #[trigger] tys.has(ty) == has_ty(all, ty, k),
                    d.said() == said0 + dup_tokens(all, k), *final(d.diagnostics) == fin0
                 ensures k == all.len()
                 decreases it__0.left()»
                {
                    «let ghost r0 = it__0.rest();»
                    if let Some(x__0) = it__0.next() {
                        «proof { lemma_step(all, k, r0, x__0, it__0.rest()); k = k + 1; assert(all[k - 1].wf()); lemma_has_ty(all, k); }»
                        let rule = x__0;
                        result.insert(rule.token_name(), rule);
                        if !tys.insert(rule.node_type()) {
                            d.error(rule.node(), strlit("Duplicate token"));
                        }
                        «proof { assert(d.said() =~= said0 + dup_tokens(all, k)); }»
                    } else {
                        «proof { assert(k == all.len()); }»
                        break;
                    }
                }
            }
        }
        Arc::new(result)
    }
//@end
}
pub proof fn lemma_tokens<'f>(file: FallFile<'f>)
    requires file.wf()
    ensures forall|i: int| 0 <= i < tokens(file).len() ==> (#[trigger] tokens(file)[i]).wf()
{
    broadcast use lemma_good;
    lemma_kids_ty::<TokenizerDef>(file.node);
    if first_kid::<TokenizerDef>(file.node).is_some() {
        let t = first_kid::<TokenizerDef>(file.node)->0;
        lemma_kids_ty::<TokenizerDef>(file.node);
        lemma_kids_ty::<LexRule>(t.node);
        assert forall|i: int| 0 <= i < tokens(file).len() implies (#[trigger] tokens(file)[i]).wf() by {
            assert(is_kid(t.node, kids_of::<LexRule>(t.node)[i]));
        }
    }
}
pub open spec fn is_kid<'f, A: AstNode<'f>>(n: Node<'f>, a: A) -> bool {
    exists|k: int| 0 <= k < n.t().len() && #[trigger] A::wrap_spec(at(n, k)) == Some(a)
}
pub proof fn lemma_kids_ty<'f, A: AstNode<'f>>(n: Node<'f>)
    requires n.wf()
    ensures forall|i: int| 0 <= i < kids_of::<A>(n).len() ==> is_kid(n, #[trigger] kids_of::<A>(n)[i])
{
    lemma_kids_below(n.t(), n.i());
    lemma_typed_ty::<A>(n, n.d().kids, 0);
}
pub proof fn lemma_typed_ty<'f, A: AstNode<'f>>(n: Node<'f>, s: Seq<int>, k: int)
    requires n.wf(), forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < n.t().len()
    ensures forall|i: int| 0 <= i < typed::<A>(n.0.file, s, k).len() ==> is_kid(n, #[trigger] typed::<A>(n.0.file, s, k)[i])
    decreases s.len() - k
{
    if 0 <= k < s.len() {
        lemma_typed_ty::<A>(n, s, k + 1);
        let r = typed::<A>(n.0.file, s, k);
        let x = A::wrap_spec(at(n, s[k]));
        assert(s[k] < n.t().len());
        if x.is_some() {
            let rest = typed::<A>(n.0.file, s, k + 1);
            assert(r == seq![x->0] + rest);
            assert forall|i: int| 0 <= i < r.len() implies is_kid(n, #[trigger] r[i]) by { if i > 0 { assert(r[i] == rest[i - 1]); } }
        }
    }
}
pub proof fn lemma_has_ty<'f>(s: Seq<LexRule<'f>>, k: int)
    requires 0 < k <= s.len()
    ensures forall|ty: Seq<u8>| #[trigger] has_ty(s, ty, k) == (ty == ident_text(s[k - 1].node) || has_ty(s, ty, k - 1))
{
    assert forall|ty: Seq<u8>| #[trigger] has_ty(s, ty, k) == (ty == ident_text(s[k - 1].node) || has_ty(s, ty, k - 1)) by {
        if has_ty(s, ty, k) { let j = choose|j: int| 0 <= j < k && ident_text((#[trigger] s[j]).node) == ty; if j < k - 1 { assert(has_ty(s, ty, k - 1)); } }
        if ty == ident_text(s[k - 1].node) { assert(has_ty(s, ty, k)); }
    }
}
impl<'f> QExecutor<'f> for FindLexRule<'f> {
//@fn lang/fall/src/analysis/query/find_lex_rule.rs <FindLexRule as QExecutor>::execute
    fn execute(self, db: &DB<'f>) -> «(r:» Option<LexRule<'f>> «)» {
        let all = db.get(AllLexRules);
        match all.get(&self.0) {
            Some(v__0) => Some({
                let r = (*v__0);
                r
            }),
            None => None
        }
    }
//@end
}
impl<'f> OnceQExecutor<'f> for AllSynRules {
    proof fn lemma_done(self, file: FallFile<'f>) {}
//@fn lang/fall/src/analysis/query/all_syn_rules.rs <AllSynRules as OnceQExecutor>::execute
    fn execute(self, db: &DB<'f>, d: &mut DiagnosticSink) -> «(r:» Arc<TextMap<SynRule<'f>>> «)» {
        let file = db.file();
        let mut result = TextMap::new();
        «let ghost all = kids_of::<SynRule>(db.file.node); let ghost mut k = 0int; let ghost said0 = d.said(); let ghost fin0 = *final(d.diagnostics);
        proof { lemma_syn_rules(db.file); assert(said0 + dup_rules(all, 0) =~= said0); assert(all.take(0) =~= Seq::empty()); assert(all.take(all.len() as int) =~= all); }»
        {
            let mut it__0 = file.syn_rules();
            loop
            «invariant_except_break it__0.wf(), 0 <= k <= all.len(), it__0.rest() == all.skip(k)
             invariant 0 <= k <= all.len(), forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).wf(),
                forall|name: Seq<u8>| #[trigger] result.at(name) == syn_from(all.take(k), name, 0),
                d.said() == said0 + dup_rules(all, k), *final(d.diagnostics) == fin0
             ensures k == all.len()
             decreases it__0.left()»
            {
                «let ghost r0 = it__0.rest();»
                if let Some(x__0) = it__0.next() {
                    «proof { lemma_step(all, k, r0, x__0, it__0.rest()); k = k + 1; assert(all[k - 1].wf()); lemma_syn_take(all, k); }»
                    let rule = x__0;
                    if let Some(ident) = rule.name_ident() {
                        match result.entry(ident.text()) {
                            Entry::Vacant(vacant) => {
                                vacant.insert(rule);
                            }
                            Entry::Occupied(..) => {
                                d.error(ident, strlit("Duplicate rule"));
                            }
                        }
                    }
                    «proof { assert(d.said() =~= said0 + dup_rules(all, k)); }»
                } else {
                    «proof { assert(k == all.len()); }»
                    break;
                }
            }
        }
        Arc::new(result)
    }
//@end
}
pub proof fn lemma_syn_rules<'f>(file: FallFile<'f>)
    requires file.wf()
    ensures forall|i: int| 0 <= i < kids_of::<SynRule>(file.node).len() ==> (#[trigger] kids_of::<SynRule>(file.node)[i]).wf() && kids_of::<SynRule>(file.node)[i].node.0.file == file.node.0.file
{
    broadcast use lemma_good;
    lemma_kids_ty::<SynRule>(file.node);
    assert forall|i: int| 0 <= i < kids_of::<SynRule>(file.node).len() implies (#[trigger] kids_of::<SynRule>(file.node)[i]).wf() && kids_of::<SynRule>(file.node)[i].node.0.file == file.node.0.file by {
        assert(is_kid(file.node, kids_of::<SynRule>(file.node)[i]));
    }
}
/// one more rule changes what is first under its name only, and only if there was none
pub proof fn lemma_syn_take<'f>(s: Seq<SynRule<'f>>, k: int)
    requires 0 < k <= s.len()
    ensures forall|name: Seq<u8>| #[trigger] syn_from(s.take(k), name, 0) ==
        if syn_from(s.take(k - 1), name, 0).is_none() && s[k - 1].name_spec() == Some(name) { Some(s[k - 1]) } else { syn_from(s.take(k - 1), name, 0) }
{
    assert forall|name: Seq<u8>| #[trigger] syn_from(s.take(k), name, 0) ==
        if syn_from(s.take(k - 1), name, 0).is_none() && s[k - 1].name_spec() == Some(name) { Some(s[k - 1]) } else { syn_from(s.take(k - 1), name, 0) } by { lemma_syn_take_from(s, k, name, 0); }
}
pub proof fn lemma_syn_take_from<'f>(s: Seq<SynRule<'f>>, k: int, name: Seq<u8>, i: int)
    requires 0 < k <= s.len(), 0 <= i < k
    ensures syn_from(s.take(k), name, i) ==
        if syn_from(s.take(k - 1), name, i).is_none() && s[k - 1].name_spec() == Some(name) { Some(s[k - 1]) } else { syn_from(s.take(k - 1), name, i) }
    decreases k - i
{
    if i < k - 1 { lemma_syn_take_from(s, k, name, i + 1); assert(s.take(k)[i] == s.take(k - 1)[i]); }
    else { reveal_with_fuel(syn_from, 3); }
}
/// the rule that is found is a rule of the file
pub proof fn lemma_syn_found<'f>(file: FallFile<'f>, name: Seq<u8>, k: int)
    requires file.wf(), 0 <= k
    ensures syn_from(kids_of::<SynRule>(file.node), name, k).is_some() ==> ({ let r = syn_from(kids_of::<SynRule>(file.node), name, k)->0; r.wf() && r.node.0.file == file.node.0.file })
    decreases kids_of::<SynRule>(file.node).len() - k
{
    lemma_syn_rules(file);
    if k < kids_of::<SynRule>(file.node).len() { lemma_syn_found(file, name, k + 1); }
}
impl<'f> QExecutor<'f> for FindSynRule<'f> {
//@fn lang/fall/src/analysis/query/find_syn_rule.rs <FindSynRule as QExecutor>::execute
    fn execute(self, db: &DB<'f>) -> «(r:» Option<SynRule<'f>> «)» {
        «proof { lemma_syn_found(db.file, self.0@, 0); }»
        let all = db.get(AllSynRules);
        match all.get(&self.0) {
            Some(v__0) => Some({
                let r = (*v__0);
                r
            }),
            None => None
        }
    }
//@end
}
impl<'f> OnceQExecutor<'f> for AllContexts {
    proof fn lemma_done(self, file: FallFile<'f>) {}
    #[verifier::external_body]
    fn execute(self, db: &DB<'f>, d: &mut DiagnosticSink) -> (r: Arc<Vec<Text<'f>>>) { unimplemented!() }
}
impl<'f> OnceQExecutor<'f> for ResolveRefExpr<'f> {
    proof fn lemma_done(self, file: FallFile<'f>) {}
//@fn lang/fall/src/analysis/query/resolve_ref_expr.rs <ResolveRefExpr as OnceQExecutor>::execute
    fn execute(self, db: &DB<'f>, d: &mut DiagnosticSink) -> «(r:» Option<RefKind<'f>> «)» {
        let ref_ = self.0;
        let reference_name = ref_.reference_name();
        «let ghost name = ref_.name_spec();
        proof { reveal(ref_spec); lemma_nearest(ref_.node, ref_.node.i()); lemma_good(ref_.node); assert(d.said() + Seq::<Dg>::empty() =~= d.said()); }»
        if let Some(param) = match ancestor_exn::<SynRule>(ref_.node()).parameters() {
            Some(v__1) => {
                let params = v__1;
                «let ghost all = kids_of::<Parameter>(params.node); let ghost mut k = 0int;»
                {
                    let mut r__0 «: Option<Parameter<'f>>» = None;
                    let mut it__0 = params.parameters();
                    loop
                    «invariant_except_break r__0.is_none(), it__0.wf(), it__0.inner.file == params.node.0.file, 0 <= k <= all.len(), it__0.rest() == all.skip(k), param_from(all, name, 0) == param_from(all, name, k)
                     invariant params.wf(), reference_name.good(), reference_name@ == name
                     ensures r__0 == param_from(all, name, 0)
                     decreases it__0.left()»
                    {
                        «let ghost r0 = it__0.rest();»
                        if let Some(x__0) = it__0.next() {
                            «proof { lemma_step(all, k, r0, x__0, it__0.rest()); k = k + 1; lemma_good(x__0.node); }»
                            let p = &x__0;
                            if p.name() == reference_name {
                                r__0 = Some(x__0);
                                break;
                            }
                        } else {
                            «proof { assert(k == all.len()); }»
                            break;
                        }
                    }
                    r__0
                }
            }
            None => None
        } {
            return Some(RefKind::Param(param));
        }
        if let Some(syn_rule) = db.get(FindSynRule(reference_name)) {
            return Some(RefKind::RuleReference(syn_rule));
        }
        if let Some(lex_rule) = db.get(FindLexRule(reference_name)) {
            return Some(RefKind::Token(lex_rule));
        }
        let parent = ref_.node().parent().unwrap();
        «proof { lemma_good(parent); assert(parent == at(ref_.node, ref_.node.d().parent->0)); }»
        if let Some(call) = CallExpr::wrap(parent) {
            if call.context_name().is_some() && match call.args().next() {
                Some(v__2) => Some({
                    let a = v__2;
                    a.node()
                }),
                None => None
            } == Some(ref_.node()) {
                return None;
            }
        }
        d.error(ref_.node(), strlit("Unresolved reference"));
        None
    }
//@end
}
/// the rule around a node
pub proof fn lemma_nearest(n: Node, i: int)
    requires n.wf(), shape(n.0.file), 0 <= i < n.t().len()
    ensures nearest::<SynRule>(n, i).is_some() ==> nearest::<SynRule>(n, i)->0.wf(),
        nearest::<SynRule>(n, i).is_some() && n.t()[i].ty != SYN_RULE ==> n.t()[i].parent.is_some()
    decreases i
{
    lemma_good(at(n, i));
    if n.t()[i].ty != SYN_RULE && n.t()[i].parent.is_some() && 0 <= n.t()[i].parent->0 < i { lemma_nearest(n, n.t()[i].parent->0); }
}
//@rewrite1 fn resolve_context ( db : & DB , d : & mut DiagnosticSink , call : CallExpr ) ==> fn resolve_context < 'f > ( db : & DB < 'f > , d : & mut DiagnosticSink , call : CallExpr < 'f > )
//@fn lang/fall/src/analysis/query/resolve_call.rs resolve_context
pub fn resolve_context<'f>(db: &DB<'f>, d: &mut DiagnosticSink, call: CallExpr<'f>) -> «(r:» Option<u32> «)
    requires db.wf(), call.wf(), call.node.0.file == db.file.node.0.file, call.args_spec().len() > 0
    ensures r == ctx_spec(db.file, call), final(d).said() == old(d).said() + ctx_says(call), *final(final(d).diagnostics) == *final(old(d).diagnostics)» {
    «proof { assert(d.said() + Seq::<Dg>::empty() =~= d.said()); }»
    if let Some(name) = call.context_name() {
        match {
            let mut r__0 «: Option<usize>» = None;
            let s__0 = &db.get(AllContexts);
            let mut i__0: usize = 0;
            let mut n__1: usize = 0;
            «let ghost all = contexts(db.file); let ghost said0 = d.said();»
            while i__0 < s__0.len()
            «invariant_except_break r__0.is_none(), n__1 == i__0, i__0 <= all.len(), find_from(all, name@, 0) == find_from(all, name@, i__0 as int)
             invariant AllContexts.ok(db.file, *s__0), name.good(), all == contexts(db.file)
             ensures match r__0 { Some(i) => find_from(all, name@, 0) == Some(i as int) && i < all.len(), None => find_from(all, name@, 0).is_none() }
             decreases all.len() - i__0»
            {
                let j__0 = i__0;
                i__0 = i__0 + 1;
                let c = s__0[j__0];
                if c == name {
                    r__0 = Some(n__1);
                    break;
                }
                n__1 = n__1 + 1;
            }
            r__0
        } {
            Some(v__2) => Some({
                let usize_ = v__2;
                usize_ as u32
            }),
            None => None
        }
    } else {
        d.error(call.args().next().unwrap().node(), strlit("Context should be a single quoted string"));
        None
    }
}
//@end
impl<'f> OnceQExecutor<'f> for ResolveCall<'f> {
    proof fn lemma_done(self, file: FallFile<'f>) {}
//@fn lang/fall/src/analysis/query/resolve_call.rs <ResolveCall as OnceQExecutor>::execute
    fn execute(self, db: &DB<'f>, d: &mut DiagnosticSink) -> «(r:» Option<CallKind<'f>> «)» {
        let call = self.0;
        «proof { reveal(call_is); lemma_names(); assert(d.said() + Seq::<Dg>::empty() =~= d.said()); }
        let ghost said0 = d.said(); let ghost fin0 = *final(d.diagnostics); let ghost all = call.args_spec(); let ghost file = db.file;»
        let n_args = call.args().count();
        {
            if call.fn_name() == strlit("any") {
                return {
                    {
                        if 0 != n_args {
                            d.error(call.node(), vformat(),)
                        }
                    };
                    Some(CallKind::Any)
                };
            }
            if call.fn_name() == strlit("commit") {
                return {
                    {
                        if 0 != n_args {
                            d.error(call.node(), vformat(),)
                        }
                    };
                    Some(CallKind::Commit)
                };
            }
            if call.fn_name() == strlit("eof") {
                return {
                    {
                        if 0 != n_args {
                            d.error(call.node(), vformat(),)
                        }
                    };
                    Some(CallKind::Eof)
                };
            }
            if call.fn_name() == strlit("not") {
                return {
                    {
                        if 1 != n_args {
                            d.error(call.node(), vformat(),)
                        }
                    };
                    match call.args().next() {
                        Some(v__0) => {
                            let arg = v__0;
                            Some(CallKind::Not(arg))
                        }
                        None => None
                    }
                };
            }
            if call.fn_name() == strlit("is_in") {
                return {
                    {
                        if 1 != n_args {
                            d.error(call.node(), vformat(),)
                        }
                    };
                    match call.args().next() {
                        Some(v__2) => {
                            let arg = v__2;
                            match resolve_context(db, d, call) {
                                Some(v__1) => Some({
                                    CallKind::IsIn(v__1)
                                }),
                                None => None
                            }
                        }
                        None => None
                    }
                };
            }
            if call.fn_name() == strlit("layer") {
                return {
                    {
                        if 2 != n_args {
                            d.error(call.node(), vformat(),)
                        }
                    };
                    match call.args().next_tuple() {
                        Some(v__3) => {
                            let arg1 = v__3.0;
                            let arg2 = v__3.1;
                            {
                                Some(CallKind::Layer(arg1, arg2))
                            }
                        }
                        None => None
                    }
                };
            }
            if call.fn_name() == strlit("with_skip") {
                return {
                    {
                        if 2 != n_args {
                            d.error(call.node(), vformat(),)
                        }
                    };
                    match call.args().next_tuple() {
                        Some(v__4) => {
                            let arg1 = v__4.0;
                            let arg2 = v__4.1;
                            {
                                Some(CallKind::WithSkip(arg1, arg2))
                            }
                        }
                        None => None
                    }
                };
            }
            if call.fn_name() == strlit("inject") {
                return {
                    {
                        if 2 != n_args {
                            d.error(call.node(), vformat(),)
                        }
                    };
                    match call.args().next_tuple() {
                        Some(v__5) => {
                            let arg1 = v__5.0;
                            let arg2 = v__5.1;
                            {
                                Some(CallKind::Inject(arg1, arg2))
                            }
                        }
                        None => None
                    }
                };
            }
            if call.fn_name() == strlit("enter") {
                return {
                    {
                        if 2 != n_args {
                            d.error(call.node(), vformat(),)
                        }
                    };
                    match call.args().next_tuple() {
                        Some(v__7) => {
                            let arg1 = v__7.0;
                            let arg2 = v__7.1;
                            {
                                match resolve_context(db, d, call) {
                                    Some(v__6) => Some({
                                        let ctx = v__6;
                                        CallKind::Enter(ctx, arg2)
                                    }),
                                    None => None
                                }
                            }
                        }
                        None => None
                    }
                };
            }
            if call.fn_name() == strlit("exit") {
                return {
                    {
                        if 2 != n_args {
                            d.error(call.node(), vformat(),)
                        }
                    };
                    match call.args().next_tuple() {
                        Some(v__9) => {
                            let arg1 = v__9.0;
                            let arg2 = v__9.1;
                            {
                                match resolve_context(db, d, call) {
                                    Some(v__8) => Some({
                                        let ctx = v__8;
                                        CallKind::Exit(ctx, arg2)
                                    }),
                                    None => None
                                }
                            }
                        }
                        None => None
                    }
                };
            }
            if call.fn_name() == strlit("prev_is") {
                return {
                    let mut args «: Vec<SynRule<'f>>» = Vec::new();
                    «let ghost mut k = 0int; proof { assert(said0 + prev_says(file, call, 0) =~= said0); assert(args@ =~= prev_rules(file, all, 0)); }»
                    {
                        let mut it__0 = call.args();
                        loop
                        «invariant_except_break it__0.wf(), it__0.inner.file == file.node.0.file, 0 <= k <= all.len(), it__0.rest() == all.skip(k)
                         invariant db.wf(), db.file == file, call.wf(), call.node.0.file == file.node.0.file, all == call.args_spec(), 0 <= k <= all.len(),
                            args@ == prev_rules(file, all, k), d.said() == said0 + prev_says(file, call, k), *final(d.diagnostics) == fin0
                         ensures k == all.len()
                         decreases it__0.left()»
                        {
                            «let ghost r0 = it__0.rest();»
                            if let Some(x__0) = it__0.next() {
                                «proof { lemma_step(all, k, r0, x__0, it__0.rest()); k = k + 1; if x__0 is RefExpr { lemma_good(x__0->RefExpr_0.node); } }»
                                let arg = x__0;
                                let mut ok = false;
                                if let Expr::RefExpr(expr) = arg {
                                    if let Some(RefKind::RuleReference(rule)) = db.get(ResolveRefExpr(expr)) {
                                        if rule.ty_name().is_some() {
                                            args.push(rule);
                                            ok = true;
                                        }
                                    }
                                }
                                if !ok {
                                    d.error(call.node(), strlit("<prev_is> arguments must be public rules"))
                                }
                                «proof { assert(d.said() =~= said0 + prev_says(file, call, k)); }»
                            } else {
                                «proof { assert(k == all.len()); }»
                                break;
                            }
                        }
                    }
                    Some(CallKind::PrevIs(Arc::new(args)))
                };
            }
        }
        if let Some(rule) = db.get(FindSynRule(call.fn_name())) {
            if let Some(parameters) = rule.parameters() {
                «let ghost ps = params_of(rule);»
                let n_expected = {
                    let mut r__10 = 0usize;
                    let mut it__1 = parameters.parameters();
                    «proof { lemma_rest_len(it__1); assert(vstd::slice::spec_slice_len(it__1.inner.inner.s) == it__1.inner.inner.s@.len()); }»
                    loop
                    «invariant_except_break it__1.wf(), r__10 + it__1.rest().len() == ps.len(), it__1.rest().len() <= it__1.left()
                     invariant ps.len() <= usize::MAX
                     ensures r__10 == ps.len()
                     decreases it__1.left()»
                    {
                        «let ghost r0 = it__1.rest();»
                        if let Some(x__1) = it__1.next() {
                            «proof { assert(r0.len() == 1 + it__1.rest().len()); lemma_rest_len(it__1); }»
                            r__10 = r__10 + 1;
                        } else {
                            break;
                        }
                    }
                    r__10
                };
                if n_expected != n_args {
                    d.error(call.node(), vformat(),)
                }
                let params = parameters.parameters().zip(call.args()).collect();
                return Some(CallKind::RuleCall(rule, Arc::new(params)));
            }
        }
        «proof { lemma_has(call.node, IDENT); }»
        d.error(child_of_type_exn(call.node(), IDENT), strlit("Unresolved reference"),);
        None
    }
//@end
}
/// the built-in names differ
pub proof fn lemma_names()
    ensures
        utf8("any"@) != utf8("not"@),
        utf8("any"@) != utf8("eof"@),
        utf8("any"@) != utf8("commit"@),
        utf8("any"@) != utf8("inject"@),
        utf8("any"@) != utf8("is_in"@),
        utf8("any"@) != utf8("layer"@),
        utf8("any"@) != utf8("enter"@),
        utf8("any"@) != utf8("exit"@),
        utf8("any"@) != utf8("with_skip"@),
        utf8("any"@) != utf8("prev_is"@),
        utf8("not"@) != utf8("eof"@),
        utf8("not"@) != utf8("commit"@),
        utf8("not"@) != utf8("inject"@),
        utf8("not"@) != utf8("is_in"@),
        utf8("not"@) != utf8("layer"@),
        utf8("not"@) != utf8("enter"@),
        utf8("not"@) != utf8("exit"@),
        utf8("not"@) != utf8("with_skip"@),
        utf8("not"@) != utf8("prev_is"@),
        utf8("eof"@) != utf8("commit"@),
        utf8("eof"@) != utf8("inject"@),
        utf8("eof"@) != utf8("is_in"@),
        utf8("eof"@) != utf8("layer"@),
        utf8("eof"@) != utf8("enter"@),
        utf8("eof"@) != utf8("exit"@),
        utf8("eof"@) != utf8("with_skip"@),
        utf8("eof"@) != utf8("prev_is"@),
        utf8("commit"@) != utf8("inject"@),
        utf8("commit"@) != utf8("is_in"@),
        utf8("commit"@) != utf8("layer"@),
        utf8("commit"@) != utf8("enter"@),
        utf8("commit"@) != utf8("exit"@),
        utf8("commit"@) != utf8("with_skip"@),
        utf8("commit"@) != utf8("prev_is"@),
        utf8("inject"@) != utf8("is_in"@),
        utf8("inject"@) != utf8("layer"@),
        utf8("inject"@) != utf8("enter"@),
        utf8("inject"@) != utf8("exit"@),
        utf8("inject"@) != utf8("with_skip"@),
        utf8("inject"@) != utf8("prev_is"@),
        utf8("is_in"@) != utf8("layer"@),
        utf8("is_in"@) != utf8("enter"@),
        utf8("is_in"@) != utf8("exit"@),
        utf8("is_in"@) != utf8("with_skip"@),
        utf8("is_in"@) != utf8("prev_is"@),
        utf8("layer"@) != utf8("enter"@),
        utf8("layer"@) != utf8("exit"@),
        utf8("layer"@) != utf8("with_skip"@),
        utf8("layer"@) != utf8("prev_is"@),
        utf8("enter"@) != utf8("exit"@),
        utf8("enter"@) != utf8("with_skip"@),
        utf8("enter"@) != utf8("prev_is"@),
        utf8("exit"@) != utf8("with_skip"@),
        utf8("exit"@) != utf8("prev_is"@),
        utf8("with_skip"@) != utf8("prev_is"@)
{
    axiom_utf8();
    reveal_strlit("any"); assert("any"@.len() == 3);
    reveal_strlit("not"); assert("not"@.len() == 3);
    reveal_strlit("eof"); assert("eof"@.len() == 3);
    reveal_strlit("commit"); assert("commit"@.len() == 6);
    reveal_strlit("inject"); assert("inject"@.len() == 6);
    reveal_strlit("is_in"); assert("is_in"@.len() == 5);
    reveal_strlit("layer"); assert("layer"@.len() == 5);
    reveal_strlit("enter"); assert("enter"@.len() == 5);
    reveal_strlit("exit"); assert("exit"@.len() == 4);
    reveal_strlit("with_skip"); assert("with_skip"@.len() == 9);
    reveal_strlit("prev_is"); assert("prev_is"@.len() == 7);
    assert("any"@[0] == 'a');
    assert("not"@[0] == 'n');
    assert("eof"@[0] == 'e');
    assert("commit"@[0] == 'c');
    assert("inject"@[0] == 'i');
    assert("is_in"@[0] == 'i');
    assert("layer"@[0] == 'l');
    assert("enter"@[0] == 'e');
    assert("exit"@[0] == 'e');
    assert("with_skip"@[0] == 'w');
    assert("prev_is"@[0] == 'p');
}

// ---- what users call ------------------------------------------------------------------------
//@item lang/fall/src/analysis/mod.rs struct:Analysis
pub struct Analysis<'f> {
    pub db: DB<'f>,
    pub file: FallFile<'f>,
}
//@end
impl<'f> Analysis<'f> {
    pub open spec fn wf(self) -> bool { self.db.wf() && self.db.file == self.file }
//@fn lang/fall/src/analysis/mod.rs Analysis::new
    pub fn new(file: FallFile) -> «(r:» Analysis «) requires file.wf(), file.node.i() == 0 ensures r.wf(), r.file == file» {
        Analysis { db: DB::new(file), file }
    }
//@end
//@fn lang/fall/src/analysis/mod.rs Analysis::ast
    pub fn ast(&self) -> «(r:» FallFile<'f> «) ensures r == self.file» {
        self.file
    }
//@end
//@fn lang/fall/src/analysis/mod.rs Analysis::resolve_reference
    pub fn resolve_reference(&self, ref_: RefExpr<'f>) -> «(r:» Option<RefKind<'f>> «) requires self.wf(), ref_.wf(), ref_.node.0.file == self.file.node.0.file
        ensures r == ref_spec(self.file, ref_), reported(self.file, ResolveRefExpr(ref_))» {
        self.db.get(ResolveRefExpr(ref_))
    }
//@end
//@fn lang/fall/src/analysis/mod.rs Analysis::resolve_call
    pub fn resolve_call(&self, call: CallExpr<'f>) -> «(r:» Option<CallKind<'f>> «) requires self.wf(), call.wf(), call.node.0.file == self.file.node.0.file
        ensures call_is(self.file, call, r), reported(self.file, ResolveCall(call))» {
        self.db.get(ResolveCall(call))
    }
//@end
}

} // mod
} // verus!
