// The parser generator: fall/gen/src/generate/codegen.rs
//@owner C21
//@iterfn lex_rules syn_rules alts parts
//@dropmod generate codegen
verus! {
mod gen_ {
use super::*;
use super::gram_::*;
use std::sync::Arc;

// ---- what is generated: expressions of the parser -------------------------------------------
pub mod dst {
use super::super::*;
//@item fall/parse/src/lib.rs struct:NodeTypeRef
«#[derive(Copy, Clone)]»
pub struct NodeTypeRef(pub u32);
//@end
//@item fall/parse/src/lib.rs struct:Context
«#[derive(Copy, Clone)]»
pub struct Context(pub u32);
//@end
//@item fall/parse/src/lib.rs struct:Arg
«#[derive(Copy, Clone)]»
pub struct Arg(pub u32);
//@end
//@item fall/parse/src/lib.rs struct:ExprRef
«#[derive(Copy, Clone)]»
pub struct ExprRef(pub u32);
//@end
//@rewrite1 String ==> Str
//@item fall/parse/src/lib.rs enum:Expr
pub enum Expr {
    Pub {
        ty: NodeTypeRef,
        body: ExprRef,
        replaceable: bool,
    },
    PubReplace {
        ty: NodeTypeRef,
        body: ExprRef,
    },
    Or(Vec<ExprRef>),
    And(Vec<ExprRef>, Option<usize>),
    Token(NodeTypeRef),
    ContextualToken(NodeTypeRef, Str),
    Rep(ExprRef),
    WithSkip(ExprRef, ExprRef),
    Opt(ExprRef),
    Not(ExprRef),
    Eof,
    Any,
    Layer(ExprRef, ExprRef),
    Pratt(Box<PrattTable>),
    Enter(Context, ExprRef),
    Exit(Context, ExprRef),
    IsIn(Context),
    Call(ExprRef, Vec<(Arg, ExprRef)>),
    Var(Arg),
    PrevIs(Vec<NodeTypeRef>),
    Inject(ExprRef, ExprRef),
    Cached(ExprRef),
}
//@end
//@item fall/parse/src/lib.rs struct:PrattTable
pub struct PrattTable {
    pub atoms: Vec<ExprRef>,
    pub prefixes: Vec<Prefix>,
    pub infixes: Vec<Infix>,
}
//@end
//@item fall/parse/src/lib.rs struct:Prefix
pub struct Prefix {
    pub ty: NodeTypeRef,
    pub op: ExprRef,
    pub priority: u32,
}
//@end
//@item fall/parse/src/lib.rs struct:Infix
pub struct Infix {
    pub ty: NodeTypeRef,
    pub op: ExprRef,
    pub priority: u32,
    pub has_rhs: bool,
}
//@end
}
// ---- shims ------------------------------------------------------------------------------------
/// `failure::Error`: messages are not looked at
pub struct Error { pub x: u8 }
pub type Result<T> = std::result::Result<T, Error>;
/// `format_err!(..)`
#[verifier::external_body]
pub fn verror() -> Error { unimplemented!() }
/// a parser has fewer than 2^32 expressions
#[verifier::external_body]
pub proof fn fits(v: &Vec<dst::Expr>) ensures v@.len() < u32::MAX { unimplemented!() }
//@item fall/gen/src/generate/codegen.rs const:MAX_SLOTS
pub const MAX_SLOTS: u32 = 16;
//@end

// ---- more of the syntax tree ------------------------------------------------------------------
/// `n` (of a tree without syntax errors): what the grammar of grammars demands beyond `node_shape`
pub open spec fn full_node(n: Node) -> bool {
    let ty = n.d().ty;
    &&& ty == SYN_RULE ==> n.d().parent == Some(0int) && kids_of::<Expr>(n).len() > 0 && kids_of::<Expr>(n)[0] is BlockExpr
    &&& (ty == OPT_EXPR || ty == REP_EXPR) ==> kids_of::<Expr>(n).len() > 0
    &&& ty == STRING ==> occurs(txt(n), utf8("r"@), 0) || quoted(txt(n))
}
pub open spec fn full(f: &File) -> bool { forall|i: int| 0 <= i < f.t().len() ==> full_node(#[trigger] nth(f, i)) }
pub proof fn lemma_full(n: Node)
    requires n.wf(), full(n.0.file)
    ensures full_node(n)
{
    assert(n == nth(n.0.file, n.i()));
}
/// a grammar file without syntax errors
#[verifier::opaque]
pub open spec fn whole<'f>(file: FallFile<'f>) -> bool {
    file.wf() && file.node.i() == 0 && full(file.node.0.file) && tokens(file).len() + rules(file).len() < u32::MAX && params_from(rules(file), 0).len() < u32::MAX
}
pub open spec fn rules<'f>(file: FallFile<'f>) -> Seq<SynRule<'f>> { kids_of::<SynRule>(file.node) }
/// a part of the file
#[verifier::opaque]
pub open spec fn of_file<'f, A: AstNode<'f>>(file: FallFile<'f>, a: A) -> bool {
    a.node_spec().wf() && a.node_spec().0.file == file.node.0.file && A::wrap_spec(a.node_spec()) == Some(a)
}
pub open spec fn size<'f>(e: Expr<'f>) -> int { e.node_spec().t().len() - e.node_spec().i() }

impl<'f> LexRule<'f> {
    pub open spec fn attr(self, name: Seq<u8>) -> Option<Attribute<'f>> {
        match first_kid::<Attributes>(self.node) { Some(a) => attr_from(kids_of::<Attribute>(a.node), name, 0), None => None }
    }
    pub open spec fn text_spec(self) -> Option<Seq<u8>> {
        match self.re_spec() { Some(t) => if occurs(t, utf8("r"@), 0) { None } else { Some(body_of(t)) }, None => None }
    }
//@fn lang/fall/syntax/src/fall.rs LexRule::attributes
    pub fn attributes(&self) -> «(r:» Option<Attributes<'f>> «) requires self.wf() ensures r == first_kid::<Attributes>(self.node), r.is_some() ==> r->0.wf()» {
        «proof { lemma_kids_wf(self.node); } broadcast use lemma_good;»
        AstChildren::new(self.node().children()).next()
    }
//@end
//@fn lang/fall/syntax/src/ast_ext.rs LexRule::is_contextual
    pub fn is_contextual(&self) -> «(r:» bool «) requires self.wf() ensures r == self.attr(utf8("contextual"@)).is_some()» {
        if let Some(attrs) = self.attributes() {
            return attrs.has_attribute(strlit("contextual"));
        }
        false
    }
//@end
//@fn lang/fall/syntax/src/ast_ext.rs LexRule::is_skip
    pub fn is_skip(&self) -> «(r:» bool «) requires self.wf() ensures r == self.attr(utf8("skip"@)).is_some()» {
        if let Some(attrs) = self.attributes() {
            return attrs.has_attribute(strlit("skip"));
        }
        false
    }
//@end
//@fn lang/fall/syntax/src/ast_ext.rs LexRule::token_text
    pub fn token_text(&self) -> «(r:» Option<Text<'f>> «) requires self.wf(), full(self.node.0.file) ensures tv(r) == self.text_spec(), tgood(r)» {
        «proof { lemma_first_ty(self.node, STRING); }»
        let raw = match self.re() {
            Some(raw) => raw,
            None => return None,
        };
        if raw.starts_with(strlit("r")) {
            None
        } else {
            Some(lit_body(raw))
        }
    }
//@end
}
impl<'f> SynRule<'f> {
    pub open spec fn body_spec(self) -> Expr<'f> { kids_of::<Expr>(self.node)[0] }
//@fn lang/fall/syntax/src/ast_ext.rs SynRule::is_replaceable
    pub fn is_replaceable(&self) -> «(r:» bool «) requires self.wf() ensures r == self.attr(utf8("replaceable"@)).is_some()» {
        self.has_attribute(strlit("replaceable"))
    }
//@end
//@fn lang/fall/syntax/src/ast_ext.rs SynRule::is_replaces
    pub fn is_replaces(&self) -> «(r:» bool «) requires self.wf() ensures r == self.attr(utf8("replaces"@)).is_some()» {
        self.has_attribute(strlit("replaces"))
    }
//@end
//@fn lang/fall/syntax/src/ast_ext.rs SynRule::is_cached
    pub fn is_cached(&self) -> «(r:» bool «) requires self.wf() ensures r == self.attr(utf8("cached"@)).is_some()» {
        self.has_attribute(strlit("cached"))
    }
//@end
//@fn lang/fall/syntax/src/fall.rs SynRule::body
    pub fn body(&self) -> «(r:» Expr<'f> «) requires self.node.wf(), kids_of::<Expr>(self.node).len() > 0 ensures r == self.body_spec()» {
        «proof { lemma_kids_wf(self.node); }»
        AstChildren::new(self.node().children()).next().unwrap()
    }
//@end
}
impl<'f> BlockExpr<'f> {
//@fn lang/fall/syntax/src/fall.rs BlockExpr::alts
    pub fn alts(&self) -> «(r:» AstChildren<'f, Expr<'f>> «) requires self.node.wf() ensures r.wf(), r.rest() == kids_of::<Expr>(self.node), r.inner.file == self.node.0.file» {
        «proof { lemma_kids_wf(self.node); }»
        AstChildren::new(self.node().children())
    }
//@end
}
impl<'f> SeqExpr<'f> {
//@fn lang/fall/syntax/src/fall.rs SeqExpr::parts
    pub fn parts(&self) -> «(r:» AstChildren<'f, Expr<'f>> «) requires self.node.wf() ensures r.wf(), r.rest() == kids_of::<Expr>(self.node), r.inner.file == self.node.0.file» {
        «proof { lemma_kids_wf(self.node); }»
        AstChildren::new(self.node().children())
    }
//@end
}
impl<'f> OptExpr<'f> {
//@fn lang/fall/syntax/src/fall.rs OptExpr::expr
    pub fn expr(&self) -> «(r:» Expr<'f> «) requires self.node.wf(), kids_of::<Expr>(self.node).len() > 0 ensures r == kids_of::<Expr>(self.node)[0]» {
        «proof { lemma_kids_wf(self.node); }»
        AstChildren::new(self.node().children()).next().unwrap()
    }
//@end
}
impl<'f> RepExpr<'f> {
//@fn lang/fall/syntax/src/fall.rs RepExpr::expr
    pub fn expr(&self) -> «(r:» Expr<'f> «) requires self.node.wf(), kids_of::<Expr>(self.node).len() > 0 ensures r == kids_of::<Expr>(self.node)[0]» {
        «proof { lemma_kids_wf(self.node); }»
        AstChildren::new(self.node().children()).next().unwrap()
    }
//@end
}
/// the first child of a type is a node of the tree, of that type
pub proof fn lemma_first_ty(n: Node, ty: NodeType)
    requires n.wf(), full(n.0.file)
    ensures first_ty(n, ty).is_some() ==> (first_ty(n, ty)->0).wf() && (first_ty(n, ty)->0).d().ty == ty && full_node(first_ty(n, ty)->0)
{
    lemma_kids_below(n.t(), n.i());
    lemma_first_ty_from(n, ty, 0);
}
pub proof fn lemma_first_ty_from(n: Node, ty: NodeType, k: int)
    requires n.wf(), full(n.0.file), 0 <= k, forall|k: int| 0 <= k < n.d().kids.len() ==> n.i() < #[trigger] n.d().kids[k] < n.t().len()
    ensures kid_from(n, ty, k).is_some() ==> (kid_from(n, ty, k)->0).wf() && (kid_from(n, ty, k)->0).d().ty == ty && full_node(kid_from(n, ty, k)->0)
    decreases n.d().kids.len() - k
{
    if k < n.d().kids.len() {
        if n.t()[n.d().kids[k]].ty == ty { lemma_full(at(n, n.d().kids[k])); } else { lemma_first_ty_from(n, ty, k + 1); }
    }
}
/// the expressions below a node are nodes of the tree that come later
pub proof fn lemma_exprs<'f>(file: FallFile<'f>, n: Node<'f>)
    requires whole(file), n.wf(), n.0.file == file.node.0.file
    ensures forall|k: int| 0 <= k < kids_of::<Expr>(n).len() ==> of_file(file, #[trigger] kids_of::<Expr>(n)[k]) && kids_of::<Expr>(n)[k].node_spec().i() > n.i()
{
    reveal(whole);
    reveal(of_file);
    lemma_kids_below(n.t(), n.i());
    lemma_exprs_from(file, n, 0);
}
pub proof fn lemma_exprs_from<'f>(file: FallFile<'f>, n: Node<'f>, k: int)
    requires whole(file), n.wf(), n.0.file == file.node.0.file, 0 <= k, forall|k: int| 0 <= k < n.d().kids.len() ==> n.i() < #[trigger] n.d().kids[k] < n.t().len()
    ensures forall|j: int| 0 <= j < typed::<Expr>(n.0.file, n.d().kids, k).len() ==>
        of_file(file, #[trigger] typed::<Expr>(n.0.file, n.d().kids, k)[j]) && typed::<Expr>(n.0.file, n.d().kids, k)[j].node_spec().i() > n.i()
    decreases n.d().kids.len() - k
{
    reveal(whole);
    reveal(of_file);
    if k < n.d().kids.len() {
        lemma_exprs_from(file, n, k + 1);
        let r = typed::<Expr>(n.0.file, n.d().kids, k);
        let x = Expr::wrap_spec(at(n, n.d().kids[k]));
        if x.is_some() {
            let rest = typed::<Expr>(n.0.file, n.d().kids, k + 1);
            assert(r == seq![x->0] + rest);
            assert(x->0.node_spec() == at(n, n.d().kids[k]));
            assert forall|j: int| 0 <= j < r.len() implies of_file(file, #[trigger] r[j]) && r[j].node_spec().i() > n.i() by { if j > 0 { assert(r[j] == rest[j - 1]); } }
        }
    }
}
/// a rule of the tree is a rule of the file
pub proof fn lemma_rule_in<'f>(file: FallFile<'f>, r: SynRule<'f>)
    requires whole(file), of_file(file, r)
    ensures rules(file).contains(r)
{
    reveal(whole);
    reveal(of_file);
    let n = file.node;
    lemma_full(r.node);
    lemma_kid_of_parent(n.t(), r.node.i());
    let k = kid_no(n.t(), r.node.i());
    assert(in_kids(n.t(), 0, k));
    assert(at(n, n.d().kids[k]) == r.node);
    lemma_typed_has(n, 0, k, r);
}
pub proof fn lemma_typed_has<'f, A: AstNode<'f>>(n: Node<'f>, k: int, j: int, a: A)
    requires n.wf(), 0 <= k <= j < n.d().kids.len(), A::wrap_spec(at(n, n.d().kids[j])) == Some(a)
    ensures typed::<A>(n.0.file, n.d().kids, k).contains(a)
    decreases j - k
{
    let r = typed::<A>(n.0.file, n.d().kids, k);
    let rest = typed::<A>(n.0.file, n.d().kids, k + 1);
    let x = A::wrap_spec(at(n, n.d().kids[k]));
    if k < j {
        lemma_typed_has(n, k + 1, j, a);
        let i = choose|i: int| 0 <= i < rest.len() && rest[i] == a;
        if x.is_some() { assert(r == seq![x->0] + rest); assert(r[i + 1] == a); }
    } else {
        assert(r == seq![a] + rest);
        assert(r[0] == a);
    }
}

// ---- C21: numbers of types, rules and parameters ------------------------------------------------
/// the types of nodes: of tokens, and of the public rules that do not name a type
pub open spec fn token_types<'f>(s: Seq<LexRule<'f>>, k: int) -> Seq<(Seq<u8>, bool)>
    decreases k
{
    if k <= 0 { Seq::empty() } else { token_types(s, k - 1).push((ident_text(s[k - 1].node), s[k - 1].attr(utf8("skip"@)).is_some())) }
}
pub open spec fn has_own_type<'f>(r: SynRule<'f>) -> bool { first_ty(r.node, PUB).is_some() && r.attr(utf8("type"@)).is_none() && r.name_spec().is_some() }
pub open spec fn rule_types<'f>(s: Seq<SynRule<'f>>, k: int) -> Seq<(Seq<u8>, bool)>
    decreases k
{
    if k <= 0 { Seq::empty() } else if has_own_type(s[k - 1]) { rule_types(s, k - 1).push((s[k - 1].name_spec()->0, false)) } else { rule_types(s, k - 1) }
}
pub open spec fn types<'f>(file: FallFile<'f>) -> Seq<(Seq<u8>, bool)> {
    token_types(tokens(file), tokens(file).len() as int) + rule_types(rules(file), rules(file).len() as int)
}
pub open spec fn ty_from(s: Seq<(Seq<u8>, bool)>, name: Seq<u8>, k: int) -> Option<int>
    decreases s.len() - k
{
    if !(0 <= k < s.len()) { None } else if s[k].0 == name { Some(k) } else { ty_from(s, name, k + 1) }
}
/// the number of a type of node; 0 is that of errors
pub open spec fn type_no<'f>(file: FallFile<'f>, name: Seq<u8>) -> Option<int> { match ty_from(types(file), name, 0) { Some(i) => Some(i + 1), None => None } }
/// the type of the nodes of a rule
#[verifier::opaque]
pub open spec fn rule_ty<'f>(file: FallFile<'f>, r: SynRule<'f>) -> Option<int> { match r.ty_spec() { Some(name) => type_no(file, name), None => None } }
#[verifier::opaque]
pub open spec fn token_ty<'f>(file: FallFile<'f>, r: LexRule<'f>) -> Option<int> { type_no(file, ident_text(r.node)) }
pub open spec fn same_from<'f, A: AstNode<'f>>(s: Seq<A>, a: A, k: int) -> Option<int>
    decreases s.len() - k
{
    if !(0 <= k < s.len()) { None } else if same_node(s[k].node_spec(), a.node_spec()) { Some(k) } else { same_from(s, a, k + 1) }
}
pub open spec fn rule_no<'f>(file: FallFile<'f>, r: SynRule<'f>) -> Option<int> { same_from(rules(file), r, 0) }
/// the parameters of the rules from the `k`-th on
pub open spec fn params_from<'f>(s: Seq<SynRule<'f>>, k: int) -> Seq<Parameter<'f>>
    decreases s.len() - k
{
    if !(0 <= k < s.len()) { Seq::empty() } else { own_params(s[k]) + params_from(s, k + 1) }
}
pub open spec fn own_params<'f>(r: SynRule<'f>) -> Seq<Parameter<'f>> { if r.params_spec().is_some() { params_of(r) } else { Seq::empty() } }
pub open spec fn param_no<'f>(file: FallFile<'f>, p: Parameter<'f>) -> Option<int> { same_from(params_from(rules(file), 0), p, 0) }

pub proof fn lemma_same<'f, A: AstNode<'f>>(s: Seq<A>, a: A, k: int, j: int)
    requires 0 <= k <= j < s.len(), s[j] == a
    ensures same_from(s, a, k).is_some(), k <= same_from(s, a, k)->0 <= j
    decreases j - k
{
    if k < j && !same_node(s[k].node_spec(), a.node_spec()) { lemma_same(s, a, k + 1, j); }
}
pub proof fn lemma_same_in<'f, A: AstNode<'f>>(s: Seq<A>, a: A)
    requires s.contains(a)
    ensures same_from(s, a, 0).is_some(), 0 <= same_from(s, a, 0)->0 < s.len()
{
    let j = choose|j: int| 0 <= j < s.len() && s[j] == a;
    lemma_same(s, a, 0, j);
}
pub proof fn lemma_params_in<'f>(s: Seq<SynRule<'f>>, k: int, j: int, p: Parameter<'f>)
    requires 0 <= k <= j < s.len(), own_params(s[j]).contains(p)
    ensures params_from(s, k).contains(p)
    decreases j - k
{
    let a = own_params(s[k]);
    let b = params_from(s, k + 1);
    if k < j {
        lemma_params_in(s, k + 1, j, p);
        let i = choose|i: int| 0 <= i < b.len() && b[i] == p;
        assert((a + b)[a.len() + i] == p);
    } else {
        let i = choose|i: int| 0 <= i < a.len() && a[i] == p;
        assert((a + b)[i] == p);
    }
}
pub proof fn lemma_ty_from(s: Seq<(Seq<u8>, bool)>, name: Seq<u8>, k: int, j: int)
    requires 0 <= k <= j < s.len(), s[j].0 == name
    ensures ty_from(s, name, k).is_some()
    decreases j - k
{
    if k < j && s[k].0 != name { lemma_ty_from(s, name, k + 1, j); }
}
pub proof fn lemma_token_types<'f>(s: Seq<LexRule<'f>>, k: int)
    requires 0 <= k <= s.len()
    ensures token_types(s, k).len() == k, forall|j: int| 0 <= j < k ==> (#[trigger] token_types(s, k)[j]).0 == ident_text(s[j].node)
    decreases k
{
    if k > 0 { lemma_token_types(s, k - 1); }
}
pub proof fn lemma_rule_types<'f>(s: Seq<SynRule<'f>>, k: int)
    requires 0 <= k <= s.len()
    ensures rule_types(s, k).len() <= k
    decreases k
{
    if k > 0 { lemma_rule_types(s, k - 1); }
}
pub proof fn lemma_types<'f>(file: FallFile<'f>)
    ensures types(file).len() <= tokens(file).len() + rules(file).len(),
        forall|r: LexRule<'f>| #[trigger] tokens(file).contains(r) ==> token_ty(file, r).is_some(),
{
    reveal(token_ty);
    lemma_token_types(tokens(file), tokens(file).len() as int);
    lemma_rule_types(rules(file), rules(file).len() as int);
    assert forall|r: LexRule<'f>| #[trigger] tokens(file).contains(r) implies token_ty(file, r).is_some() by {
        let j = choose|j: int| 0 <= j < tokens(file).len() && tokens(file)[j] == r;
        assert(types(file)[j].0 == ident_text(r.node));
        lemma_ty_from(types(file), ident_text(r.node), 0, j);
    }
}

// ---- C21: the expression generated for a part of the grammar ------------------------------------
/// where an expression comes from
pub enum Src<'f> {
    /// the rule itself
    Rule(SynRule<'f>),
    /// a part of a rule
    Part(Expr<'f>),
    /// the operators of a rule
    Pratt(BlockExpr<'f>),
    /// the body of a cached rule
    Cached(SynRule<'f>),
}
pub open spec fn n_rules<'f>(file: FallFile<'f>) -> int { rules(file).len() as int }
/// the rule that an expression is a reference to
pub open spec fn ref_rule<'f>(file: FallFile<'f>, e: Expr<'f>) -> Option<SynRule<'f>> {
    match e { Expr::RefExpr(q) => match ref_spec(file, q) { Some(RefKind::RuleReference(rule)) => Some(rule), _ => None }, _ => None }
}
/// expression number `c` (below `r`) is the one for `e`
pub open spec fn for_part<'f>(file: FallFile<'f>, src: Seq<Src<'f>>, e: Expr<'f>, c: dst::ExprRef, r: int) -> bool {
    match ref_rule(file, e) {
        Some(rule) => for_rule(file, rule, c),
        None => n_rules(file) <= c.0 < r && c.0 < src.len() && src[c.0 as int] == Src::Part(e),
    }
}
pub open spec fn for_parts<'f>(file: FallFile<'f>, src: Seq<Src<'f>>, es: Seq<Expr<'f>>, cs: Seq<dst::ExprRef>, r: int) -> bool {
    cs.len() == es.len() && forall|i: int| 0 <= i < cs.len() ==> for_part(file, src, es[i], #[trigger] cs[i], r)
}
pub open spec fn is_commit<'f>(e: Expr<'f>) -> bool { match e { Expr::CallExpr(c) => c.name_spec() == utf8("commit"@), _ => false } }
/// the parts among the first `k` that are not commits
pub open spec fn proper<'f>(s: Seq<Expr<'f>>, k: int) -> Seq<Expr<'f>>
    decreases k
{
    if k <= 0 { Seq::empty() } else if is_commit(s[k - 1]) { proper(s, k - 1) } else { proper(s, k - 1).push(s[k - 1]) }
}
/// where the first commit is
pub open spec fn commit_from<'f>(s: Seq<Expr<'f>>, k: int) -> Option<int>
    decreases s.len() - k
{
    if !(0 <= k < s.len()) { None } else if is_commit(s[k]) { Some(k) } else { commit_from(s, k + 1) }
}
pub open spec fn opt_int(x: Option<usize>) -> Option<int> { match x { Some(i) => Some(i as int), None => None } }
/// `x` is the expression for `e`
pub open spec fn means<'f>(file: FallFile<'f>, src: Seq<Src<'f>>, e: Expr<'f>, x: dst::Expr, r: int) -> bool {
    match e {
        Expr::BlockExpr(b) => x matches dst::Expr::Or(v) && for_parts(file, src, kids_of::<Expr>(b.node), v@, r),
        Expr::SeqExpr(s) => {
            let parts = kids_of::<Expr>(s.node);
            x matches dst::Expr::And(v, commit) && for_parts(file, src, proper(parts, parts.len() as int), v@, r) && opt_int(commit) == commit_from(parts, 0)
        }
        Expr::OptExpr(o) => x matches dst::Expr::Opt(y) && for_part(file, src, kids_of::<Expr>(o.node)[0], y, r),
        Expr::RepExpr(o) => x matches dst::Expr::Rep(y) && for_part(file, src, kids_of::<Expr>(o.node)[0], y, r),
        Expr::RefExpr(q) => match ref_spec(file, q) {
            Some(RefKind::Token(t)) =>
                if t.attr(utf8("contextual"@)).is_some() { x matches dst::Expr::ContextualToken(ty, s) && token_ty(file, t) == Some(ty.0 as int) && t.text_spec() == Some(s@) }
                else { x matches dst::Expr::Token(ty) && token_ty(file, t) == Some(ty.0 as int) },
            Some(RefKind::Param(p)) => x matches dst::Expr::Var(a) && for_param(file, p, a),
            _ => false,
        },
        Expr::CallExpr(c) => exists|k: CallKind<'f>| call_is(file, c, Some(k)) && #[trigger] call_means(file, src, k, x, r),
    }
}
#[verifier::opaque]
pub open spec fn for_param<'f>(file: FallFile<'f>, p: Parameter<'f>, a: dst::Arg) -> bool { param_no(file, p) == Some(a.0 as int) && a.0 < 16 }
#[verifier::opaque]
pub open spec fn for_type<'f>(file: FallFile<'f>, rule: SynRule<'f>, t: dst::NodeTypeRef) -> bool { rule_ty(file, rule) == Some(t.0 as int) }
pub open spec fn call_means<'f>(file: FallFile<'f>, src: Seq<Src<'f>>, k: CallKind<'f>, x: dst::Expr, r: int) -> bool {
    match k {
        CallKind::Eof => x is Eof,
        CallKind::Any => x is Any,
        CallKind::Enter(i, e) => x matches dst::Expr::Enter(c, y) && c.0 == i && i < 16 && for_part(file, src, e, y, r),
        CallKind::Exit(i, e) => x matches dst::Expr::Exit(c, y) && c.0 == i && i < 16 && for_part(file, src, e, y, r),
        CallKind::IsIn(i) => x matches dst::Expr::IsIn(c) && c.0 == i && i < 16,
        CallKind::Not(e) => x matches dst::Expr::Not(y) && for_part(file, src, e, y, r),
        CallKind::Layer(a, b) => x matches dst::Expr::Layer(y, z) && for_part(file, src, a, y, r) && for_part(file, src, b, z, r),
        CallKind::WithSkip(a, b) => x matches dst::Expr::WithSkip(y, z) && for_part(file, src, a, y, r) && for_part(file, src, b, z, r),
        CallKind::Inject(a, b) => x matches dst::Expr::Inject(y, z) && for_part(file, src, a, y, r) && for_part(file, src, b, z, r),
        CallKind::RuleCall(rule, args) => x matches dst::Expr::Call(y, v) && for_rule(file, rule, y) && for_args(file, src, args@, v@, r),
        CallKind::PrevIs(ts) => x matches dst::Expr::PrevIs(v) && v@.len() == ts@.len() && forall|i: int| 0 <= i < v@.len() ==> for_type(file, ts@[i], #[trigger] v@[i]),
        CallKind::Commit => false,
    }
}
pub open spec fn for_arg<'f>(file: FallFile<'f>, src: Seq<Src<'f>>, a: (Parameter<'f>, Expr<'f>), v: (dst::Arg, dst::ExprRef), r: int) -> bool {
    for_param(file, a.0, v.0) && for_part(file, src, a.1, v.1, r)
}
pub open spec fn for_args<'f>(file: FallFile<'f>, src: Seq<Src<'f>>, args: Seq<(Parameter<'f>, Expr<'f>)>, v: Seq<(dst::Arg, dst::ExprRef)>, r: int) -> bool {
    v.len() == args.len() && forall|i: int| 0 <= i < v.len() ==> for_arg(file, src, args[i], #[trigger] v[i], r)
}

// ---- C21: operators -----------------------------------------------------------------------------
//@item lang/fall/src/analysis/query/mod.rs enum:PratVariant
«#[derive(Clone, Copy)]»
pub enum PratVariant<'f> {
    Atom(Expr<'f>),
    Bin(PrattOp<'f>),
    Postfix(PrattOp<'f>),
    Prefix(PrattOp<'f>),
}
//@end
//@item lang/fall/src/analysis/query/mod.rs struct:PrattOp
«#[derive(Clone, Copy)]»
pub struct PrattOp<'f> { pub op: Expr<'f>, pub priority: u32 }
//@end
pub uninterp spec fn pratt_spec<'f>(r: SynRule<'f>) -> Option<PratVariant<'f>>;
impl<'f> Analysis<'f> {
    #[verifier::external_body]
    pub fn resolve_pratt_variant(&self, rule: SynRule<'f>) -> (r: Option<PratVariant<'f>>) requires self.wf(), rule.wf(), rule.node.0.file == self.file.node.0.file
        ensures r == pratt_spec(rule), match r { Some(PratVariant::Postfix(o)) => of_file(self.file, o.op), Some(PratVariant::Prefix(o)) => of_file(self.file, o.op), Some(PratVariant::Bin(o)) => of_file(self.file, o.op), _ => true }
    { unimplemented!() }
}
/// the rule that an alternative of a rule with operators consists of
pub open spec fn alt_rule<'f>(file: FallFile<'f>, e: Expr<'f>) -> Option<SynRule<'f>> {
    match e { Expr::SeqExpr(s) => match first_kid::<Expr>(s.node) { Some(p) => ref_rule(file, p), None => None }, _ => None }
}
/// a prefix or infix operator
pub struct Op<'f> { pub rule: SynRule<'f>, pub op: Expr<'f>, pub priority: u32, pub has_rhs: bool }
pub open spec fn atoms<'f>(file: FallFile<'f>, alts: Seq<Expr<'f>>, k: int) -> Seq<SynRule<'f>>
    decreases k
{
    if k <= 0 { Seq::empty() } else { match pratt_spec(alt_rule(file, alts[k - 1])->0) {
        Some(PratVariant::Atom(_)) => atoms(file, alts, k - 1).push(alt_rule(file, alts[k - 1])->0),
        _ => atoms(file, alts, k - 1),
    } }
}
pub open spec fn prefixes<'f>(file: FallFile<'f>, alts: Seq<Expr<'f>>, k: int) -> Seq<Op<'f>>
    decreases k
{
    if k <= 0 { Seq::empty() } else { match pratt_spec(alt_rule(file, alts[k - 1])->0) {
        Some(PratVariant::Prefix(o)) => prefixes(file, alts, k - 1).push(Op { rule: alt_rule(file, alts[k - 1])->0, op: o.op, priority: o.priority, has_rhs: true }),
        _ => prefixes(file, alts, k - 1),
    } }
}
pub open spec fn infixes<'f>(file: FallFile<'f>, alts: Seq<Expr<'f>>, k: int) -> Seq<Op<'f>>
    decreases k
{
    if k <= 0 { Seq::empty() } else { match pratt_spec(alt_rule(file, alts[k - 1])->0) {
        Some(PratVariant::Postfix(o)) => infixes(file, alts, k - 1).push(Op { rule: alt_rule(file, alts[k - 1])->0, op: o.op, priority: o.priority, has_rhs: false }),
        Some(PratVariant::Bin(o)) => infixes(file, alts, k - 1).push(Op { rule: alt_rule(file, alts[k - 1])->0, op: o.op, priority: o.priority, has_rhs: true }),
        _ => infixes(file, alts, k - 1),
    } }
}
#[verifier::opaque]
pub open spec fn for_rule<'f>(file: FallFile<'f>, rule: SynRule<'f>, c: dst::ExprRef) -> bool { rule_no(file, rule) == Some(c.0 as int) && c.0 < n_rules(file) }
pub open spec fn for_prefix<'f>(file: FallFile<'f>, src: Seq<Src<'f>>, o: Op<'f>, p: dst::Prefix, r: int) -> bool {
    for_type(file, o.rule, p.ty) && for_part(file, src, o.op, p.op, r) && p.priority == o.priority
}
pub open spec fn for_infix<'f>(file: FallFile<'f>, src: Seq<Src<'f>>, o: Op<'f>, p: dst::Infix, r: int) -> bool {
    for_type(file, o.rule, p.ty) && for_part(file, src, o.op, p.op, r) && p.priority == o.priority && p.has_rhs == o.has_rhs
}
/// the table has the operators of the first `k` alternatives
pub open spec fn pratt_means<'f>(file: FallFile<'f>, src: Seq<Src<'f>>, alts: Seq<Expr<'f>>, k: int, t: dst::PrattTable, r: int) -> bool {
    let (a, p, i) = (atoms(file, alts, k), prefixes(file, alts, k), infixes(file, alts, k));
    &&& t.atoms@.len() == a.len() && forall|j: int| 0 <= j < a.len() ==> for_rule(file, a[j], #[trigger] t.atoms@[j])
    &&& t.prefixes@.len() == p.len() && forall|j: int| 0 <= j < p.len() ==> for_prefix(file, src, p[j], #[trigger] t.prefixes@[j], r)
    &&& t.infixes@.len() == i.len() && forall|j: int| 0 <= j < i.len() ==> for_infix(file, src, i[j], #[trigger] t.infixes@[j], r)
}

// ---- C21: rules ----------------------------------------------------------------------------------
/// expression number `c` is the one for the body of the rule
pub open spec fn for_body<'f>(file: FallFile<'f>, src: Seq<Src<'f>>, rule: SynRule<'f>, c: dst::ExprRef, r: int) -> bool {
    if rule.attr(utf8("pratt"@)).is_some() { n_rules(file) <= c.0 < r && c.0 < src.len() && src[c.0 as int] == Src::Pratt(rule.body_spec()->BlockExpr_0) }
    else { for_part(file, src, rule.body_spec(), c, r) }
}
pub open spec fn rule_means<'f>(file: FallFile<'f>, src: Seq<Src<'f>>, rule: SynRule<'f>, x: dst::Expr, r: int) -> bool {
    let cached = rule.attr(utf8("cached"@)).is_some();
    if rule.ty_spec().is_some() {
        if rule.attr(utf8("replaces"@)).is_some() { x matches dst::Expr::PubReplace { ty, body } && for_type(file, rule, ty) && for_body(file, src, rule, body, r) }
        else {
            x matches dst::Expr::Pub { ty, body, replaceable } && for_type(file, rule, ty) && replaceable == rule.attr(utf8("replaceable"@)).is_some()
            && if cached { n_rules(file) <= body.0 < r && body.0 < src.len() && src[body.0 as int] == Src::Cached(rule) } else { for_body(file, src, rule, body, r) }
        }
    }
    else if rule.attr(utf8("replaces"@)).is_some() { false }
    else if cached { x matches dst::Expr::Cached(body) && for_body(file, src, rule, body, r) }
    else if rule.attr(utf8("pratt"@)).is_some() { x matches dst::Expr::Pratt(t) && pratt_of(file, src, rule.body_spec()->BlockExpr_0, *t, r) }
    else { means(file, src, rule.body_spec(), x, r) }
}
pub open spec fn pratt_of<'f>(file: FallFile<'f>, src: Seq<Src<'f>>, b: BlockExpr<'f>, t: dst::PrattTable, r: int) -> bool {
    pratt_means(file, src, kids_of::<Expr>(b.node), kids_of::<Expr>(b.node).len() as int, t, r)
}
/// `x` is the expression for what it comes from; parts of it have numbers below `r`
pub open spec fn stands<'f>(file: FallFile<'f>, src: Seq<Src<'f>>, s: Src<'f>, x: dst::Expr, r: int) -> bool {
    match s {
        Src::Rule(rule) => rule_means(file, src, rule, x, r),
        Src::Part(e) => means(file, src, e, x, r),
        Src::Pratt(b) => x matches dst::Expr::Pratt(t) && pratt_of(file, src, b, *t, r),
        Src::Cached(rule) => x matches dst::Expr::Cached(body) && for_body(file, src, rule, body, r),
    }
}
pub open spec fn prefix<A>(a: Seq<A>, b: Seq<A>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub open spec fn agree<A>(a: Seq<A>, b: Seq<A>, n: int) -> bool { n <= a.len() && n <= b.len() && forall|i: int| 0 <= i < n ==> #[trigger] b[i] == a[i] }
/// what an expression stands for depends only on the expressions before it
pub proof fn lemma_more<'f>(file: FallFile<'f>, s1: Seq<Src<'f>>, s2: Seq<Src<'f>>, s: Src<'f>, x: dst::Expr, r1: int, r2: int)
    requires stands(file, s1, s, x, r1), agree(s1, s2, r1), r1 <= r2
    ensures stands(file, s2, s, x, r2)
{
    if s is Part || s is Rule {
        let e = if s is Part { s->Part_0 } else { s->Rule_0.body_spec() };
        if means(file, s1, e, x, r1) { lemma_more_part(file, s1, s2, e, x, r1, r2); }
    }
}
pub proof fn lemma_more_part<'f>(file: FallFile<'f>, s1: Seq<Src<'f>>, s2: Seq<Src<'f>>, e: Expr<'f>, x: dst::Expr, r1: int, r2: int)
    requires means(file, s1, e, x, r1), agree(s1, s2, r1), r1 <= r2
    ensures means(file, s2, e, x, r2)
{
    if let Expr::CallExpr(c) = e {
        let k = choose|k: CallKind<'f>| call_is(file, c, Some(k)) && #[trigger] call_means(file, s1, k, x, r1);
        assert(call_means(file, s2, k, x, r2));
    }
}

// ---- C21: what is reported ------------------------------------------------------------------------
pub open spec fn kind_part<'f>(k: CallKind<'f>, x: Expr<'f>) -> bool {
    match k {
        CallKind::Enter(_, y) => x == y,
        CallKind::Exit(_, y) => x == y,
        CallKind::Not(y) => x == y,
        CallKind::Layer(a, b) => x == a || x == b,
        CallKind::WithSkip(a, b) => x == a || x == b,
        CallKind::Inject(a, b) => x == a || x == b,
        CallKind::RuleCall(_, v) => exists|j: int| 0 <= j < v@.len() && (#[trigger] v@[j]).1 == x,
        _ => false,
    }
}
pub open spec fn kind_fails<'f>(file: FallFile<'f>, k: CallKind<'f>) -> bool {
    match k {
        CallKind::Commit => true,
        CallKind::Enter(i, _) => i >= 16,
        CallKind::Exit(i, _) => i >= 16,
        CallKind::IsIn(i) => i >= 16,
        CallKind::RuleCall(_, v) => exists|j: int| 0 <= j < v@.len() && param_fails(file, (#[trigger] v@[j]).0),
        CallKind::PrevIs(ts) => exists|j: int| 0 <= j < ts@.len() && rule_ty(file, #[trigger] ts@[j]).is_none(),
        _ => false,
    }
}
#[verifier::opaque]
pub open spec fn param_fails<'f>(file: FallFile<'f>, p: Parameter<'f>) -> bool { match param_no(file, p) { Some(i) => i >= 16, None => false } }
/// `x` is generated for `e`
pub open spec fn is_part<'f>(file: FallFile<'f>, e: Expr<'f>, x: Expr<'f>) -> bool {
    match e {
        Expr::RefExpr(_) => false,
        Expr::CallExpr(c) => exists|k: CallKind<'f>| call_is(file, c, Some(k)) && #[trigger] kind_part(k, x),
        Expr::SeqExpr(_) => kids_of::<Expr>(e.node_spec()).contains(x) && !is_commit(x),
        Expr::BlockExpr(_) => kids_of::<Expr>(e.node_spec()).contains(x),
        _ => kids_of::<Expr>(e.node_spec())[0] == x,
    }
}
/// no expression can be generated for `e`, whatever it consists of
pub open spec fn fails_itself<'f>(file: FallFile<'f>, e: Expr<'f>) -> bool {
    match e {
        Expr::RefExpr(q) => match ref_spec(file, q) {
            Some(RefKind::Token(t)) => t.attr(utf8("contextual"@)).is_some() && t.text_spec().is_none(),
            Some(RefKind::Param(p)) => param_fails(file, p),
            Some(_) => false,
            None => true,
        },
        Expr::CallExpr(c) => call_is(file, c, None) || exists|k: CallKind<'f>| call_is(file, c, Some(k)) && #[trigger] kind_fails(file, k),
        _ => false,
    }
}
/// `e` or a part of it cannot be generated
pub open spec fn fails<'f>(file: FallFile<'f>, e: Expr<'f>) -> bool
    decreases size(e)
{
    fails_itself(file, e) || exists|x: Expr<'f>| #[trigger] is_part(file, e, x) && 0 <= size(x) < size(e) && fails(file, x)
}
pub proof fn lemma_fails_all<'f>(file: FallFile<'f>, e: Expr<'f>)
    ensures fails_itself(file, e) ==> fails(file, e),
        forall|x: Expr<'f>| #[trigger] is_part(file, e, x) && 0 <= size(x) < size(e) && fails(file, x) ==> fails(file, e)
{}
pub proof fn lemma_fails<'f>(file: FallFile<'f>, e: Expr<'f>, x: Expr<'f>)
    requires is_part(file, e, x), 0 <= size(x) < size(e), fails(file, x)
    ensures fails(file, e)
{}
pub proof fn lemma_fails_call<'f>(file: FallFile<'f>, c: CallExpr<'f>, k: CallKind<'f>, x: Expr<'f>)
    requires call_is(file, c, Some(k)), kind_part(k, x), 0 <= size(x) < size(Expr::CallExpr(c)), fails(file, x)
    ensures fails(file, Expr::CallExpr(c))
{
    lemma_fails(file, Expr::CallExpr(c), x);
}
/// an alternative of a rule with operators cannot be generated
pub open spec fn alt_fails<'f>(file: FallFile<'f>, e: Expr<'f>) -> bool {
    match alt_rule(file, e) {
        None => true,
        Some(rule) => rule_ty(file, rule).is_none() || match pratt_spec(rule) {
            None => true,
            Some(PratVariant::Atom(_)) => false,
            Some(PratVariant::Postfix(o)) => fails(file, o.op),
            Some(PratVariant::Prefix(o)) => fails(file, o.op),
            Some(PratVariant::Bin(o)) => fails(file, o.op),
        },
    }
}
pub open spec fn alts_fail<'f>(file: FallFile<'f>, b: BlockExpr<'f>) -> bool {
    exists|k: int| 0 <= k < kids_of::<Expr>(b.node).len() && alt_fails(file, #[trigger] kids_of::<Expr>(b.node)[k])
}
pub open spec fn rule_fails<'f>(file: FallFile<'f>, rule: SynRule<'f>) -> bool {
    ||| rule.attr(utf8("pratt"@)).is_none() && fails(file, rule.body_spec())
    ||| rule.attr(utf8("pratt"@)).is_some() && alts_fail(file, rule.body_spec()->BlockExpr_0)
    ||| rule.ty_spec().is_some() && rule_ty(file, rule).is_none()
    ||| rule.ty_spec().is_none() && rule.attr(utf8("replaces"@)).is_some()
}

// ---- C21: what references and calls resolve to is in the file --------------------------------------
pub proof fn lemma_syn_in<'f>(s: Seq<SynRule<'f>>, name: Seq<u8>, k: int)
    ensures syn_from(s, name, k).is_some() ==> s.contains(syn_from(s, name, k)->0)
    decreases s.len() - k
{
    if 0 <= k < s.len() && s[k].name_spec() != Some(name) { lemma_syn_in(s, name, k + 1); }
}
pub proof fn lemma_lex_in<'f>(s: Seq<LexRule<'f>>, name: Seq<u8>, k: int)
    requires k <= s.len()
    ensures lex_upto(s, name, k).is_some() ==> s.contains(lex_upto(s, name, k)->0)
    decreases k
{
    if k > 0 && s[k - 1].token() != name { lemma_lex_in(s, name, k - 1); }
}
pub proof fn lemma_param_in<'f>(s: Seq<Parameter<'f>>, name: Seq<u8>, k: int)
    ensures param_from(s, name, k).is_some() ==> s.contains(param_from(s, name, k)->0)
    decreases s.len() - k
{
    if 0 <= k < s.len() && ident_text(s[k].node) != name { lemma_param_in(s, name, k + 1); }
}
#[verifier::opaque]
pub open spec fn is_param<'f>(file: FallFile<'f>, p: Parameter<'f>) -> bool { params_from(rules(file), 0).contains(p) }
pub proof fn lemma_nearest_in(n: Node, i: int)
    requires n.wf(), shape(n.0.file), 0 <= i < n.t().len()
    ensures nearest::<SynRule>(n, i).is_some() ==> nearest::<SynRule>(n, i)->0.wf() && nearest::<SynRule>(n, i)->0.node.0.file == n.0.file && nearest::<SynRule>(n, i)->0.node.d().ty == SYN_RULE
    decreases i
{
    lemma_good(at(n, i));
    if n.t()[i].ty != SYN_RULE && n.t()[i].parent.is_some() && 0 <= n.t()[i].parent->0 < i { lemma_nearest_in(n, n.t()[i].parent->0); }
}
pub proof fn lemma_params_wf<'f>(file: FallFile<'f>, k: int)
    requires whole(file), 0 <= k
    ensures forall|j: int| 0 <= j < params_from(rules(file), k).len() ==> (#[trigger] params_from(rules(file), k)[j]).wf() && params_from(rules(file), k)[j].node.0.file == file.node.0.file
    decreases rules(file).len() - k
{
    reveal(whole);
    broadcast use lemma_good;
    let s = rules(file);
    lemma_syn_rules(file);
    if k < s.len() {
        lemma_params_wf(file, k + 1);
        let a = own_params(s[k]);
        let b = params_from(s, k + 1);
        if s[k].params_spec().is_some() {
            let ps = s[k].params_spec()->0;
            assert(s[k].wf());
            lemma_kids_ty::<Parameters>(s[k].node);
            assert(is_kid(s[k].node, ps));
            lemma_kids_ty::<Parameter>(ps.node);
        }
        assert forall|j: int| 0 <= j < (a + b).len() implies (#[trigger] (a + b)[j]).wf() && (a + b)[j].node.0.file == file.node.0.file by {
            if j < a.len() { assert(is_kid(s[k].params_spec()->0.node, a[j])); } else { assert((a + b)[j] == b[j - a.len()]); }
        }
    }
}
pub proof fn lemma_own_param<'f>(file: FallFile<'f>, rule: SynRule<'f>, p: Parameter<'f>)
    requires rules(file).contains(rule), own_params(rule).contains(p)
    ensures is_param(file, p)
{
    reveal(is_param);
    let j = choose|j: int| 0 <= j < rules(file).len() && rules(file)[j] == rule;
    lemma_params_in(rules(file), 0, j, p);
}
pub proof fn lemma_ref_in<'f>(file: FallFile<'f>, q: RefExpr<'f>)
    requires whole(file), q.wf(), q.node.0.file == file.node.0.file
    ensures match ref_spec(file, q) {
        Some(RefKind::Token(t)) => tokens(file).contains(t),
        Some(RefKind::RuleReference(rule)) => rules(file).contains(rule),
        Some(RefKind::Param(p)) => is_param(file, p),
        None => true,
    }
{
    reveal(whole);
    reveal(of_file);
    reveal(ref_spec);
    let name = q.name_spec();
    lemma_syn_in(rules(file), name, 0);
    lemma_lex_in(tokens(file), name, tokens(file).len() as int);
    if param_of(q, name).is_some() {
        lemma_nearest_in(q.node, q.node.i());
        let rule = nearest::<SynRule>(q.node, q.node.i())->0;
        lemma_rule_in(file, rule);
        lemma_param_in(params_of(rule), name, 0);
        lemma_own_param(file, rule, param_of(q, name)->0);
    }
}
/// `y` is a part of `e` of the file that is generated for it
pub open spec fn sub_of<'f>(file: FallFile<'f>, e: Expr<'f>, y: Expr<'f>) -> bool { of_file(file, y) && 0 <= size(y) < size(e) && is_part(file, e, y) }
pub open spec fn call_in<'f>(file: FallFile<'f>, e: Expr<'f>, k: CallKind<'f>) -> bool {
    match k {
        CallKind::Enter(_, y) => sub_of(file, e, y),
        CallKind::Exit(_, y) => sub_of(file, e, y),
        CallKind::Not(y) => sub_of(file, e, y),
        CallKind::Layer(a, b) => sub_of(file, e, a) && sub_of(file, e, b),
        CallKind::WithSkip(a, b) => sub_of(file, e, a) && sub_of(file, e, b),
        CallKind::Inject(a, b) => sub_of(file, e, a) && sub_of(file, e, b),
        CallKind::RuleCall(rule, v) => rules(file).contains(rule) && forall|j: int| 0 <= j < v@.len() ==> is_param(file, (#[trigger] v@[j]).0) && sub_of(file, e, v@[j].1),
        CallKind::PrevIs(ts) => forall|j: int| 0 <= j < ts@.len() ==> (#[trigger] ts@[j]).wf() && ts@[j].node.0.file == file.node.0.file,
        _ => true,
    }
}
pub proof fn lemma_prev_in<'f>(file: FallFile<'f>, s: Seq<Expr<'f>>, k: int)
    requires whole(file), 0 <= k <= s.len(), forall|j: int| 0 <= j < s.len() ==> of_file(file, #[trigger] s[j])
    ensures forall|j: int| 0 <= j < prev_rules(file, s, k).len() ==> (#[trigger] prev_rules(file, s, k)[j]).wf() && prev_rules(file, s, k)[j].node.0.file == file.node.0.file
    decreases k
{
    reveal(whole);
    reveal(of_file);
    broadcast use lemma_good;
    if k > 0 {
        lemma_prev_in(file, s, k - 1);
        if let Expr::RefExpr(q) = s[k - 1] {
            assert(of_file(file, s[k - 1]));
            lemma_good(q.node);
            lemma_ref_in(file, q);
            lemma_syn_rules(file);
        }
    }
}
pub proof fn lemma_call_in<'f>(file: FallFile<'f>, c: CallExpr<'f>, k: CallKind<'f>)
    requires whole(file), of_file(file, Expr::CallExpr(c)), call_is(file, c, Some(k))
    ensures call_in(file, Expr::CallExpr(c), k)
{
    reveal(whole);
    reveal(of_file);
    reveal(call_is);
    let e = Expr::CallExpr(c);
    let a = c.args_spec();
    lemma_exprs(file, c.node);
    assert forall|y: Expr<'f>| #[trigger] kind_part(k, y) && a.contains(y) implies sub_of(file, e, y) by {
        let j = choose|j: int| 0 <= j < a.len() && a[j] == y;
        assert(of_file(file, a[j]));
    }
    match k {
        CallKind::Enter(_, y) => { assert(a[1] == y); assert(kind_part(k, y)); },
        CallKind::Exit(_, y) => { assert(a[1] == y); assert(kind_part(k, y)); },
        CallKind::Not(y) => { assert(a[0] == y); assert(kind_part(k, y)); },
        CallKind::Layer(x, y) => { assert(a[0] == x && a[1] == y); assert(kind_part(k, x) && kind_part(k, y)); },
        CallKind::WithSkip(x, y) => { assert(a[0] == x && a[1] == y); assert(kind_part(k, x) && kind_part(k, y)); },
        CallKind::Inject(x, y) => { assert(a[0] == x && a[1] == y); assert(kind_part(k, x) && kind_part(k, y)); },
        CallKind::RuleCall(rule, v) => {
            lemma_syn_in(rules(file), c.name_spec(), 0);
            assert forall|j: int| 0 <= j < v@.len() implies is_param(file, (#[trigger] v@[j]).0) && sub_of(file, e, v@[j].1) by {
                assert(v@[j] == (params_of(rule)[j], a[j]));
                assert(own_params(rule)[j] == v@[j].0);
                lemma_own_param(file, rule, v@[j].0);
                assert(a.contains(v@[j].1));
                assert(kind_part(k, v@[j].1));
            }
        },
        CallKind::PrevIs(ts) => { lemma_prev_in(file, a, a.len() as int); },
        _ => {},
    }
}
pub proof fn lemma_kid_sub<'f>(file: FallFile<'f>, e: Expr<'f>)
    requires whole(file), of_file(file, e)
    ensures forall|k: int| 0 <= k < kids_of::<Expr>(e.node_spec()).len() ==> of_file(file, #[trigger] kids_of::<Expr>(e.node_spec())[k]) && 0 <= size(kids_of::<Expr>(e.node_spec())[k]) < size(e)
{
    reveal(whole);
    reveal(of_file);
    lemma_exprs(file, e.node_spec());
}
pub proof fn lemma_rest_small<'f>(it: AstChildren<'f, Expr<'f>>)
    requires it.wf()
    ensures it.rest().len() <= usize::MAX
{
    lemma_rest_len(it);
    assert(vstd::slice::spec_slice_len(it.inner.inner.s) == it.inner.inner.s@.len());
}
/// what is needed to look at `e`
pub proof fn lemma_here<'f>(file: FallFile<'f>, e: Expr<'f>)
    requires whole(file), of_file(file, e)
    ensures match e {
        Expr::RefExpr(q) => q.wf() && q.node.0.file == file.node.0.file,
        Expr::CallExpr(c) => c.wf() && c.node.0.file == file.node.0.file,
        Expr::BlockExpr(b) => b.node.wf(),
        Expr::SeqExpr(b) => b.node.wf(),
        Expr::OptExpr(b) => b.node.wf() && kids_of::<Expr>(b.node).len() > 0,
        Expr::RepExpr(b) => b.node.wf() && kids_of::<Expr>(b.node).len() > 0,
    }
{
    reveal(whole);
    reveal(of_file);
    lemma_good(e.node_spec());
    lemma_full(e.node_spec());
}
pub proof fn lemma_tokens_full<'f>(file: FallFile<'f>, r: LexRule<'f>)
    requires whole(file), tokens(file).contains(r)
    ensures r.wf(), full(r.node.0.file)
{
    reveal(whole);
    lemma_tokens(file);
    let t = first_kid::<TokenizerDef>(file.node)->0;
    let j = choose|j: int| 0 <= j < tokens(file).len() && tokens(file)[j] == r;
    lemma_kids_ty::<TokenizerDef>(file.node);
    assert(is_kid(file.node, t));
    lemma_kids_ty::<LexRule>(t.node);
    assert(is_kid(t.node, kids_of::<LexRule>(t.node)[j]));
}
/// the number of proper parts grows
pub proof fn lemma_proper<'f>(s: Seq<Expr<'f>>, k: int)
    requires 0 < k <= s.len()
    ensures proper(s, k) == if is_commit(s[k - 1]) { proper(s, k - 1) } else { proper(s, k - 1).push(s[k - 1]) }
{}
pub proof fn lemma_arg<'f>(file: FallFile<'f>, e: Expr<'f>, k: CallKind<'f>, j: int)
    requires call_in(file, e, k)
    ensures k is RuleCall && 0 <= j < k->RuleCall_1@.len() ==> is_param(file, k->RuleCall_1@[j].0) && sub_of(file, e, k->RuleCall_1@[j].1)
            && (param_fails(file, k->RuleCall_1@[j].0) ==> kind_fails(file, k)),
        k is PrevIs && 0 <= j < k->PrevIs_0@.len() ==> k->PrevIs_0@[j].wf() && k->PrevIs_0@[j].node.0.file == file.node.0.file
            && (rule_ty(file, k->PrevIs_0@[j]).is_none() ==> kind_fails(file, k)),
{}
#[verifier::opaque]
pub open spec fn sound<'f>(file: FallFile<'f>, src: Seq<Src<'f>>, e: Expr<'f>, x: dst::Expr) -> bool { means(file, src, e, x, src.len() as int) }
pub proof fn lemma_sound<'f>(file: FallFile<'f>, src: Seq<Src<'f>>, e: Expr<'f>, x: dst::Expr)
    requires means(file, src, e, x, src.len() as int)
    ensures sound(file, src, e, x)
{
    reveal(sound);
}
pub proof fn lemma_sound_call<'f>(file: FallFile<'f>, src: Seq<Src<'f>>, c: CallExpr<'f>, k: CallKind<'f>, x: dst::Expr)
    requires call_is(file, c, Some(k)), call_means(file, src, k, x, src.len() as int)
    ensures sound(file, src, Expr::CallExpr(c), x)
{
    reveal(sound);
}
#[verifier::spinoff_prover]
pub proof fn lemma_alt_in<'f>(file: FallFile<'f>, e: Expr<'f>)
    requires whole(file), of_file(file, e)
    ensures alt_rule(file, e).is_some() ==> rules(file).contains(alt_rule(file, e)->0) && (alt_rule(file, e)->0).wf() && (alt_rule(file, e)->0).node.0.file == file.node.0.file
{
    lemma_here(file, e);
    if let Expr::SeqExpr(s) = e {
        lemma_kid_sub(file, e);
        assert(e.node_spec() == s.node);
        if first_kid::<Expr>(s.node).is_some() {
            let p = first_kid::<Expr>(s.node)->0;
            assert(of_file(file, kids_of::<Expr>(s.node)[0]));
            lemma_here(file, p);
            if let Expr::RefExpr(q) = p { lemma_ref_in(file, q); lemma_rules(file); }
        }
    }
}
pub proof fn lemma_rules<'f>(file: FallFile<'f>)
    requires whole(file)
    ensures forall|r: SynRule<'f>| #[trigger] rules(file).contains(r) ==> r.wf() && r.node.0.file == file.node.0.file
{
    reveal(whole);
    lemma_syn_rules(file);
}
#[verifier::spinoff_prover]
pub proof fn lemma_alt_parts<'f>(file: FallFile<'f>, e: Expr<'f>)
    requires whole(file), of_file(file, e)
    ensures e matches Expr::SeqExpr(s) ==> s.node.wf() && (first_kid::<Expr>(s.node) matches Some(Expr::RefExpr(q)) ==> q.wf() && q.node.0.file == file.node.0.file)
{
    lemma_here(file, e);
    if let Expr::SeqExpr(s) = e {
        lemma_kid_sub(file, e);
        assert(e.node_spec() == s.node);
        if first_kid::<Expr>(s.node).is_some() {
            assert(of_file(file, kids_of::<Expr>(s.node)[0]));
            lemma_here(file, kids_of::<Expr>(s.node)[0]);
        }
    }
}
/// more expressions change nothing in a table
pub proof fn lemma_pratt_more<'f>(file: FallFile<'f>, s1: Seq<Src<'f>>, s2: Seq<Src<'f>>, alts: Seq<Expr<'f>>, k: int, t: dst::PrattTable)
    requires pratt_means(file, s1, alts, k, t, s1.len() as int), agree(s1, s2, s1.len() as int)
    ensures pratt_means(file, s2, alts, k, t, s2.len() as int)
{}
pub proof fn lemma_body<'f>(file: FallFile<'f>, rule: SynRule<'f>)
    requires whole(file), rules(file).contains(rule)
    ensures kids_of::<Expr>(rule.node).len() > 0, rule.body_spec() is BlockExpr, of_file(file, rule.body_spec())
{
    lemma_rules(file);
    reveal(whole);
    lemma_full(rule.node);
    lemma_exprs(file, rule.node);
    assert(of_file(file, kids_of::<Expr>(rule.node)[0]));
}
//@item fall/gen/src/generate/codegen.rs struct:Codegen
pub struct Codegen<'a, 'f: 'a> {
    pub analysis: &'a Analysis<'f>,
    pub node_types: Vec<(Text<'f>, bool)>,
    pub expressions: Vec<dst::Expr>,
    «pub src: Ghost<Seq<Src<'f>>>»
}
//@end
pub open spec fn tval(n: (Text, bool)) -> (Seq<u8>, bool) { (n.0@, n.1) }
pub open spec fn types_are<'f>(v: Seq<(Text<'f>, bool)>, s: Seq<(Seq<u8>, bool)>) -> bool {
    v.len() == s.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0.good() && tval(v[i]) == s[i]
}
pub proof fn lemma_type_at<'f>(v: Seq<(Text<'f>, bool)>, s: Seq<(Seq<u8>, bool)>, i: int)
    requires types_are(v, s), 0 <= i < v.len()
    ensures v[i].0.good(), v[i].0@ == s[i].0
{
    assert(tval(v[i]) == s[i]);
}
pub proof fn lemma_ty_next(s: Seq<(Seq<u8>, bool)>, name: Seq<u8>, k: int)
    requires 0 <= k < s.len()
    ensures ty_from(s, name, k) == if s[k].0 == name { Some(k) } else { ty_from(s, name, k + 1) }
{}
impl<'a, 'f> Codegen<'a, 'f> {
    pub open spec fn f(self) -> FallFile<'f> { self.analysis.file }
    pub open spec fn wf(self) -> bool { self.analysis.wf() && whole(self.f()) && types_are(self.node_types@, types(self.f())) }
    /// what has been generated after the rules
    #[verifier::opaque]
    pub open spec fn inv(self) -> bool {
        &&& self.wf() && self.src@.len() == self.expressions@.len() && n_rules(self.f()) <= self.src@.len()
        &&& forall|r: int| n_rules(self.f()) <= r < self.src@.len() ==> stands(self.f(), self.src@, #[trigger] self.src@[r], self.expressions@[r], r)
    }
    /// nothing but new expressions
    pub open spec fn grown(self, old: Self) -> bool {
        self.analysis == old.analysis && self.node_types == old.node_types && self.inv()
        && agree(old.src@, self.src@, old.src@.len() as int) && agree(old.expressions@, self.expressions@, old.expressions@.len() as int)
    }
    pub broadcast proof fn lemma_inv(self)
        ensures #[trigger] self.inv() ==> self.wf() && self.src@.len() == self.expressions@.len() && n_rules(self.f()) <= self.src@.len()
    {
        reveal(Codegen::inv);
    }
    /// without the last expression, which is the body of the rule
    pub proof fn lemma_last(self, old: Self, rule: SynRule<'f>)
        requires self.grown(old), self.src@.len() > old.src@.len(), old.inv(),
            self.src@.last() == (if rule.attr(utf8("pratt"@)).is_some() { Src::Pratt(rule.body_spec()->BlockExpr_0) } else { Src::Part(rule.body_spec()) })
        ensures ({
            let n = self.src@.len() - 1;
            let g = Codegen { src: Ghost(self.src@.drop_last()), expressions: self.expressions, ..self };
            self.expressions@.len() == n + 1 && stands(self.f(), self.src@.drop_last(), self.src@.last(), self.expressions@[n], n)
            && forall|g: Codegen<'a, 'f>| g.analysis == self.analysis && g.node_types == self.node_types && g.src@ == self.src@.drop_last() && g.expressions@ == self.expressions@.drop_last() ==> #[trigger] g.inv()
        })
    {
        reveal(Codegen::inv);
        let n = self.src@.len() - 1;
        let f = self.f();
        let s = self.src@.drop_last();
        assert(stands(f, self.src@, self.src@[n], self.expressions@[n], n));
        lemma_more(f, self.src@, s, self.src@[n], self.expressions@[n], n, n);
        assert forall|g: Codegen<'a, 'f>| g.analysis == self.analysis && g.node_types == self.node_types && g.src@ == s && g.expressions@ == self.expressions@.drop_last() implies #[trigger] g.inv() by {
            assert forall|r: int| n_rules(f) <= r < s.len() implies stands(f, s, #[trigger] s[r], g.expressions@[r], r) by {
                assert(stands(f, self.src@, self.src@[r], self.expressions@[r], r));
                lemma_more(f, self.src@, s, self.src@[r], self.expressions@[r], r, r);
            }
        }
    }
//@fn fall/gen/src/generate/codegen.rs Codegen::new
«#[verifier::spinoff_prover]»
    pub fn new(analysis: &'a Analysis<'f>) -> «(r:» Codegen<'a, 'f> «) requires analysis.wf(), whole(analysis.file)
        ensures r.wf(), r.analysis == analysis, r.expressions@.len() == 0, r.src@.len() == 0» {
        «let ghost file = analysis.file;
        proof { reveal(whole); lemma_tokens(file); lemma_syn_rules(file); }»
        let node_types = {
            let mut result «: Vec<(Text<'f>, bool)>» = Vec::new();
            if let Some(tokenizer) = analysis.ast().tokenizer_def() {
                {
                    «let ghost all = tokens(file); let ghost mut k = 0int;»
                    let mut it__0 = tokenizer.lex_rules();
                    loop
                    «invariant_except_break it__0.wf(), 0 <= k <= all.len(), it__0.rest() == all.skip(k), types_are(result@, token_types(all, k))
                     invariant all == tokens(file), forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).wf()
                     ensures types_are(result@, token_types(all, all.len() as int))
                     decreases it__0.left()»
                    {
                        «let ghost r0 = it__0.rest();»
                        if let Some(x__0) = it__0.next() {
                            «proof { lemma_step(all, k, r0, x__0, it__0.rest()); k = k + 1; assert(all[k - 1].wf()); }»
                            let r = x__0;
                            let e__0 = (r.node_type(), r.is_skip());
                            result.push(e__0);
                        } else {
                            «proof { assert(k == all.len()); }»
                            break;
                        }
                    }
                }
            }
            «let ghost t0 = token_types(tokens(file), tokens(file).len() as int);
            proof { assert(types_are(result@, t0)); }
            let ghost all = rules(file); let ghost mut k = 0int;
            proof { assert(t0 + rule_types(all, 0) =~= t0); }»
            {
                let mut it__1 = analysis.ast().syn_rules();
                loop
                «invariant_except_break it__1.wf(), 0 <= k <= all.len(), it__1.rest() == all.skip(k), types_are(result@, t0 + rule_types(all, k))
                 invariant all == rules(file), forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).wf()
                 ensures types_are(result@, t0 + rule_types(all, all.len() as int))
                 decreases it__1.left()»
                {
                    «let ghost r0 = it__1.rest(); let ghost v0 = result@;»
                    if let Some(x__1) = it__1.next() {
                        «proof { lemma_step(all, k, r0, x__1, it__1.rest()); k = k + 1; assert(all[k - 1].wf()); }»
                        let r = &x__1;
                        if r.is_pub() && r.type_attr().is_none() {
                            let r = x__1;
                            if let Some(y__2) = r.name() {
                                let n = y__2;
                                let e__1 = (n, false);
                                result.push(e__1);
                            }
                        }
                        «proof {
                            assert(types_are(v0, t0 + rule_types(all, k - 1)));
                            if has_own_type(all[k - 1]) { assert(t0 + rule_types(all, k) =~= (t0 + rule_types(all, k - 1)).push((all[k - 1].name_spec()->0, false))); }
                        }»
                    } else {
                        «proof { assert(k == all.len()); }»
                        break;
                    }
                }
            };
            result
        };
        Codegen { analysis, node_types, expressions: Vec::new(), «src: Ghost(Seq::empty())» }
    }
//@end
//@fn fall/gen/src/generate/codegen.rs Codegen::file
«#[verifier::spinoff_prover]»
    pub fn file(&self) -> «(r:» FallFile<'f> «) ensures r == self.f()» {
        self.analysis.ast()
    }
//@end
//@fn fall/gen/src/generate/codegen.rs Codegen::syn_rule_ty
«#[verifier::spinoff_prover]»
    pub fn syn_rule_ty(&self, rule: SynRule<'f>) -> «(r:» Option<dst::NodeTypeRef> «)
        requires self.wf(), rule.wf(), rule.node.0.file == self.f().node.0.file
        ensures match r { Some(t) => for_type(self.f(), rule, t), None => rule_ty(self.f(), rule).is_none() }» {
        «let ghost ts = types(self.f());
        proof { reveal(whole); reveal(for_type); reveal(rule_ty); lemma_types(self.f()); }»
        let name = rule.ty_name()?;
        match {
            let mut r__0 «: Option<usize>» = None;
            let mut i__0: usize = 0;
            let mut n__1: usize = 0;
            while i__0 < self.node_types.len()
            «invariant_except_break r__0.is_none(), n__1 == i__0, i__0 <= self.node_types@.len(), ty_from(ts, name@, 0) == ty_from(ts, name@, i__0 as int)
             invariant name.good(), types_are(self.node_types@, ts)
             ensures match r__0 { Some(n) => ty_from(ts, name@, 0) == Some(n as int) && n < ts.len(), None => ty_from(ts, name@, 0).is_none() }
             decreases self.node_types@.len() - i__0»
            {
                let j__0 = i__0;
                i__0 = i__0 + 1;
                let ty_name = self.node_types[j__0].0;
                «proof { lemma_type_at(self.node_types@, ts, j__0 as int); lemma_ty_next(ts, name@, j__0 as int); }»
                if ty_name == name {
                    r__0 = Some(n__1);
                    break;
                }
                n__1 = n__1 + 1;
            }
            r__0
        } {
            Some(v__2) => Some({
                let i = v__2;
                dst::NodeTypeRef((i + 1) as u32)
            }),
            None => None
        }
    }
//@end
//@fn fall/gen/src/generate/codegen.rs Codegen::syn_rule_ref
«#[verifier::spinoff_prover]»
    pub fn syn_rule_ref(&self, rule: SynRule<'f>) -> «(r:» dst::ExprRef «) requires self.wf(), rules(self.f()).contains(rule)
        ensures for_rule(self.f(), rule, r)» {
        «let ghost all = rules(self.f()); let ghost mut k = 0int;
        proof { reveal(whole); reveal(for_rule); lemma_same_in(all, rule); lemma_syn_rules(self.f()); }»
        let idx = {
            let mut r__0 «: Option<usize>» = None;
            let mut it__0 = self.file().syn_rules();
            let mut n__1: usize = 0;
            loop
            «invariant_except_break r__0.is_none(), n__1 == k, it__0.wf(), 0 <= k <= all.len(), it__0.rest() == all.skip(k), same_from(all, rule, 0) == same_from(all, rule, k)
             invariant same_from(all, rule, 0).is_some(), all.len() < u32::MAX, rule.wf(), forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).wf()
             ensures r__0.is_some(), same_from(all, rule, 0) == Some(r__0->0 as int)
             decreases it__0.left()»
            {
                «let ghost r0 = it__0.rest();»
                if let Some(x__0) = it__0.next() {
                    «proof { lemma_step(all, k, r0, x__0, it__0.rest()); k = k + 1; assert(all[k - 1].wf()); }»
                    let r = x__0;
                    if r.node() == rule.node() {
                        r__0 = Some(n__1);
                        break;
                    }
                    n__1 = n__1 + 1;
                } else {
                    break;
                }
            }
            r__0
        }.unwrap();
        dst::ExprRef(idx as u32)
    }
//@end
//@fn fall/gen/src/generate/codegen.rs Codegen::lex_rule_ty
«#[verifier::spinoff_prover]»
    pub fn lex_rule_ty(&self, rule: LexRule<'f>) -> «(r:» dst::NodeTypeRef «) requires self.wf(), tokens(self.f()).contains(rule)
        ensures token_ty(self.f(), rule) == Some(r.0 as int)» {
        «let ghost ts = types(self.f());
        proof { reveal(whole); reveal(token_ty); lemma_types(self.f()); lemma_tokens(self.f()); }»
        let name = rule.node_type();
        let i = {
            let mut r__0 «: Option<usize>» = None;
            let mut i__0: usize = 0;
            let mut n__1: usize = 0;
            while i__0 < self.node_types.len()
            «invariant_except_break r__0.is_none(), n__1 == i__0, i__0 <= self.node_types@.len(), ty_from(ts, name@, 0) == ty_from(ts, name@, i__0 as int)
             invariant name.good(), types_are(self.node_types@, ts)
             ensures match r__0 { Some(n) => ty_from(ts, name@, 0) == Some(n as int) && n < ts.len(), None => ty_from(ts, name@, 0).is_none() }
             decreases self.node_types@.len() - i__0»
            {
                let j__0 = i__0;
                i__0 = i__0 + 1;
                let ty_name = self.node_types[j__0].0;
                «proof { lemma_type_at(self.node_types@, ts, j__0 as int); lemma_ty_next(ts, name@, j__0 as int); }»
                if ty_name == name {
                    r__0 = Some(n__1);
                    break;
                }
                n__1 = n__1 + 1;
            }
            r__0
        }.unwrap();
        dst::NodeTypeRef((i + 1) as u32)
    }
//@end
//@fn fall/gen/src/generate/codegen.rs Codegen::context_ref
«#[verifier::spinoff_prover]»
    pub fn context_ref(&self, idx: u32) -> «(r:» Result<dst::Context> «) ensures match r { Ok(c) => c.0 == idx && idx < 16, Err(_) => idx >= 16 }» {
        if idx >= MAX_SLOTS {
            return Err(verror());
        }
        Ok(dst::Context(idx))
    }
//@end
//@fn fall/gen/src/generate/codegen.rs Codegen::param_ref
«#[verifier::spinoff_prover]»
    pub fn param_ref(&self, param: Parameter<'f>) -> «(r:» Result<dst::Arg> «) requires self.wf(), is_param(self.f(), param)
        ensures match r { Ok(a) => for_param(self.f(), param, a), Err(_) => param_fails(self.f(), param) }» {
        «let ghost all = rules(self.f()); let ghost mut k = 0int;
        let ghost ps = params_from(all, 0); let ghost mut n = 0int;
        proof { reveal(whole); reveal(is_param); reveal(for_param); reveal(param_fails); lemma_same_in(ps, param); lemma_syn_rules(self.f()); lemma_params_wf(self.f(), 0); assert(ps.skip(0) =~= ps); }»
        let idx = {
            let mut r__0 «: Option<usize>» = None;
            let mut it__0 = self.file().syn_rules();
            let mut n__1: usize = 0;
            'chain__0: loop
            «invariant_except_break r__0.is_none(), n__1 == n, 0 <= n <= ps.len(), it__0.wf(), 0 <= k <= all.len(), it__0.rest() == all.skip(k), ps.skip(n) == params_from(all, k), same_from(ps, param, 0) == same_from(ps, param, n)
             invariant same_from(ps, param, 0).is_some(), ps.len() < u32::MAX, param.wf(), forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).wf(),
                forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).wf()
             ensures r__0.is_some(), same_from(ps, param, 0) == Some(r__0->0 as int)
             decreases it__0.left()»
            {
                «let ghost r0 = it__0.rest();»
                if let Some(x__0) = it__0.next() {
                    «proof { lemma_step(all, k, r0, x__0, it__0.rest()); k = k + 1; assert(all[k - 1].wf()); assert(Seq::<Parameter<'f>>::empty() + params_from(all, k) =~= params_from(all, k)); }»
                    let rule = x__0;
                    if let Some(y__2) = rule.parameters() {
                        let p = y__2;
                        let mut it__3 = p.parameters();
                        loop
                        «invariant_except_break r__0.is_none(), n__1 == n, 0 <= n <= ps.len(), it__3.wf(), ps.skip(n) == it__3.rest() + params_from(all, k), same_from(ps, param, 0) == same_from(ps, param, n)
                         invariant same_from(ps, param, 0).is_some(), ps.len() < u32::MAX, param.wf(), forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).wf(),
                            forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).wf()
                         ensures r__0.is_none(), n__1 == n, 0 <= n <= ps.len(), ps.skip(n) == params_from(all, k), same_from(ps, param, 0) == same_from(ps, param, n)
                         decreases it__3.left()»
                        {
                            «let ghost r3 = it__3.rest();»
                            if let Some(y__4) = it__3.next() {
                                «proof { assert(ps.skip(n) == seq![y__4] + (it__3.rest() + params_from(all, k))) by { assert((seq![y__4] + it__3.rest()) + params_from(all, k) =~= seq![y__4] + (it__3.rest() + params_from(all, k))); }
                                    lemma_step(ps, n, ps.skip(n), y__4, it__3.rest() + params_from(all, k)); n = n + 1; }»
                                let p = y__4;
                                if p.node() == param.node() {
                                    r__0 = Some(n__1);
                                    break 'chain__0;
                                }
                                n__1 = n__1 + 1;
                            } else {
                                «proof { assert(it__3.rest() + params_from(all, k) =~= params_from(all, k)); }»
                                break;
                            }
                        }
                    }
                } else {
                    break;
                }
            }
            r__0
        }.unwrap();
        if idx >= MAX_SLOTS as usize {
            return Err(verror());
        }
        Ok(dst::Arg(idx as u32))
    }
//@end
//@fn fall/gen/src/generate/codegen.rs Codegen::push_expr
«#[verifier::spinoff_prover]»
    pub fn push_expr(&mut self, expr: dst::Expr «, Ghost(s): Ghost<Src<'f>>») -> «(r:» dst::ExprRef «)
        requires old(self).inv(), stands(old(self).f(), old(self).src@, s, expr, old(self).src@.len() as int)
        ensures final(self).grown(*old(self)), r.0 == old(self).src@.len(), final(self).src@ == old(self).src@.push(s), final(self).expressions@ == old(self).expressions@.push(expr)» {
        «proof { fits(&self.expressions); reveal(Codegen::inv); }»
        let idx = self.expressions.len();
        self.expressions.push(expr);
        «self.src = Ghost(self.src@.push(s));
        proof {
            let f = self.f();
            assert forall|r: int| n_rules(f) <= r < self.src@.len() implies stands(f, self.src@, #[trigger] self.src@[r], self.expressions@[r], r) by {
                if r < old(self).src@.len() { lemma_more(f, old(self).src@, self.src@, old(self).src@[r], old(self).expressions@[r], r, r); }
                else { lemma_more(f, old(self).src@, self.src@, s, expr, r, r); }
            }
        }»
        dst::ExprRef(idx as u32)
    }
//@end
//@fn fall/gen/src/generate/codegen.rs Codegen::gen_expr
«#[verifier::spinoff_prover]»
    pub fn gen_expr(&mut self, expr: Expr<'f>) -> «(r:» Result<dst::ExprRef> «)
        requires old(self).inv(), of_file(old(self).f(), expr)
        ensures final(self).grown(*old(self)),
            match r {
                Ok(c) => for_part(old(self).f(), final(self).src@, expr, c, final(self).src@.len() as int)
                    && (ref_rule(old(self).f(), expr).is_none() ==> old(self).src@.len() < final(self).src@.len() && c.0 == final(self).src@.len() - 1),
                Err(_) => fails(old(self).f(), expr),
            }
        decreases size(expr)» {
        «broadcast use Codegen::lemma_inv;
        let ghost e0 = expr; let ghost g0 = *self; let ghost f = self.f(); let ghost all = kids_of::<Expr>(expr.node_spec());
        proof { assert(whole(f)) by { reveal(Codegen::wf); } lemma_fails_all(f, e0); lemma_kid_sub(f, expr); lemma_here(f, e0); assert(ref_rule(f, e0).is_some() ==> e0 is RefExpr); if e0 is OptExpr || e0 is RepExpr { assert(is_part(f, e0, all[0])); } }»
        let result = match expr {
            Expr::BlockExpr(block) =>«{ let x =» dst::Expr::Or({
                let mut r__0 «: Vec<dst::ExprRef>» = Vec::new();
                «let ghost mut k = 0int;»
                let mut it__0 = block.alts();
                loop
                «invariant_except_break it__0.wf(), 0 <= k <= all.len(), it__0.rest() == all.skip(k), r__0@.len() == k,
                    forall|j: int| 0 <= j < k ==> for_part(f, self.src@, all[j], #[trigger] r__0@[j], self.src@.len() as int)
                 invariant self.grown(g0), f == g0.f(), e0 == expr, g0 == *old(self), e0 is BlockExpr, whole(f), all == kids_of::<Expr>(e0.node_spec()),
                    forall|k: int| 0 <= k < all.len() ==> of_file(f, #[trigger] all[k]) && 0 <= size(all[k]) < size(e0)
                 ensures for_parts(f, self.src@, all, r__0@, self.src@.len() as int)
                 decreases it__0.left()»
                {
                    «let ghost r0 = it__0.rest();»
                    if let Some(x__0) = it__0.next() {
                        «proof { self.lemma_inv(); lemma_fails_all(f, e0); lemma_step(all, k, r0, x__0, it__0.rest()); k = k + 1; assert(all[k - 1] == x__0); assert(is_part(f, e0, x__0)); }»
                        let e = x__0;
                        r__0.push(self.gen_expr(e)?);
                    } else {
                        break;
                    }
                }
                r__0
            }) «; proof { lemma_sound(f, self.src@, e0, x); } x }»,
            Expr::SeqExpr(seq) => {
                let commit = {
                    let mut r__1 «: Option<usize>» = None;
                    «let ghost mut k = 0int; »
                    let mut it__1 = seq.parts();
                    «proof { lemma_rest_small(it__1); assert(all.skip(0) =~= all); }»
                    let mut n__2: usize = 0;
                    loop
                    «invariant_except_break r__1.is_none(), n__2 == k, it__1.wf(), 0 <= k <= all.len(), it__1.rest() == all.skip(k), commit_from(all, 0) == commit_from(all, k)
                     invariant all.len() <= usize::MAX, whole(f), forall|k: int| 0 <= k < all.len() ==> of_file(f, #[trigger] all[k])
                     ensures opt_int(r__1) == commit_from(all, 0)
                     decreases it__1.left()»
                    {
                        «let ghost r0 = it__1.rest();»
                        if let Some(x__1) = it__1.next() {
                            «proof { lemma_step(all, k, r0, x__1, it__1.rest()); k = k + 1; assert(all[k - 1] == x__1); }»
                            if gen_expr__is_commit(x__1 «, Ghost(f)») {
                                r__1 = Some(n__2);
                                break;
                            }
                            n__2 = n__2 + 1;
                        } else {
                            break;
                        }
                    }
                    r__1
                };
                let parts = {
                    let mut r__3 «: Vec<dst::ExprRef>» = Vec::new();
                    «let ghost mut k = 0int;»
                    let mut it__2 = seq.parts();
                    loop
                    «invariant_except_break it__2.wf(), 0 <= k <= all.len(), it__2.rest() == all.skip(k), for_parts(f, self.src@, proper(all, k), r__3@, self.src@.len() as int)
                     invariant self.grown(g0), f == g0.f(), e0 == expr, g0 == *old(self), e0 is SeqExpr, whole(f), all == kids_of::<Expr>(e0.node_spec()),
                        forall|k: int| 0 <= k < all.len() ==> of_file(f, #[trigger] all[k]) && 0 <= size(all[k]) < size(e0)
                     ensures for_parts(f, self.src@, proper(all, all.len() as int), r__3@, self.src@.len() as int)
                     decreases it__2.left()»
                    {
                        «let ghost r0 = it__2.rest();»
                        if let Some(x__2) = it__2.next() {
                            «proof { lemma_step(all, k, r0, x__2, it__2.rest()); k = k + 1; assert(all[k - 1] == x__2); lemma_proper(all, k); lemma_fails_all(f, e0); assert(all.contains(x__2)); }»
                            let p = x__2;
                            if !gen_expr__is_commit(p «, Ghost(f)») {
                                let e = x__2;
                                «proof { assert(is_part(f, e0, e)); }»
                                r__3.push(self.gen_expr(e)?);
                            }
                        } else {
                            break;
                        }
                    }
                    r__3
                };
                «{ let x =» dst::Expr::And(parts, commit) «; proof { lemma_sound(f, self.src@, e0, x); } x }»
            }
            Expr::RefExpr(ref_) => {
                «proof { lemma_ref_in(f, ref_); lemma_tokens(f); }»
                let ref_ = match self.analysis.resolve_reference(ref_) {
                    Some(v__4) => Ok(v__4),
                    None => Err(verror())
                }?;
                match ref_ {
                    RefKind::Token(rule) => {
                        «proof { lemma_tokens_full(f, rule); }»
                        let ty_ref = self.lex_rule_ty(rule);
                        if rule.is_contextual() {
                            «{ let x =» dst::Expr::ContextualToken(
                                ty_ref,
                                match rule.token_text() {
                                    Some(v__5) => Ok(v__5),
                                    None => Err(verror())
                                }?.to_string(),
                            ) «; proof { lemma_sound(f, self.src@, e0, x); } x }»
                        } else {
                            «{ let x =» dst::Expr::Token(ty_ref) «; proof { lemma_sound(f, self.src@, e0, x); } x }»
                        }
                    }
                    RefKind::RuleReference(rule) => return Ok(self.syn_rule_ref(rule)),
                    RefKind::Param(p) =>«{ let x =» dst::Expr::Var(self.param_ref(p)?) «; proof { lemma_sound(f, self.src@, e0, x); } x }»,
                }
            }
            Expr::CallExpr(call) => {
                «let ghost c0 = call;»
                let call = match self.analysis.resolve_call(call) {
                    Some(v__6) => Ok(v__6),
                    None => Err(verror())
                }?;
                «let ghost k0 = call; proof { lemma_call_in(f, c0, k0); assert(kind_fails(f, k0) ==> fails_itself(f, e0)); }
                » match call {
                    CallKind::Eof =>«{ let x =» dst::Expr::Eof «; proof { lemma_sound_call(f, self.src@, c0, k0, x); } x }»,
                    CallKind::Any =>«{ let x =» dst::Expr::Any «; proof { lemma_sound_call(f, self.src@, c0, k0, x); } x }»,
                    CallKind::Enter(idx, expr) =>«{ let x =» dst::Expr::Enter(
                        self.context_ref(idx)?,
                        self.gen_expr(expr)?,
                    ) «; proof { lemma_sound_call(f, self.src@, c0, k0, x); } x }»,
                    CallKind::Exit(idx, expr) =>«{ let x =» dst::Expr::Exit(
                        self.context_ref(idx)?,
                        self.gen_expr(expr)?,
                    ) «; proof { lemma_sound_call(f, self.src@, c0, k0, x); } x }»,
                    CallKind::IsIn(idx) =>«{ let x =» dst::Expr::IsIn(
                        self.context_ref(idx)?
                    ) «; proof { lemma_sound_call(f, self.src@, c0, k0, x); } x }»,
                    CallKind::Not(expr) =>«{ let x =» dst::Expr::Not(self.gen_expr(expr)?) «; proof { lemma_sound_call(f, self.src@, c0, k0, x); } x }»,
                    CallKind::Layer(e1, e2) =>«{ let x =» dst::Expr::Layer(
                        self.gen_expr(e1)?,
                        self.gen_expr(e2)?,
                    ) «; proof { lemma_sound_call(f, self.src@, c0, k0, x); } x }»,
                    CallKind::WithSkip(e1, e2) =>«{ let x =» dst::Expr::WithSkip(
                        self.gen_expr(e1)?,
                        self.gen_expr(e2)?,
                    ) «; proof { lemma_sound_call(f, self.src@, c0, k0, x); } x }»,
                    CallKind::Inject(e1, e2) =>«{ let x =» dst::Expr::Inject(
                        self.gen_expr(e1)?,
                        self.gen_expr(e2)?,
                    ) «; proof { lemma_sound_call(f, self.src@, c0, k0, x); } x }»,
                    CallKind::RuleCall(rule, args) =>«{ let x =» dst::Expr::Call(
                        self.syn_rule_ref(rule),
                        {
                            let mut r__7 «: Vec<(dst::Arg, dst::ExprRef)>» = Vec::new();
                            let mut i__3: usize = 0;
                            while i__3 < args.len()
                            «invariant i__3 <= args@.len(), r__7@.len() == i__3, self.grown(g0), f == g0.f(), e0 == expr, g0 == *old(self), whole(f), e0 is CallExpr, k0 == CallKind::RuleCall(rule, args), call_in(f, e0, k0),
                                kind_fails(f, k0) ==> fails(f, e0), forall|x: Expr<'f>| #[trigger] is_part(f, e0, x) && 0 <= size(x) < size(e0) && fails(f, x) ==> fails(f, e0),
                                forall|j: int| 0 <= j < i__3 ==> for_arg(f, self.src@, args@[j], #[trigger] r__7@[j], self.src@.len() as int)
                             decreases args@.len() - i__3»
                            {
                                let j__3 = i__3;
                                i__3 = i__3 + 1;
                                let p = args[j__3].0;
                                let e = args[j__3].1;
                                «proof { self.lemma_inv(); lemma_arg(f, e0, k0, j__3 as int); }»
                                r__7.push((self.param_ref(p)?, self.gen_expr(e)?));
                            }
                            r__7
                        },
                    ) «; proof { lemma_sound_call(f, self.src@, c0, k0, x); } x }»,
                    CallKind::PrevIs(tokens) =>«{ let x =» dst::Expr::PrevIs({
                        let mut r__8 «: Vec<dst::NodeTypeRef>» = Vec::new();
                        let mut i__4: usize = 0;
                        while i__4 < tokens.len()
                        «invariant i__4 <= tokens@.len(), r__8@.len() == i__4, *self == g0, self.inv(), f == g0.f(), e0 == expr, g0 == *old(self), e0 is CallExpr, k0 == CallKind::PrevIs(tokens), call_in(f, e0, k0),
                            kind_fails(f, k0) ==> fails(f, e0), forall|x: Expr<'f>| #[trigger] is_part(f, e0, x) && 0 <= size(x) < size(e0) && fails(f, x) ==> fails(f, e0),
                            forall|j: int| 0 <= j < i__4 ==> for_type(f, tokens@[j], #[trigger] r__8@[j])
                         decreases tokens@.len() - i__4»
                        {
                            let j__4 = i__4;
                            i__4 = i__4 + 1;
                            let r = tokens[j__4];
                            «proof { self.lemma_inv(); lemma_arg(f, e0, k0, j__4 as int); }»
                            r__8.push(match self.syn_rule_ty(r) {
                                Some(v__9) => Ok(v__9),
                                None => Err(verror())
                            }?);
                        }
                        r__8
                    }) «; proof { lemma_sound_call(f, self.src@, c0, k0, x); } x }»,
                    CallKind::Commit => return Err(verror()),
                }
            }
            Expr::OptExpr(opt_expr) =>«{ let x =» dst::Expr::Opt(self.gen_expr(opt_expr.expr())?) «; proof { lemma_sound(f, self.src@, e0, x); } x }»,
            Expr::RepExpr(rep_expr) =>«{ let x =» dst::Expr::Rep(self.gen_expr(rep_expr.expr())?) «; proof { lemma_sound(f, self.src@, e0, x); } x }»,
        };
        «proof { assert(self.grown(g0)); assert(sound(f, self.src@, e0, result)); reveal(sound); }»
        Ok(self.push_expr(result «, Ghost(Src::Part(e0))»))
    }
//@end
//@fn fall/gen/src/generate/codegen.rs Codegen::gen_pratt
«#[verifier::spinoff_prover]»
    pub fn gen_pratt(&mut self, ast: BlockExpr<'f>) -> «(r:» Result<dst::PrattTable> «)
        requires old(self).inv(), of_file(old(self).f(), Expr::BlockExpr(ast))
        ensures final(self).grown(*old(self)),
            match r { Ok(t) => pratt_of(old(self).f(), final(self).src@, ast, t, final(self).src@.len() as int), Err(_) => alts_fail(old(self).f(), ast) }» {
        «let ghost g0 = *self; let ghost f = self.f(); let ghost all = kids_of::<Expr>(ast.node); let ghost mut k = 0int;
        proof { self.lemma_inv(); lemma_kid_sub(f, Expr::BlockExpr(ast)); lemma_here(f, Expr::BlockExpr(ast)); assert(all == kids_of::<Expr>(Expr::BlockExpr(ast).node_spec())); }»
        let mut result = dst::PrattTable {
            atoms: Vec::new(),
            prefixes: Vec::new(),
            infixes: Vec::new(),
        };
        {
            let mut it__0 = ast.alts();
            loop
            «invariant_except_break it__0.wf(), 0 <= k <= all.len(), it__0.rest() == all.skip(k), pratt_means(f, self.src@, all, k, result, self.src@.len() as int)
             invariant self.grown(g0), f == g0.f(), g0 == *old(self), whole(f), all == kids_of::<Expr>(ast.node),
                forall|k: int| 0 <= k < all.len() ==> of_file(f, #[trigger] all[k])
             ensures pratt_of(f, self.src@, ast, result, self.src@.len() as int)
             decreases it__0.left()»
            {
                «let ghost r0 = it__0.rest(); let ghost t0 = result; let ghost s0 = self.src@;»
                if let Some(x__0) = it__0.next() {
                    «proof { self.lemma_inv(); lemma_step(all, k, r0, x__0, it__0.rest()); k = k + 1; assert(all[k - 1] == x__0); lemma_alt_in(f, x__0); assert(alt_fails(f, x__0) ==> alts_fail(f, ast)); }»
                    let alt = x__0;
                    let rule = gen_pratt__alt_to_rule(&self.analysis, alt)?;
                    let ty = match self.syn_rule_ty(rule) {
                        Some(v__0) => Ok(v__0),
                        None => Err(verror())
                    }?;
                    let prat_kind = match self.analysis.resolve_pratt_variant(rule) {
                        Some(v__1) => Ok(v__1),
                        None => Err(verror())
                    }?;
                    match prat_kind {
                        PratVariant::Atom(_) => result.atoms.push(self.syn_rule_ref(rule)),
                        PratVariant::Postfix(PrattOp { op, priority }) => {
                            result.infixes.push(dst::Infix {
                                ty,
                                op: self.gen_expr(op)?,
                                priority,
                                has_rhs: false,
                            });
                        }
                        PratVariant::Prefix(PrattOp { op, priority }) => {
                            result.prefixes.push(dst::Prefix {
                                ty,
                                op: self.gen_expr(op)?,
                                priority,
                            })
                        }
                        PratVariant::Bin(PrattOp { op, priority }) => {
                            result.infixes.push(dst::Infix {
                                ty,
                                op: self.gen_expr(op)?,
                                priority,
                                has_rhs: true,
                            });
                        }
                    };
                    «proof { lemma_pratt_more(f, s0, self.src@, all, k - 1, t0); }»
                } else {
                    break;
                }
            }
        }
        Ok(result)
    }
//@end
//@fn fall/gen/src/generate/codegen.rs Codegen::gen_rule
«#[verifier::spinoff_prover]»
    pub fn gen_rule(&mut self, rule: SynRule<'f>) -> «(r:» Result<dst::Expr> «)
        requires old(self).inv(), rules(old(self).f()).contains(rule)
        ensures final(self).grown(*old(self)),
            match r { Ok(x) => rule_means(old(self).f(), final(self).src@, rule, x, final(self).src@.len() as int), Err(_) => rule_fails(old(self).f(), rule) }» {
        «let ghost g0 = *self; let ghost f = self.f();
        proof { self.lemma_inv(); lemma_rules(f); lemma_body(f, rule); }»
        let body = match (rule.is_pratt(), rule.body()) {
            (true, Expr::BlockExpr(block)) => {
                let pratt = dst::Expr::Pratt(Box::new(self.gen_pratt(block)?));
                self.push_expr(pratt «, Ghost(Src::Pratt(block))»)
            }
            (true, _) => vpanic(),
            (false, body) => self.gen_expr(body)?
        };
        «let ghost g1 = *self;
        proof { self.lemma_inv(); assert(for_body(f, g1.src@, rule, body, g1.src@.len() as int)); assert(body.0 == g1.src@.len() - 1 && g1.src@.len() > g0.src@.len()); }»
        let ty = self.syn_rule_ty(rule);
        «proof { reveal(for_type); reveal(rule_ty); assert(ty.is_some() ==> rule.ty_spec().is_some()); }»
        if ty.is_none() && rule.ty_name().is_some() {
            return Err(verror());
        }
        «proof { assert(ty.is_some() == rule.ty_spec().is_some()); }»
        let body = match (ty, rule.is_replaces(), rule.is_cached()) {
            (Some(ty), true, _) => dst::Expr::PubReplace {
                ty,
                body,
            },
            (Some(ty), false, false) => dst::Expr::Pub {
                ty,
                body,
                replaceable: rule.is_replaceable(),
            },
            (Some(ty), false, true) => {
                let body = self.push_expr(dst::Expr::Cached(body) «, Ghost(Src::Cached(rule))»);
                dst::Expr::Pub {
                    ty,
                    body,
                    replaceable: rule.is_replaceable(),
                }
            }
            (None, false, true) => {
                vassert(self.expressions.len() - 1 == body.0 as usize);
                dst::Expr::Cached(body)
            }
            (None, false, false) => {
                vassert(self.expressions.len() - 1 == body.0 as usize);
                «proof { g1.lemma_last(g0, rule); self.src = Ghost(self.src@.drop_last()); }»
                self.expressions.pop().unwrap()
            }
            _ => return Err(verror()),
        };
        «proof {
            let n = self.src@.len() as int;
            if rule.ty_spec().is_some() { assert(rule_means(f, self.src@, rule, body, n)); }
            else if rule.attr(utf8("cached"@)).is_some() { assert(rule_means(f, self.src@, rule, body, n)); }
            else {
                assert(n == g1.src@.len() - 1);
                assert(stands(f, self.src@, g1.src@.last(), body, n));
                assert(rule_means(f, self.src@, rule, body, n));
            }
        }»
        Ok(body)
    }
//@end
}
//@fn fall/gen/src/generate/codegen.rs Codegen::gen_pratt/alt_to_rule
«#[verifier::spinoff_prover]»
    pub fn gen_pratt__alt_to_rule<'f>(analysis: &Analysis<'f>, alt: Expr<'f>) -> «(r:» Result<SynRule<'f>> «) requires analysis.wf(), whole(analysis.file), of_file(analysis.file, alt)
        ensures match r { Ok(rule) => alt_rule(analysis.file, alt) == Some(rule), Err(_) => alt_rule(analysis.file, alt).is_none() }» {
        «proof { lemma_alt_parts(analysis.file, alt); }»
        match alt {
            Expr::SeqExpr(expr) => match expr.parts().next() {
                Some(Expr::RefExpr(ref_)) => match analysis.resolve_reference(ref_) {
                    Some(RefKind::RuleReference(rule)) => Ok(rule),
                    _ => return Err(verror()),
                },
                _ => return Err(verror())
            },
            _ => return Err(verror())
        }
    }
//@end
//@fn fall/gen/src/generate/codegen.rs Codegen::gen_expr/is_commit
«#[verifier::spinoff_prover]»
    pub fn gen_expr__is_commit(part: Expr «, Ghost(file): Ghost<FallFile>») -> «(r:» bool «) requires whole(file), of_file(file, part) ensures r == is_commit(part)» {
        «proof { lemma_here(file, part); }»
        match part {
            Expr::CallExpr(call) => call.fn_name() == strlit("commit"),
            _ => false,
        }
    }
//@end
// ---- C21: what the template is filled with ---------------------------------------------------------
/// a value for the template
pub enum Val { Types(Seq<(Seq<u8>, bool)>), Tokens(Seq<Tok>), Text(Seq<u8>), Other }
pub struct Tok { pub ty: Seq<u8>, pub re: Seq<u8>, pub f: Option<Seq<u8>> }
pub trait Ser {
    spec fn val(&self) -> Val;
}
impl<'f> Ser for Vec<(Text<'f>, bool)> { open spec fn val(&self) -> Val { Val::Types(Seq::new(self@.len(), |i: int| tval(self@[i]))) } }
impl Ser for Str { open spec fn val(&self) -> Val { Val::Text(self@) } }
impl<'f> Ser for Option<Text<'f>> { open spec fn val(&self) -> Val { Val::Other } }
impl Ser for bool { open spec fn val(&self) -> Val { Val::Other } }
impl<'f> Ser for Vec<CtxLexRule<'f>> { open spec fn val(&self) -> Val { Val::Tokens(Seq::new(self@.len(), |i: int| tok_val(self@[i]))) } }
/// `tera::Context`
#[verifier::external_body]
pub struct Context { x: u8 }
impl View for Context {
    type V = Map<Seq<u8>, Val>;
    uninterp spec fn view(&self) -> Map<Seq<u8>, Val>;
}
impl Context {
    #[verifier::external_body]
    pub fn new() -> (r: Context) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<T: Ser>(&mut self, key: &Str, v: &T) ensures final(self)@ == old(self)@.insert(key@, v.val()) { unimplemented!() }
}
pub uninterp spec fn json(es: Seq<dst::Expr>) -> Seq<u8>;
/// the definition a parser reads from that text
pub uninterp spec fn parsed(s: Seq<u8>) -> Option<Seq<dst::Expr>>;
pub uninterp spec fn replaced(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>) -> Seq<u8>;
/// `"#` in JSON is the beginning of a string, or a quote in a string, followed by `#`
#[verifier::external_body]
pub proof fn axiom_json(es: Seq<dst::Expr>)
    ensures ({
        let r = replaced(json(es), utf8("\"#"@), utf8("\"\\u0023"@));
        parsed(r) == Some(es) && forall|i: int| !#[trigger] occurs(r, utf8("\"##"@), i)
    })
{}
/// `serde_json::to_string(..).unwrap()`
#[verifier::external_body]
pub fn to_json(es: &Vec<dst::Expr>) -> (r: Str) ensures r@ == json(es@) { unimplemented!() }
impl Str {
    #[verifier::external_body]
    pub fn replace(&self, a: &Str, b: &Str) -> (r: Str) ensures r@ == replaced(self@, a@, b@) { unimplemented!() }
}
pub uninterp spec fn debugged(s: Seq<u8>) -> Seq<u8>;
/// `format!("{:?}", s)`
#[verifier::external_body]
pub fn debug_str(s: &Str) -> (r: Str) ensures r@ == debugged(s@) { unimplemented!() }
/// the regular expression for that literal
pub uninterp spec fn re_of(raw: Seq<u8>) -> Seq<u8>;
/// the name of the function that finds where the token ends
pub uninterp spec fn fn_of<'f>(r: LexRule<'f>) -> Option<Seq<u8>>;
impl<'f> LexRule<'f> {
    #[verifier::external_body]
    pub fn token_re(&self) -> (r: Option<Str>) requires self.wf() ensures match self.re_spec() { Some(raw) => r.is_some() && r->0@ == re_of(raw), None => r.is_none() } { unimplemented!() }
    #[verifier::external_body]
    pub fn extern_fn(&self) -> (r: Option<Text<'f>>) requires self.wf() ensures match r { Some(t) => fn_of(*self) == Some(t@), None => fn_of(*self).is_none() } { unimplemented!() }
}
#[verifier::external_body]
pub struct VerbatimDef<'f> { x: &'f u8 }
impl<'f> FallFile<'f> {
    #[verifier::external_body]
    pub fn verbatim(&self) -> (r: Option<Text<'f>>) { unimplemented!() }
}
#[verifier::external_body]
pub fn has_binder<'f>(t: &Option<Text<'f>>) -> (r: bool) { unimplemented!() }
//@rewrite1 String ==> Str
//@item fall/gen/src/generate/codegen.rs struct:CtxLexRule
pub struct CtxLexRule<'f> {
    pub ty: Text<'f>,
    pub re: Str,
    pub f: Option<Text<'f>>,
}
//@end
pub open spec fn tok_val<'f>(c: CtxLexRule<'f>) -> Tok { Tok { ty: c.ty@, re: c.re@, f: match c.f { Some(t) => Some(t@), None => None } } }
pub open spec fn is_context<'f>(r: LexRule<'f>) -> bool { r.attr(utf8("contextual"@)).is_some() }
pub open spec fn lexed<'f>(r: LexRule<'f>) -> Tok { Tok { ty: ident_text(r.node), re: debugged(re_of(r.re_spec()->0)), f: fn_of(r) } }
/// what the lexer has: the tokens that are not contextual, in order
pub open spec fn lexer<'f>(s: Seq<LexRule<'f>>, k: int) -> Seq<Tok>
    decreases k
{
    if k <= 0 { Seq::empty() } else if is_context(s[k - 1]) { lexer(s, k - 1) } else { lexer(s, k - 1).push(lexed(s[k - 1])) }
}
pub uninterp spec fn ast_fails<'f>(file: FallFile<'f>) -> bool;
pub open spec fn gen_fails<'f>(file: FallFile<'f>) -> bool {
    ||| exists|i: int| 0 <= i < rules(file).len() && rule_fails(file, #[trigger] rules(file)[i])
    ||| first_kid::<TokenizerDef>(file.node).is_none()
    ||| exists|i: int| 0 <= i < tokens(file).len() && !is_context(#[trigger] tokens(file)[i]) && tokens(file)[i].re_spec().is_none()
    ||| ast_fails(file)
}
/// the expressions, rules first, are the grammar: every one is what the part of the file it is for denotes
#[verifier::opaque]
pub open spec fn denotes<'f>(file: FallFile<'f>, src: Seq<Src<'f>>, es: Seq<dst::Expr>) -> bool {
    &&& src.len() == es.len() && rules(file).len() <= es.len()
    &&& forall|i: int| 0 <= i < rules(file).len() ==> #[trigger] src[i] == Src::Rule(rules(file)[i]) && stands(file, src, src[i], es[i], es.len() as int)
    &&& forall|i: int| rules(file).len() <= i < es.len() ==> stands(file, src, #[trigger] src[i], es[i], i)
}
pub open spec fn generated<'f>(file: FallFile<'f>, src: Seq<Src<'f>>, es: Seq<dst::Expr>, c: Map<Seq<u8>, Val>) -> bool {
    &&& denotes(file, src, es)
    &&& c.dom().contains(utf8("node_types"@)) && c[utf8("node_types"@)] == Val::Types(types(file))
    &&& c.dom().contains(utf8("lex_rules"@)) && c[utf8("lex_rules"@)] == Val::Tokens(lexer(tokens(file), tokens(file).len() as int))
    &&& c.dom().contains(utf8("parser_json"@)) && (c[utf8("parser_json"@)] matches Val::Text(s) && parsed(s) == Some(es) && forall|i: int| !#[trigger] occurs(s, utf8("\"##"@), i))
}
pub open spec fn template_key(k: Seq<u8>) -> bool { k == utf8("node_types"@) || k == utf8("lex_rules"@) || k == utf8("parser_json"@) }
pub proof fn lemma_keys()
    ensures
        utf8("node_types"@) != utf8("lex_rules"@), utf8("node_types"@) != utf8("parser_json"@), utf8("lex_rules"@) != utf8("parser_json"@),
        !template_key(utf8("verbatim"@)), !template_key(utf8("has_whitespace_binder"@)),
{
    axiom_utf8();
    reveal_strlit("node_types"); reveal_strlit("lex_rules"); reveal_strlit("parser_json"); reveal_strlit("verbatim"); reveal_strlit("has_whitespace_binder");
    assert("node_types"@.len() == 10 && "lex_rules"@.len() == 9 && "parser_json"@.len() == 11 && "verbatim"@.len() == 8 && "has_whitespace_binder"@.len() == 21);
}
impl<'a, 'f> Codegen<'a, 'f> {
    /// the expression of a rule is put in its place
    pub proof fn lemma_put(g1: Self, g2: Self, i: int)
        requires g1.inv(), g2.analysis == g1.analysis, g2.node_types == g1.node_types, g2.src@ == g1.src@, 0 <= i < n_rules(g1.f()), g2.expressions@ == g1.expressions@.update(i, g2.expressions@[i])
        ensures g2.inv()
    {
        reveal(Codegen::inv);
        assert forall|r: int| n_rules(g1.f()) <= r < g2.src@.len() implies stands(g1.f(), g2.src@, #[trigger] g2.src@[r], g2.expressions@[r], r) by {
            assert(stands(g1.f(), g1.src@, g1.src@[r], g1.expressions@[r], r));
        }
    }
    pub open spec fn so_far(self, k: int) -> bool {
        &&& forall|i: int| 0 <= i < rules(self.f()).len() ==> #[trigger] self.src@[i] == Src::Rule(rules(self.f())[i])
        &&& forall|i: int| 0 <= i < k ==> stands(self.f(), self.src@, #[trigger] self.src@[i], self.expressions@[i], self.src@.len() as int)
    }
    pub proof fn lemma_so_far(self, old: Self, k: int)
        requires old.inv(), self.grown(old), old.so_far(k), 0 <= k <= rules(old.f()).len()
        ensures self.so_far(k), self.f() == old.f()
    {
        old.lemma_inv(); self.lemma_inv();
        assert forall|i: int| 0 <= i < rules(self.f()).len() implies #[trigger] self.src@[i] == Src::Rule(rules(self.f())[i]) by { assert(old.src@[i] == self.src@[i]); }
        assert forall|i: int| 0 <= i < k implies stands(self.f(), self.src@, #[trigger] self.src@[i], self.expressions@[i], self.src@.len() as int) by {
            assert(old.src@[i] == self.src@[i]);
            assert(old.expressions@[i] == self.expressions@[i]);
            lemma_more(self.f(), old.src@, self.src@, old.src@[i], old.expressions@[i], old.src@.len() as int, self.src@.len() as int);
        }
    }
    pub proof fn lemma_denotes(self)
        requires self.inv(), self.so_far(rules(self.f()).len() as int)
        ensures denotes(self.f(), self.src@, self.expressions@)
    {
        reveal(Codegen::inv); reveal(denotes);
    }
    /// what is for the accessors of the syntax tree
    #[verifier::external_body]
    pub fn ast_part(&self, context: &mut Context) -> (r: Result<()>) requires self.wf()
        ensures r.is_err() ==> ast_fails(self.f()), forall|k: Seq<u8>| #[trigger] template_key(k) ==> final(context)@.dom().contains(k) == old(context)@.dom().contains(k) && final(context)@[k] == old(context)@[k] { unimplemented!() }
//@rewrite0 serde_json : : to_string ( & self . expressions ) . unwrap ( ) ==> to_json ( & self . expressions )
//@rewrite0 format ! ( "{:?}" , re ) ==> debug_str ( & re )
//@rewrite0 if let Some ( ast ) = self . file ( ) . ast_def ( ) { $B } ==> self . ast_part ( & mut context ) ? ;
//@rewrite0 self . file ( ) . verbatim_def ( ) . map ( | v | v . contents ( ) ) ==> self . file ( ) . verbatim ( )
//@rewrite0 & verbatim . map ( | t | t . contains ( "whitespace_binder" ) ) . unwrap_or ( false ) ==> & has_binder ( & verbatim )
//@fn fall/gen/src/generate/codegen.rs Codegen::generate
«#[verifier::spinoff_prover]»
    pub fn generate(&mut self) -> «(r:» Result<Context> «)
        requires old(self).wf(), old(self).expressions@.len() == 0, old(self).src@.len() == 0
        ensures final(self).f() == old(self).f(), match r { Ok(c) => generated(old(self).f(), final(self).src@, final(self).expressions@, c@), Err(_) => gen_fails(old(self).f()) }» {
        «let ghost f = self.f(); let ghost g0 = *self; let ghost all = rules(f);
        proof { reveal(whole); lemma_rules(f); lemma_syn_rules(f); lemma_tokens(f); lemma_keys(); assert(all.len() < u32::MAX && f.wf()); assert(n_rules(f) == all.len()); }»
        let mut context = Context::new();
        context.insert(strlit("node_types"), &self.node_types);
        «let ghost c1 = context@; proof { assert(self.node_types.val() == Val::Types(types(f))) by { assert(self.node_types.val()->Types_0 =~= types(f)); } } let ghost mut k = 0int;»
        {
            let mut it__0 = self.file().syn_rules();
            loop
            «invariant_except_break it__0.wf(), 0 <= k <= all.len(), it__0.rest() == all.skip(k), self.expressions@.len() == k, self.src@.len() == k
             invariant all == rules(f), self.f() == f, self.analysis == g0.analysis, self.node_types == g0.node_types, self.wf(), forall|i: int| 0 <= i < self.src@.len() ==> #[trigger] self.src@[i] == Src::Rule(all[i])
             ensures self.expressions@.len() == all.len(), self.src@.len() == all.len()
             decreases it__0.left()»
            {
                «let ghost r0 = it__0.rest();»
                if let Some(x__0) = it__0.next() {
                    «proof { lemma_step(all, k, r0, x__0, it__0.rest()); k = k + 1; self.src = Ghost(self.src@.push(Src::Rule(all[k - 1]))); }»
                    self.expressions.push(dst::Expr::Any)
                } else {
                    «proof { assert(k == all.len()); }»
                    break;
                }
            }
        }
        «proof { reveal(Codegen::inv); assert(self.inv()); } let ghost mut k = 0int;»
        {
            let mut it__1 = self.file().syn_rules();
            let mut n__0: usize = 0;
            loop
            «invariant_except_break it__1.wf(), 0 <= k <= all.len(), it__1.rest() == all.skip(k), n__0 == k, self.so_far(k)
             invariant all == rules(f), n_rules(f) == all.len(), all.len() < u32::MAX, f == old(self).f(), self.f() == f, self.analysis == g0.analysis, self.node_types == g0.node_types, self.inv(), forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).wf()
             ensures self.so_far(all.len() as int)
             decreases it__1.left()»
            {
                «let ghost r0 = it__1.rest(); let ghost g1 = *self;»
                if let Some(x__1) = it__1.next() {
                    «proof { lemma_step(all, k, r0, x__1, it__1.rest()); k = k + 1; assert(all[k - 1] == x__1); assert(all.contains(x__1)); self.lemma_inv(); }»
                    let t__1 = (n__0, x__1);
                    n__0 = n__0 + 1;
                    let i = t__1.0;
                    let r = t__1.1;
                    let expr = self.gen_rule(r)?;
                    «let ghost g2 = *self; proof { g2.lemma_inv(); g2.lemma_so_far(g1, k - 1); }»
                    self.expressions[i] = expr;
                    «proof { Codegen::lemma_put(g2, *self, i as int); assert(self.src@[i as int] == Src::Rule(r)); }»
                } else {
                    «proof { assert(k == all.len()); }»
                    break;
                }
            }
        }
        «proof { self.lemma_inv(); self.lemma_denotes(); axiom_json(self.expressions@); }»
        let parser = to_json(&self.expressions).replace(strlit("\"#"), strlit("\"\\u0023"));
        context.insert(strlit("parser_json"), &parser);
        «let ghost ts = tokens(f); let ghost mut k = 0int; proof { assert(lexer(ts, 0) =~= Seq::empty()); }»
        let lex_rules = {
            let mut r__2 «: Vec<CtxLexRule<'f>>» = Vec::new();
            let mut it__2 = match self.file().tokenizer_def() { Some(v__3) => Ok(v__3), None => Err(verror()) }?.lex_rules();
            loop
            «invariant_except_break it__2.wf(), 0 <= k <= ts.len(), it__2.rest() == ts.skip(k), toks_are(r__2@, lexer(ts, k))
             invariant ts == tokens(f), f == old(self).f(), self.f() == f, f.wf(), forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).wf()
             ensures toks_are(r__2@, lexer(ts, ts.len() as int))
             decreases it__2.left()»
            {
                «let ghost r0 = it__2.rest();»
                if let Some(x__2) = it__2.next() {
                    «proof { lemma_step(ts, k, r0, x__2, it__2.rest()); k = k + 1; assert(ts[k - 1].wf() && ts[k - 1] == x__2); }»
                    let r = &x__2;
                    if !r.is_contextual() {
                        let r = x__2;
                        r__2.push({
                            let re = match r.token_re() { Some(v__4) => Ok(v__4), None => Err(verror()) }?;
                            Ok(CtxLexRule { ty: r.node_type(), re: debug_str(&re), f: r.extern_fn() })
                        }?);
                    }
                } else {
                    «proof { assert(k == ts.len()); }»
                    break;
                }
            }
            r__2
        };
        «proof { assert(lex_rules.val()->Tokens_0 =~= lexer(ts, ts.len() as int)); }»
        context.insert(strlit("lex_rules"), &lex_rules);
        let verbatim = self.file().verbatim();
        context.insert(strlit("verbatim"), &verbatim);
        context.insert(strlit("has_whitespace_binder"), &has_binder(&verbatim));
        «let ghost c2 = context@;»
        self.ast_part(&mut context)?;
        «proof { assert(template_key(utf8("node_types"@)) && template_key(utf8("lex_rules"@)) && template_key(utf8("parser_json"@))); }»
        Ok(context)
    }
//@end
}
pub open spec fn toks_are<'f>(v: Seq<CtxLexRule<'f>>, s: Seq<Tok>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < v.len() ==> tok_val(#[trigger] v[i]) == s[i] }
} // mod
} // verus!
