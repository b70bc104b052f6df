// The regex lexer: fall/parse/src/lib.rs.  The engine (crate m_lexer) is a dependency: its
// documented behaviour is assumed.
//@owner C03
//@rewrite m_lexer :: LexerBuilder ==> MLexerBuilder
//@rewrite m_lexer :: Lexer ==> MLexer
//@rewrite m_lexer :: TokenKind ==> TokenKind
//@rewrite m_lexer :: ExternRule ==> CustomLexRule
//@rewrite Box :: new ( f ) ==> f
verus! {

/// `fn(&str) -> Option<usize>`
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct CustomLexRule { x: u8 }

/// length of the match of a regular expression at the start of a text
pub uninterp spec fn re_len(re: Seq<u8>, s: Seq<u8>) -> Option<nat>;
/// what a custom rule function returns
pub uninterp spec fn custom_len(f: CustomLexRule, s: Seq<u8>) -> Option<nat>;
/// how much the engine skips when no rule matches
pub uninterp spec fn error_len(rules: Seq<MRule>, s: Seq<u8>) -> nat;

pub struct MRule { pub kind: u16, pub re: Seq<u8>, pub f: Option<CustomLexRule> }

/// rule `i` has the longest match, and comes first among these
pub open spec fn wins(rules: Seq<MRule>, s: Seq<u8>, i: int) -> bool {
    0 <= i < rules.len() && re_len(rules[i].re, s).is_some()
    && (forall|j: int| 0 <= j < rules.len() && (#[trigger] re_len(rules[j].re, s)).is_some() ==>
        re_len(rules[j].re, s)->0 <= re_len(rules[i].re, s)->0 && (j < i ==> re_len(rules[j].re, s)->0 < re_len(rules[i].re, s)->0))
}
/// the rule that applies and the length of its match; a custom function may override the length or reject
pub open spec fn m_match(rules: Seq<MRule>, s: Seq<u8>) -> Option<(int, nat)> {
    if exists|i: int| wins(rules, s, i) {
        let i = choose|i: int| wins(rules, s, i);
        let n = match rules[i].f { Some(f) => custom_len(f, s), None => re_len(rules[i].re, s) };
        match n { Some(n) => Some((i, n)), None => None }
    } else {
        None
    }
}
pub proof fn lemma_wins_unique(rules: Seq<MRule>, s: Seq<u8>, i: int, j: int)
    requires wins(rules, s, i), wins(rules, s, j)
    ensures i == j
{
    assert(re_len(rules[j].re, s).is_some());
    assert(re_len(rules[i].re, s).is_some());
}
/// "whose rules match non-empty text" of the property
pub open spec fn rules_ok(rules: Seq<MRule>) -> bool {
    forall|s: Seq<u8>| s.len() > 0 ==> match #[trigger] m_match(rules, s) { Some((i, n)) => 0 < n <= s.len() && bnd(s, n as int), None => true }
}
#[verifier::external_body]
pub proof fn axiom_error_len(rules: Seq<MRule>, s: Seq<u8>)
    ensures s.len() > 0 ==> 0 < error_len(rules, s) <= s.len() && bnd(s, error_len(rules, s) as int)
{
}

#[derive(Clone, Copy)]
pub struct TokenKind(pub u16);
pub struct MToken { pub kind: TokenKind, pub len: usize }

#[verifier::external_body]
pub struct MLexerBuilder { x: u8 }
#[verifier::external_body]
pub struct MLexer { x: u8 }
impl MLexerBuilder {
    pub uninterp spec fn rules(&self) -> Seq<MRule>;
    pub uninterp spec fn error(&self) -> Option<u16>;
    #[verifier::external_body]
    pub fn new() -> (r: MLexerBuilder) ensures r.rules().len() == 0, r.error().is_none() { unimplemented!() }
    #[verifier::external_body]
    pub fn error_token(self, kind: TokenKind) -> (r: MLexerBuilder) ensures r.rules() == self.rules(), r.error() == Some(kind.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn rule(self, kind: TokenKind, re: &Str, f: Option<CustomLexRule>) -> (r: MLexerBuilder)
        ensures r.rules() == self.rules().push(MRule { kind: kind.0, re: re@, f: f }), r.error() == self.error()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: MLexer) requires self.error().is_some() ensures r.rules() == self.rules(), r.error() == self.error()->0 { unimplemented!() }
}
impl MLexer {
    pub uninterp spec fn rules(&self) -> Seq<MRule>;
    pub uninterp spec fn error(&self) -> u16;
    #[verifier::external_body]
    pub fn next_token(&self, input: &Str) -> (r: MToken)
        requires input@.len() > 0, rules_ok(self.rules())
        ensures match m_match(self.rules(), input@) {
            Some((i, n)) => r.kind.0 == self.rules()[i].kind && r.len == n,
            None => r.kind.0 == self.error() && r.len == error_len(self.rules(), input@),
        }
    { unimplemented!() }
}

//@item fall/parse/src/lib.rs struct:LexRule
pub struct LexRule {
    pub ty: NodeType,
    pub re: Str,
    pub f: Option<CustomLexRule>,
}
//@end

//@item fall/parse/src/lib.rs struct:RegexLexer
pub struct RegexLexer {
    pub tys: Vec<NodeType>,
    pub lexer: MLexer,
}
//@end

/// what the engine is given for a list of lexical rules
pub open spec fn m_rules(rules: Seq<LexRule>) -> Seq<MRule> {
    Seq::new(rules.len(), |i: int| MRule { kind: (i + 1) as u16, re: rules[i].re@, f: rules[i].f })
}

impl RegexLexer {
    pub open spec fn wf(&self) -> bool {
        self.tys@.len() == self.lexer.rules().len() + 1 && self.tys@[0] == ERROR && self.lexer.error() == 0
        && (forall|i: int| 0 <= i < self.lexer.rules().len() ==> (#[trigger] self.lexer.rules()[i]).kind == i + 1)
    }

//@fn fall/parse/src/lib.rs RegexLexer::new
    pub fn new(rules: Vec<LexRule>) -> «(r:» RegexLexer «)
        requires rules@.len() < 65535
        ensures r.wf(), r.lexer.rules() == m_rules(rules@), forall|i: int| 0 <= i < rules@.len() ==> #[trigger] r.tys@[i + 1] == rules@[i].ty» {
        let mut tys = Vec::new();
        tys.push(ERROR);
        let mut builder = MLexerBuilder::new().error_token(TokenKind(0));
        {
            let mut i__0: usize = 0;
            while i__0 < rules.len()
            «invariant i__0 <= rules@.len(), rules@.len() < 65535, tys@.len() == i__0 + 1, tys@[0] == ERROR, builder.error() == Some(0u16),
                builder.rules() == m_rules(rules@.take(i__0 as int)),
                forall|i: int| 0 <= i < i__0 ==> #[trigger] tys@[i + 1] == rules@[i].ty
             decreases rules@.len() - i__0»
            {
                let j__0 = i__0;
                i__0 = i__0 + 1;
                let rule = &rules[j__0];
                builder = builder.rule(TokenKind(tys.len() as u16), &rule.re, match rule.f {
                    Some(v__0) => Some({
                        let f = v__0;
                        {
                            let f: CustomLexRule = f;
                            f
                        }
                    }),
                    None => None
                },);
                tys.push(rule.ty);
                «proof { assert(builder.rules() =~= m_rules(rules@.take(i__0 as int))); }»
            }
        }
        «proof { assert(rules@.take(rules@.len() as int) =~= rules@); }»
        RegexLexer {
            tys, lexer: builder.build()
        }
    }
//@end
}

impl Lexer for RegexLexer {
    open spec fn ok(&self) -> bool { self.wf() && rules_ok(self.lexer.rules()) }
    /// C03: the longest match of the first such rule, otherwise an error token
    open spec fn tok(&self, s: Seq<u8>) -> Token {
        match m_match(self.lexer.rules(), s) {
            Some((i, n)) => Token { ty: self.tys@[i + 1], len: TextUnit(n as u32) },
            None => Token { ty: ERROR, len: TextUnit(error_len(self.lexer.rules(), s) as u32) },
        }
    }
    proof fn tok_ok(&self, s: Seq<u8>) {
        axiom_error_len(self.lexer.rules(), s);
        let _ = m_match(self.lexer.rules(), s);
    }
//@fn fall/parse/src/lib.rs <RegexLexer as Lexer>::next_token
    fn next_token(&self, text: Text) -> Token {
        «proof { axiom_error_len(self.lexer.rules(), text@); let _ = m_match(self.lexer.rules(), text@); }»
        let m_token = self.lexer.next_token(text.to_cow().as_ref());
        let ty = self.tys[m_token.kind.0 as usize];
        let len = tu(m_token.len as u32);
        Token { ty, len }
    }
//@end
}

} // verus!
