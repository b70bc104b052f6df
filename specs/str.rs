// std::string::String / str as byte strings.  Everything here is an assumption about std.
verus! {

/// `String` and `str` (rewritten to this type): a sequence of UTF-8 bytes
#[verifier::external_body]
pub struct Str { s: String }

impl View for Str {
    type V = Seq<u8>;
    uninterp spec fn view(&self) -> Seq<u8>;
}

/// str::is_char_boundary
pub open spec fn bnd(s: Seq<u8>, i: int) -> bool {
    0 <= i <= s.len() && (i == 0 || i == s.len() || !(0x80 <= s[i] <= 0xBF))
}

/// `needle` occurs in `s` at `i`
pub open spec fn occurs(s: Seq<u8>, n: Seq<u8>, i: int) -> bool {
    0 <= i && i + n.len() <= s.len() && s.subrange(i, i + n.len()) == n
}

/// every character of `s` is whitespace
pub uninterp spec fn all_ws(s: Seq<u8>) -> bool;
/// a character that is not whitespace starts at `i`, and is `char_len(s, i)` bytes long
pub uninterp spec fn non_ws_at(s: Seq<u8>, i: int) -> bool;
pub uninterp spec fn char_len(s: Seq<u8>, i: int) -> int;
/// str comparison (lexicographic on bytes)
pub uninterp spec fn str_cmp(a: Seq<u8>, b: Seq<u8>) -> Ordering;

impl Str {
    #[verifier::external_body]
    pub fn new() -> (r: Str) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str(&mut self, o: &Str) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &Str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with(&self, p: &Str) -> (r: bool) ensures r == occurs(self@, p@, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn ends_with(&self, p: &Str) -> (r: bool) ensures r == occurs(self@, p@, self@.len() - p@.len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, p: &Str) -> (r: bool) ensures r == (exists|i: int| occurs(self@, p@, i)) { unimplemented!() }
    #[verifier::external_body]
    pub fn find(&self, p: &Str) -> (r: Option<usize>)
        ensures match r {
            Some(i) => occurs(self@, p@, i as int) && forall|j: int| occurs(self@, p@, j) ==> i <= j,
            None => forall|j: int| !occurs(self@, p@, j),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rfind(&self, p: &Str) -> (r: Option<usize>)
        ensures match r {
            Some(i) => occurs(self@, p@, i as int) && forall|j: int| occurs(self@, p@, j) ==> j <= i,
            None => forall|j: int| !occurs(self@, p@, j),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find_non_ws(&self) -> (r: Option<usize>)
        ensures match r {
            Some(i) => i < self@.len() && bnd(self@, i as int) && non_ws_at(self@, i as int) && all_ws(self@.subrange(0, i as int)),
            None => all_ws(self@),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rfind_non_ws(&self) -> (r: Option<usize>)
        ensures match r {
            Some(i) => i < self@.len() && bnd(self@, i as int) && non_ws_at(self@, i as int)
                && 0 < char_len(self@, i as int) && i + char_len(self@, i as int) <= self@.len()
                && bnd(self@, i + char_len(self@, i as int))
                && all_ws(self@.subrange(i + char_len(self@, i as int), self@.len() as int)),
            None => all_ws(self@),
        }
    { unimplemented!() }
    /// `&self[from..]`
    #[verifier::external_body]
    pub fn from(&self, a: usize) -> (r: &Str)
        requires bnd(self@, a as int)
        ensures r@ == self@.subrange(a as int, self@.len() as int)
    { unimplemented!() }
    /// `&self[a..b]`
    #[verifier::external_body]
    pub fn sub(&self, a: usize, b: usize) -> (r: &Str)
        requires a <= b, bnd(self@, a as int), bnd(self@, b as int)
        ensures r@ == self@.subrange(a as int, b as int)
    { unimplemented!() }
    /// `self[i..].chars().next().unwrap().len_utf8()`
    #[verifier::external_body]
    pub fn char_len_at(&self, i: usize) -> (r: usize)
        requires i < self@.len(), bnd(self@, i as int)
        ensures r == char_len(self@, i as int)
    { unimplemented!() }
}

// comparison of strings: by bytes
impl PartialEq for Str {
    #[verifier::external_body]
    fn eq(&self, other: &Str) -> bool { unimplemented!() }
}
impl Eq for Str {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Str {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Str) -> bool { self@ == other@ }
}
impl PartialOrd for Str {
    #[verifier::external_body]
    fn partial_cmp(&self, other: &Str) -> Option<Ordering> { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Str {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Str) -> Option<Ordering> { Some(str_cmp(self@, other@)) }
}
impl Ord for Str {
    #[verifier::external_body]
    fn cmp(&self, other: &Str) -> Ordering { unimplemented!() }
}
impl vstd::std_specs::cmp::OrdSpecImpl for Str {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &Str) -> Ordering { str_cmp(self@, other@) }
}

} // verus!
