// Lines and columns: lang/rust/src/editor/line_index.rs
//@owner C17
//@rewrite vec ! [ $e ] ==> vec_of ( $e )
//@rewrite $c . len_utf8 ( ) ==> len_utf8 ( $c )
//@rewrite self . newlines . upper_bound ( $e ) ==> upper_bound ( & self . newlines , $e )
verus! {

/// `vec![x]`
pub fn vec_of<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] {
    let mut r = Vec::new();
    r.push(x);
    r
}

// ---- std: the characters of a string
pub uninterp spec fn utf8_len(c: char) -> int;
#[verifier::external_body]
pub fn len_utf8(c: char) -> (r: usize) ensures r == utf8_len(c) { unimplemented!() }

/// str::chars
#[verifier::external_body]
pub struct Chars { x: u8 }
impl Chars {
    pub uninterp spec fn text(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures final(self).text() == old(self).text(),
            match r {
                // the character that starts at the position; the byte 10 is the character '\n' and part of no other
                Some(c) => 0 <= old(self).pos() < old(self).text().len() && 1 <= utf8_len(c) <= 4 && final(self).pos() == old(self).pos() + utf8_len(c)
                    && final(self).pos() <= old(self).text().len()
                    && (c == '\n' ==> utf8_len(c) == 1) && (c == '\n') == (old(self).text()[old(self).pos()] == 10)
                    && forall|j: int| old(self).pos() < j < final(self).pos() ==> #[trigger] old(self).text()[j] != 10,
                None => old(self).pos() == old(self).text().len() && final(self).pos() == old(self).pos(),
            }
    { unimplemented!() }
}
impl Str {
    #[verifier::external_body]
    pub fn chars(&self) -> (r: Chars) ensures r.text() == self@, r.pos() == 0 { unimplemented!() }
}

// ---- ordslice
pub open spec fn sorted(s: Seq<TextUnit>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0 }
/// the number of elements that are not above `x`, in a sorted vector
#[verifier::external_body]
pub fn upper_bound(s: &Vec<TextUnit>, x: &TextUnit) -> (r: usize)
    requires sorted(s@)
    ensures r <= s@.len(), forall|i: int| 0 <= i < r ==> (#[trigger] s@[i]).0 <= x.0, forall|i: int| r <= i < s@.len() ==> (#[trigger] s@[i]).0 > x.0
{ unimplemented!() }

// ---- lines
/// the number of newline characters among the first `n` bytes
pub open spec fn newlines_before(t: Seq<u8>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else if n <= t.len() && t[n - 1] == 10 { newlines_before(t, n - 1) + 1 } else { newlines_before(t, n - 1) }
}
/// where the line that holds offset `n` starts
pub open spec fn line_start(t: Seq<u8>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else if n <= t.len() && t[n - 1] == 10 { n } else { line_start(t, n - 1) }
}
/// the starts of the lines of the first `n` bytes
pub open spec fn starts(t: Seq<u8>, n: int) -> Seq<int>
    decreases n
{
    if n <= 0 { seq![0] } else if n <= t.len() && t[n - 1] == 10 { starts(t, n - 1).push(n) } else { starts(t, n - 1) }
}
pub open spec fn vals(s: Seq<TextUnit>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].0 as int) }

pub proof fn lemma_starts(t: Seq<u8>, n: int)
    requires 0 <= n
    ensures
        starts(t, n).len() == newlines_before(t, n) + 1, newlines_before(t, n) >= 0, starts(t, n)[0] == 0,
        starts(t, n).last() == line_start(t, n),
        forall|i: int| 0 <= i < starts(t, n).len() ==> 0 <= #[trigger] starts(t, n)[i] <= n,
        forall|i: int, j: int| 0 <= i < j < starts(t, n).len() ==> #[trigger] starts(t, n)[i] < #[trigger] starts(t, n)[j],
    decreases n
{
    if n > 0 { lemma_starts(t, n - 1); }
}
/// the lines of a shorter prefix are the first ones
pub proof fn lemma_starts_prefix(t: Seq<u8>, m: int, n: int)
    requires 0 <= m <= n
    ensures
        starts(t, m).len() <= starts(t, n).len(),
        forall|i: int| 0 <= i < starts(t, m).len() ==> #[trigger] starts(t, n)[i] == starts(t, m)[i],
        forall|i: int| starts(t, m).len() <= i < starts(t, n).len() ==> #[trigger] starts(t, n)[i] > m,
    decreases n - m
{
    if m < n {
        lemma_starts_prefix(t, m, n - 1);
        lemma_starts(t, n - 1);
    }
}
/// beyond the end of the text there are no further lines
pub proof fn lemma_starts_end(t: Seq<u8>, n: int)
    requires t.len() <= n
    ensures starts(t, n) == starts(t, t.len() as int), newlines_before(t, n) == newlines_before(t, t.len() as int), line_start(t, n) == line_start(t, t.len() as int)
    decreases n
{
    if t.len() < n { lemma_starts_end(t, n - 1); }
}
pub proof fn lemma_no_newline(t: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= t.len(), forall|j: int| a < j < b ==> #[trigger] t[j] != 10
    ensures a < b ==> starts(t, b) == starts(t, a + 1)
    decreases b - a
{
    if a + 1 < b { lemma_no_newline(t, a, b - 1); assert(t[b - 1] != 10); }
}

//@item lang/rust/src/editor/line_index.rs struct:LineIndex
pub struct LineIndex {
    pub newlines: Vec<TextUnit>,
}
//@end
//@item lang/rust/src/editor/line_index.rs struct:LineCol
«#[derive(Clone, Copy)]»
pub struct LineCol {
    pub line: u32,
    pub col: u32,
}
//@end

impl LineIndex {
    /// the index of the text `t`
    pub open spec fn of(self, t: Seq<u8>) -> bool { vals(self.newlines@) == starts(t, t.len() as int) && t.len() <= u32::MAX }

//@fn lang/rust/src/editor/line_index.rs LineIndex::new
    pub fn new(text: Text) -> «(r:» LineIndex «) requires text.wf(), text.bounded() ensures r.of(text@)» {
        let mut newlines = vec_of(tu(0));
        let mut curr = tu(0);
        «proof { assert(vals(newlines@) =~= starts(text@, 0)); }»
        {
            let mut it__0 = text.to_string().chars();
            loop
            «invariant it__0.text() == text@, curr.0 == it__0.pos(), 0 <= it__0.pos() <= text@.len() <= u32::MAX, vals(newlines@) =~= starts(text@, curr.0 as int)
             ensures it__0.pos() == text@.len()
             decreases text@.len() - it__0.pos()»
            {
                «let ghost p = it__0.pos();»
                if let Some(x__0) = it__0.next() {
                    let c = x__0;
                    «proof { lemma_no_newline(text@, p, p + utf8_len(c)); }»
                    curr += tu(len_utf8(c) as u32);
                    if c == '\n' {
                        newlines.push(curr);
                    }
                    «proof { assert(vals(newlines@) =~= starts(text@, curr.0 as int)); }»
                } else {
                    break;
                }
            }
        }
        LineIndex { newlines }
    }
//@end

//@fn lang/rust/src/editor/line_index.rs LineIndex::translate
    pub fn translate(&self, offset: TextUnit) -> «(r:» LineCol «)
        requires exists|t: Seq<u8>| self.of(t)
        ensures
            forall|t: Seq<u8>| #[trigger] self.of(t) ==> r.line == newlines_before(t, offset.0 as int) && r.col == offset.0 - line_start(t, offset.0 as int)
                && line_start(t, offset.0 as int) + r.col == offset.0» {
        «proof {
            let t = choose|t: Seq<u8>| self.of(t);
            let n = t.len() as int;
            lemma_starts(t, n);
            assert forall|i: int| 0 <= i < self.newlines@.len() implies (#[trigger] self.newlines@[i]).0 == starts(t, n)[i] by { assert(vals(self.newlines@)[i] == starts(t, n)[i]); }
            assert(sorted(self.newlines@));
            assert(vals(self.newlines@).len() == starts(t, n).len());
            assert(self.newlines@.len() > 0);
            assert(self.newlines@[0].0 == 0);
        }»
        let line = upper_bound(&self.newlines, &offset) - 1;
        let line_start_offset = self.newlines[line];
        «proof {
            let off = offset.0 as int;
            assert forall|t: Seq<u8>| #[trigger] self.of(t) implies line == newlines_before(t, off) && line_start_offset.0 == line_start(t, off) && newlines_before(t, off) <= u32::MAX by {
                let n = t.len() as int;
                lemma_starts(t, n);
                lemma_starts(t, off);
                assert forall|i: int| 0 <= i < self.newlines@.len() implies (#[trigger] self.newlines@[i]).0 == starts(t, n)[i] by { assert(vals(self.newlines@)[i] == starts(t, n)[i]); }
                assert(self.newlines@.len() == starts(t, n).len());
                if off <= n { lemma_starts_prefix(t, off, n); } else { lemma_starts_end(t, off); }
                let k = starts(t, off).len() as int;
                assert(starts(t, off)[k - 1] <= off);
                assert(line + 1 <= k) by { if line + 1 > k { assert(self.newlines@[k].0 == starts(t, n)[k]); } }
                assert(line + 1 >= k) by { if line + 1 < k { assert(self.newlines@[k - 1].0 == starts(t, n)[k - 1]); } }
                assert(self.newlines@[k - 1].0 == starts(t, n)[k - 1]);
                lemma_few_lines(t, off);
            }
        }»
        let col = offset - line_start_offset;
        return LineCol { line: line as u32, col: col.into() }
    }
//@end
}
pub proof fn lemma_few_lines(t: Seq<u8>, n: int)
    requires 0 <= n
    ensures newlines_before(t, n) <= n
    decreases n
{
    if n > 0 { lemma_few_lines(t, n - 1); }
}

} // verus!
