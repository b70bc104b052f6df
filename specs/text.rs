// Texts, slices, buffers: fall/text/src/text.rs, text_slice.rs, text_buf.rs
//@owner C08
//@rewrite String ==> Str
//@rewrite & 'f str ==> & 'f Str
//@rewrite & str ==> & Str
//@rewrite & 's str ==> & 's Str
//@rewrite Cow < 'f , Str > ==> & 'f Str
//@rewrite Cow < 'f , str > ==> & 'f Str
verus! {

//@item fall/text/src/text.rs struct:Text
«#[derive(Clone, Copy)]»
pub struct Text<'f> {
    pub owned: &'f Str,
    pub range: TextRange
}
//@end

impl<'f> View for Text<'f> {
    type V = Seq<u8>;
    /// the string the slice denotes
    open spec fn view(&self) -> Seq<u8> { self.owned@.subrange(self.range.start.0 as int, self.range.end.0 as int) }
}

impl<'f> Text<'f> {
    pub open spec fn wf(self) -> bool { self.range.wf() && self.range.end.0 <= self.owned@.len() }
    /// both ends fall on character boundaries
    pub open spec fn bounded(self) -> bool { bnd(self.owned@, self.range.start.0 as int) && bnd(self.owned@, self.range.end.0 as int) }
}

/// what a slicing request means for a text of length `len`
pub trait TextSlice: Copy {
    spec fn ok(self, len: int) -> bool;
    spec fn from_(self, len: int) -> int;
    spec fn to_(self, len: int) -> int;
    fn into_proper_range(self, text: Text) -> (r: TextRange)
        requires text.wf(), self.ok(text@.len() as int)
        ensures r.wf(), r.start.0 == self.from_(text@.len() as int), r.end.0 == self.to_(text@.len() as int);
}

impl TextSlice for TextRange {
    open spec fn ok(self, len: int) -> bool { self.wf() }
    open spec fn from_(self, len: int) -> int { self.start.0 as int }
    open spec fn to_(self, len: int) -> int { self.end.0 as int }
//@fn fall/text/src/text_slice.rs <TextRange as TextSlice>::into_proper_range
    fn into_proper_range(self, _text: Text) -> TextRange {
        self
    }
//@end
}

//@item fall/text/src/text_slice.rs struct:TextSuffix
«#[derive(Clone, Copy)]»
pub struct TextSuffix(pub TextUnit);
//@end

impl TextSuffix {
//@fn fall/text/src/text_slice.rs TextSuffix::from
    pub fn from(offset: TextUnit) -> «(r:» TextSuffix «) ensures r.0 == offset» {
        TextSuffix(offset)
    }
//@end
}

impl TextSlice for TextSuffix {
    open spec fn ok(self, len: int) -> bool { self.0.0 <= len }
    open spec fn from_(self, len: int) -> int { self.0.0 as int }
    open spec fn to_(self, len: int) -> int { len }
//@fn fall/text/src/text_slice.rs <TextSuffix as TextSlice>::into_proper_range
    fn into_proper_range(self, text: Text) -> TextRange {
        TextRange::from_to(self.0, text.len())
    }
//@end
}

impl vstd::std_specs::core::IndexSpecImpl<TextRange> for Str {
    open spec fn index_req(&self, index: &TextRange) -> bool { index.wf() && bnd(self@, index.start.0 as int) && bnd(self@, index.end.0 as int) }
}
impl std::ops::Index<TextRange> for Str {
    type Output = Str;
//@rewrite1 & self [ $a .. $b ] ==> self . sub ( $a , $b )
//@fn fall/text/src/text_range.rs <String as Index<TextRange>>::index
    fn index(&self, index: TextRange) -> «(r:» &Str «) ensures r@ == self@.subrange(index.start.0 as int, index.end.0 as int)» {
        self.sub(index.start().0 as usize, index.end().0 as usize)
    }
//@end
}

impl<'f> Text<'f> {
//@fn fall/text/src/text.rs Text::len
    pub fn len(&self) -> «(r:» TextUnit «) requires self.wf() ensures r.0 == self@.len()» {
        self.range.end() - self.range.start()
    }
//@end

//@fn fall/text/src/text.rs Text::is_empty
    pub fn is_empty(self) -> «(r:» bool «) requires self.wf() ensures r == (self@.len() == 0)» { self.range.is_empty() }
//@end

//@fn fall/text/src/text.rs Text::slice
    pub fn slice<S: TextSlice>(&self, slice: S) -> «(r:» Text<'f> «)
        requires self.wf(), slice.ok(self@.len() as int), 0 <= slice.from_(self@.len() as int) <= slice.to_(self@.len() as int) <= self@.len()
        ensures r.wf(), r.owned == self.owned,
            r.range.start.0 == self.range.start.0 + slice.from_(self@.len() as int),
            r.range.end.0 == self.range.start.0 + slice.to_(self@.len() as int),
            r@ == self@.subrange(slice.from_(self@.len() as int), slice.to_(self@.len() as int))» {
        let r = slice.into_proper_range(*self);
        vassert(r.end() <= self.len());
        let start = self.range.start() + r.start();
        vassert(start <= self.range.end());
        «proof {
            let (a, b) = (slice.from_(self@.len() as int), slice.to_(self@.len() as int));
            let (s, e) = (self.range.start.0 as int, self.range.end.0 as int);
            assert(self.owned@.subrange(s + a, s + b) =~= self.owned@.subrange(s, e).subrange(a, b));
        }»
        Text {
            owned: self.owned,
            range: TextRange::from_to(start, start + (r.end() - r.start())),
        }
    }
//@end

//@rewrite1 vassert ==> vguard
//@rewrite1 fn slice ==> fn slice__rejects
//@fn fall/text/src/text.rs Text::slice ## as:Text::slice(rejects) C08
    pub fn slice__rejects<S: TextSlice>(&self, slice: S) -> «(r:» Text<'f> «)
        requires self.wf(), slice.ok(self@.len() as int)
        ensures slice.to_(self@.len() as int) <= self@.len()» {
        let r = slice.into_proper_range(*self);
        vguard(r.end() <= self.len());
        let start = self.range.start() + r.start();
        vguard(start <= self.range.end());
        Text {
            owned: self.owned,
            range: TextRange::from_to(start, start + (r.end() - r.start())),
        }
    }
//@end

//@fn fall/text/src/text.rs Text::starts_with
    pub fn starts_with(&self, prefix: &Str) -> «(r:» bool «) requires self.wf(), self.bounded() ensures r == occurs(self@, prefix@, 0)» {
        self.as_str().starts_with(prefix)
    }
//@end

//@fn fall/text/src/text.rs Text::ends_with
    pub fn ends_with(&self, suffix: &Str) -> «(r:» bool «) requires self.wf(), self.bounded() ensures r == occurs(self@, suffix@, self@.len() - suffix@.len())» {
        self.as_str().ends_with(suffix)
    }
//@end

//@fn fall/text/src/text.rs Text::contains
    pub fn contains(&self, needle: &Str) -> «(r:» bool «) requires self.wf(), self.bounded() ensures r == (exists|i: int| occurs(self@, needle@, i))» {
        self.as_str().contains(needle)
    }
//@end

//@fn fall/text/src/text.rs Text::find
    pub fn find(&self, needle: &Str) -> «(r:» Option<TextUnit> «)
        requires self.wf(), self.bounded()
        ensures match r {
            Some(i) => occurs(self@, needle@, i.0 as int) && forall|j: int| occurs(self@, needle@, j) ==> i.0 <= j,
            None => forall|j: int| !occurs(self@, needle@, j),
        }» {
        match self.as_str().find(needle) {
            Some(v__0) => Some({
                let off = v__0;
                TextUnit(off as u32)
            }),
            None => None
        }
    }
//@end

//@fn fall/text/src/text.rs Text::rfind
    pub fn rfind(&self, needle: &Str) -> «(r:» Option<TextUnit> «)
        requires self.wf(), self.bounded()
        ensures match r {
            Some(i) => occurs(self@, needle@, i.0 as int) && forall|j: int| occurs(self@, needle@, j) ==> j <= i.0,
            None => forall|j: int| !occurs(self@, needle@, j),
        }» {
        match self.as_str().rfind(needle) {
            Some(v__0) => Some({
                let off = v__0;
                TextUnit(off as u32)
            }),
            None => None
        }
    }
//@end

//@rewrite1 . find ( trim__non_ws ) ==> . find_non_ws ( )
//@rewrite1 . rfind ( trim__non_ws ) ==> . rfind_non_ws ( )
//@rewrite1 s [ $x .. ] . chars ( ) . next ( ) . unwrap ( ) . len_utf8 ( ) ==> s . char_len_at ( $x )
//@rewrite1 & $s . as_str ( ) [ $a .. ] ==> $s . as_str ( ) . from ( $a )
//@fn fall/text/src/text.rs Text::trim
    pub fn trim(&self) -> «(r:» Text<'f> «)
        requires self.wf(), self.bounded()
        ensures r.wf(), r.owned == self.owned, self.range.start.0 <= r.range.start.0, r.range.end.0 <= self.range.end.0,
            all_ws(self@.subrange(0, r.range.start.0 - self.range.start.0)),
            all_ws(self@.subrange(r.range.end.0 - self.range.start.0, self@.len() as int)) || all_ws(self@),
            r@.len() > 0 ==> non_ws_at(self@, r.range.start.0 - self.range.start.0)
               && ends_non_ws(self@.subrange(r.range.start.0 - self.range.start.0, self@.len() as int), r@.len() as int),
            r@.len() == 0 ==> all_ws(self@) || all_ws(self@.subrange(r.range.start.0 - self.range.start.0, self@.len() as int))» {
        let left = self.as_str().find_non_ws().unwrap_or(self.as_str().len());
        «assert(left == self@.len() ==> self@.subrange(0, left as int) =~= self@);»
        let s = self.as_str().from(left);
        let right = match s.rfind_non_ws() {
            Some(v__0) => Some({
                let last = v__0;
                «assert(last + char_len(s@, last as int) <= s@.len());»
                last + s.char_len_at(last)
            }),
            None => None
        }.unwrap_or(0);
        «proof {
            assert(s@ =~= self@.subrange(left as int, self@.len() as int));
            assert(s@.subrange(right as int, s@.len() as int) =~= self@.subrange(left + right, self@.len() as int));
            assert(right == 0 ==> self@.subrange(left as int, self@.len() as int) =~= s@);
        }»
        self.slice(TextRange::from_to(TextUnit(left as u32), TextUnit((left + right) as u32)))
    }
//@end

//@fn fall/text/src/text.rs Text::to_string
    pub fn to_string(&self) -> «(r:» Str «) requires self.wf(), self.bounded() ensures r@ == self@» {
        self.as_str().to_owned()
    }
//@end

//@rewrite1 Cow :: Borrowed ( $e ) ==> $e
//@fn fall/text/src/text.rs Text::to_cow
    pub fn to_cow(&self) -> «(r:» &'f Str «) requires self.wf(), self.bounded() ensures r@ == self@» {
        self.as_str()
    }
//@end

//@fn fall/text/src/text.rs Text::to_text_buf
    pub fn to_text_buf(&self) -> «(r:» TextBuf «) requires self.wf(), self.bounded() ensures r@ == self@» {
        TextBuf::from(self.as_str())
    }
//@end

//@fn fall/text/src/text.rs Text::as_str
    pub fn as_str(&self) -> «(r:» &'f Str «) requires self.wf(), self.bounded() ensures r@ == self@» {
        &self.owned[self.range]
    }
//@end

// the trait impls are extracted as methods of other names, because their contracts need the
// representation invariant as a precondition

//@rewrite1 fn eq ==> pub fn eq__text<'b>
//@fn fall/text/src/text.rs <Text as PartialEq<Text<>>>::eq
    pub fn eq__text<'b>(&self, other: &Text<'b>) -> «(r:» bool «)
        requires self.wf(), self.bounded(), other.wf(), other.bounded()
        ensures r == (self@ == other@)» {
        self.as_str() == other.as_str()
    }
//@end

//@rewrite1 fn eq ==> pub fn eq__str
//@fn fall/text/src/text.rs <Text as PartialEq<&str>>::eq
    pub fn eq__str(&self, other: &&Str) -> «(r:» bool «)
        requires self.wf(), self.bounded()
        ensures r == (self@ == other@)» {
        &self.owned[self.range] == *other
    }
//@end

//@rewrite1 fn partial_cmp ==> pub fn partial_cmp__text<'b>
//@fn fall/text/src/text.rs <Text as PartialOrd<Text<>>>::partial_cmp
    pub fn partial_cmp__text<'b>(&self, other: &Text<'b>) -> «(r:» Option<::std::cmp::Ordering> «)
        requires self.wf(), self.bounded(), other.wf(), other.bounded()
        ensures r == Some(str_cmp(self@, other@))» {
        self.as_str().partial_cmp(other.as_str())
    }
//@end

//@rewrite1 fn partial_cmp ==> pub fn partial_cmp__str
//@fn fall/text/src/text.rs <Text as PartialOrd<&str>>::partial_cmp
    pub fn partial_cmp__str(&self, other: &&Str) -> «(r:» Option<::std::cmp::Ordering> «)
        requires self.wf(), self.bounded()
        ensures r == Some(str_cmp(self@, other@))» {
        self.owned[self.range].partial_cmp(*other)
    }
//@end

//@rewrite1 fn cmp ==> pub fn cmp__text<'a>
//@fn fall/text/src/text.rs <Text as Ord>::cmp
    pub fn cmp__text<'a>(&self, other: &Text<'a>) -> «(r:» ::std::cmp::Ordering «)
        requires self.wf(), self.bounded(), other.wf(), other.bounded()
        ensures r == str_cmp(self@, other@)» {
        self.as_str().cmp(other.as_str())
    }
//@end
}

pub open spec fn ends_non_ws(s: Seq<u8>, end: int) -> bool {
    exists|i: int| 0 <= i && #[trigger] non_ws_at(s, i) && i + char_len(s, i) == end
}

//@item fall/text/src/text_buf.rs struct:TextBuf
pub struct TextBuf {
    pub data: Str
}
//@end

impl View for TextBuf {
    type V = Seq<u8>;
    open spec fn view(&self) -> Seq<u8> { self.data@ }
}

impl TextBuf {
    /// offsets into the buffer fit 32 bits
    pub open spec fn wf(self) -> bool { self@.len() <= u32::MAX }
    /// all of the text
    pub open spec fn whole(&self) -> Text<'_> { Text { owned: &self.data, range: TextRange { start: TextUnit(0), end: TextUnit(self@.len() as u32) } } }

//@fn fall/text/src/text_buf.rs TextBuf::as_text
    pub fn as_text(&self) -> «(r:» Text «) requires self.wf() ensures r.wf(), r.bounded(), r@ == self@, r.owned@ == self@, r.range.start.0 == 0, r == self.whole()» {
        «assert(self.data@.subrange(0, self.data@.len() as int) =~= self.data@);»
        Text {
            owned: &self.data,
            range: TextRange::from_len(tu(0), tu(self.data.len() as u32)),
        }
    }
//@end

//@rewrite1 fn from ==> pub fn from__text<'s>
//@fn fall/text/src/text_buf.rs <TextBuf as From<Text<>>>::from
    pub fn from__text<'s>(s: Text<'s>) -> «(r:» Self «) requires s.wf(), s.bounded() ensures r@ == s@» {
        TextBuf { data: s.to_string() }
    }
//@end
}

impl vstd::std_specs::convert::FromSpecImpl<Str> for TextBuf {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: Str) -> TextBuf { TextBuf { data: s } }
}
impl From<Str> for TextBuf {
//@fn fall/text/src/text_buf.rs <TextBuf as From<String>>::from
    fn from(s: Str) -> Self {
        TextBuf { data: s }
    }
//@end
}

impl<'s> vstd::std_specs::convert::FromSpecImpl<&'s Str> for TextBuf {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(s: &'s Str) -> TextBuf { arbitrary() }
}
impl<'s> From<&'s Str> for TextBuf {
//@fn fall/text/src/text_buf.rs <TextBuf as From<&str>>::from
    fn from(s: &'s Str) -> «(r:» Self «) ensures r@ == s@» {
        TextBuf { data: s.to_owned() }
    }
//@end
}

} // verus!
