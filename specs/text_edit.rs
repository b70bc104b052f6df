// Text edits: fall/text/src/text_edit.rs
//@owner C06
verus! {

//@item fall/text/src/text_edit.rs struct:TextEdit
pub struct TextEdit {
    pub ops: Vec<TextEditOp>,
}
//@end

//@item fall/text/src/text_edit.rs enum:TextEditOp
pub enum TextEditOp {
    Copy(TextRange),
    Insert(TextBuf),
}
//@end

/// what one operation contributes to the edited text
pub open spec fn op_text(op: TextEditOp, t: Seq<u8>) -> Seq<u8> {
    match op {
        TextEditOp::Copy(r) => t.subrange(r.start.0 as int, r.end.0 as int),
        TextEditOp::Insert(b) => b@,
    }
}

/// the edited text: the concatenation of what the operations contribute
pub open spec fn ops_text(ops: Seq<TextEditOp>, t: Seq<u8>) -> Seq<u8>
    decreases ops.len()
{
    if ops.len() == 0 { Seq::empty() } else { ops_text(ops.drop_last(), t) + op_text(ops.last(), t) }
}

/// ranges are well-formed and end at or before `n`, inserted texts have 32-bit lengths
pub open spec fn ops_ok(ops: Seq<TextEditOp>, n: int) -> bool {
    forall|i: int| 0 <= i < ops.len() ==> op_ok(#[trigger] ops[i], n)
}
pub open spec fn op_ok(op: TextEditOp, n: int) -> bool {
    match op {
        TextEditOp::Copy(r) => r.wf() && r.end.0 <= n,
        TextEditOp::Insert(b) => b.wf(),
    }
}
/// copied ranges are increasing and disjoint: nothing is copied twice or out of order
pub open spec fn ops_ordered(ops: Seq<TextEditOp>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ops.len() ==> match ((#[trigger] ops[i]), (#[trigger] ops[j])) {
        (TextEditOp::Copy(a), TextEditOp::Copy(b)) => a.end.0 <= b.start.0,
        _ => true,
    }
}
/// copied ranges start and end on character boundaries
pub open spec fn ops_bnd(ops: Seq<TextEditOp>, t: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < ops.len() ==> match #[trigger] ops[i] {
        TextEditOp::Copy(r) => bnd(t, r.start.0 as int) && bnd(t, r.end.0 as int),
        TextEditOp::Insert(_) => true,
    }
}

pub proof fn lemma_bnd(text: Text, i: int)
    requires text.wf(), text.bounded(), bnd(text@, i)
    ensures bnd(text.owned@, text.range.start.0 + i)
{
}

impl TextEdit {
//@rewrite1 result += & $e , ==> result . push_str ( $e ) ,
//@fn fall/text/src/text_edit.rs TextEdit::apply
    pub fn apply(&self, text: Text) -> «(r:» TextBuf «)
        requires text.wf(), text.bounded(), ops_ok(self.ops@, text@.len() as int), ops_bnd(self.ops@, text@)
        ensures r@ == ops_text(self.ops@, text@)» {
        let mut result = Str::new();
        {
            let mut i__0: usize = 0;
            while i__0 < self.ops.len()
            «invariant i__0 <= self.ops@.len(), text.wf(), text.bounded(), ops_ok(self.ops@, text@.len() as int), ops_bnd(self.ops@, text@),
                result@ == ops_text(self.ops@.take(i__0 as int), text@)
             decreases self.ops@.len() - i__0»
            {
                let j__0 = i__0;
                i__0 = i__0 + 1;
                let s = &self.ops[j__0];
                «proof {
                    assert(self.ops@.take(i__0 as int).drop_last() =~= self.ops@.take(j__0 as int));
                    assert(op_ok(self.ops@[j__0 as int], text@.len() as int));
                    if let TextEditOp::Copy(r) = *s { lemma_bnd(text, r.start.0 as int); lemma_bnd(text, r.end.0 as int); }
                }»
                match *s {
                    TextEditOp::Copy(range) => result.push_str(text.slice(range).to_cow()),
                    TextEditOp::Insert(ref i) => result.push_str(i.as_text().to_cow()),
                }
            }
        }
        «assert(self.ops@.take(self.ops@.len() as int) =~= self.ops@);»
        result.into()
    }
//@end
}

//@item fall/text/src/text_edit.rs struct:TextEditBuilder
pub struct TextEditBuilder {
    pub segments: Vec<TextEditOp>,
    pub last_offset: TextUnit,
    pub text_len: TextUnit,
}
//@end

impl TextEditBuilder {
    /// what the operations so far make of the part of the text before the cursor
    pub open spec fn out(self, t: Seq<u8>) -> Seq<u8> { ops_text(self.segments@, t) }
    pub open spec fn wf(self) -> bool { ops_ok(self.segments@, self.last_offset.0 as int) && ops_ordered(self.segments@) }
    /// `self` is `old` with the text from the old cursor to `copied` copied, `ins` inserted after
    /// it, and the cursor moved to `cursor`
    pub open spec fn advanced(self, old: TextEditBuilder, copied: int, ins: Seq<u8>, cursor: int) -> bool {
        self.wf() && self.text_len == old.text_len && self.last_offset.0 == cursor
        && self.keeps_bnd(old, copied)
        && forall|t: Seq<u8>| t.len() >= copied ==> #[trigger] self.out(t) == old.out(t) + t.subrange(old.last_offset.0 as int, copied) + ins
    }
    /// ranges copied since `old` start and end on character boundaries if the offsets given do
    pub open spec fn keeps_bnd(self, old: TextEditBuilder, copied: int) -> bool {
        forall|t: Seq<u8>| #[trigger] ops_bnd(old.segments@, t) && bnd(t, old.last_offset.0 as int) && bnd(t, copied) ==> ops_bnd(self.segments@, t)
    }
    pub proof fn lemma_push(old: Seq<TextEditOp>, op: TextEditOp, t: Seq<u8>)
        ensures ops_text(old.push(op), t) == ops_text(old, t) + op_text(op, t)
    {
        assert(old.push(op).drop_last() =~= old);
    }

//@fn fall/text/src/text_edit.rs TextEditBuilder::new
    pub fn new(text: Text) -> «(r:» TextEditBuilder «)
        requires text.wf()
        ensures r.wf(), r.segments@.len() == 0, r.last_offset.0 == 0, r.text_len.0 == text@.len()» {
        TextEditBuilder {
            segments: Vec::new(),
            last_offset: tu(0),
            text_len: text.len()
        }
    }
//@end

//@fn fall/text/src/text_edit.rs TextEditBuilder::build
    pub fn build(self) -> «(r:» TextEdit «)
        requires self.wf(), self.last_offset.0 <= self.text_len.0
        ensures ops_ok(r.ops@, self.text_len.0 as int), ops_ordered(r.ops@),
            forall|t: Seq<u8>| #[trigger] ops_bnd(self.segments@, t) && bnd(t, self.last_offset.0 as int) && t.len() == self.text_len.0 ==> ops_bnd(r.ops@, t),
            forall|t: Seq<u8>| t.len() == self.text_len.0 ==> #[trigger] ops_text(r.ops@, t) == self.out(t) + t.subrange(self.last_offset.0 as int, t.len() as int)» {
        let mut self_ = self;
        let len = self_.text_len;
        «let ghost old_self = self;»
        self_.advance_to(len);
        «proof {
            assert forall|t: Seq<u8>| t.len() == old_self.text_len.0 implies #[trigger] ops_text(self_.segments@, t) == old_self.out(t) + t.subrange(old_self.last_offset.0 as int, t.len() as int) by {
                assert(self_.out(t) == old_self.out(t) + t.subrange(old_self.last_offset.0 as int, t.len() as int) + Seq::<u8>::empty());
                assert(self_.out(t) =~= old_self.out(t) + t.subrange(old_self.last_offset.0 as int, t.len() as int));
            }
        }»
        TextEdit { ops: self_.segments }
    }
//@end

//@fn fall/text/src/text_edit.rs TextEditBuilder::insert
    pub fn insert<T: Into<TextBuf>>(&mut self, offset: TextUnit, text: T)
    «requires old(self).wf(), old(self).last_offset.0 <= offset.0, call_requires(T::into, (text,)),
        forall|b: TextBuf| call_ensures(T::into, (text,), b) ==> b.wf()
     ensures exists|b: TextBuf| call_ensures(T::into, (text,), b) && #[trigger] final(self).advanced(*old(self), offset.0 as int, b@, offset.0 as int)»
    {
        self.advance_to(offset);
        «let ghost mid = *self;»
        self.insert_(text.into());
        «proof {
            let b = choose|b: TextBuf| call_ensures(T::into, (text,), b) && self.segments@ == mid.segments@.push(TextEditOp::Insert(b));
            lemma_advance2(*old(self), mid, *self, offset.0 as int, b@);
            assert(self.advanced(*old(self), offset.0 as int, b@, offset.0 as int));
        }»
    }
//@end

//@fn fall/text/src/text_edit.rs TextEditBuilder::delete
    pub fn delete(&mut self, range: TextRange)
    «requires old(self).wf(), range.wf(), old(self).last_offset.0 <= range.start.0
     ensures final(self).advanced(*old(self), range.start.0 as int, Seq::empty(), range.end.0 as int)»
    {
        self.advance_to(range.start());
        «let ghost mid = *self;»
        self.delete_len(range.len());
        «proof { lemma_same_segments(*old(self), mid, *self, range.start.0 as int, Seq::empty()); }»
    }
//@end

//@fn fall/text/src/text_edit.rs TextEditBuilder::replace
    pub fn replace<T: Into<TextBuf>>(&mut self, range: TextRange, text: T)
    «requires old(self).wf(), range.wf(), old(self).last_offset.0 <= range.start.0, call_requires(T::into, (text,)),
        forall|b: TextBuf| call_ensures(T::into, (text,), b) ==> b.wf()
     ensures exists|b: TextBuf| call_ensures(T::into, (text,), b) && #[trigger] final(self).advanced(*old(self), range.start.0 as int, b@, range.end.0 as int)»
    {
        self.advance_to(range.start());
        «let ghost mid = *self;»
        self.insert_(text.into());
        «let ghost mid2 = *self;»
        self.delete_len(range.len());
        «proof {
            let b = choose|b: TextBuf| call_ensures(T::into, (text,), b) && mid2.segments@ == mid.segments@.push(TextEditOp::Insert(b));
            lemma_advance2(*old(self), mid, mid2, range.start.0 as int, b@);
            lemma_same_segments(*old(self), mid2, *self, range.start.0 as int, b@);
            assert(self.advanced(*old(self), range.start.0 as int, b@, range.end.0 as int));
        }»
    }
//@end

//@fn fall/text/src/text_edit.rs TextEditBuilder::advance_to
    pub fn advance_to(&mut self, offset: TextUnit)
    «requires old(self).wf(), old(self).last_offset.0 <= offset.0
     ensures final(self).advanced(*old(self), offset.0 as int, Seq::empty(), offset.0 as int)»
    {
        match self.last_offset.cmp(&offset) {
            Ordering::Less => self.copy_up_to(offset),
            Ordering::Equal => «({ proof {
                assert forall|t: Seq<u8>| t.len() >= offset.0 implies #[trigger] self.out(t) == self.out(t) + t.subrange(self.last_offset.0 as int, offset.0 as int) + Seq::<u8>::empty() by {
                    assert(self.out(t) =~= self.out(t) + t.subrange(self.last_offset.0 as int, offset.0 as int) + Seq::<u8>::empty());
                } }» () «})»,
            Ordering::Greater => vpanic(),
        }
    }
//@end

//@rewrite1 vpanic ==> vreject
//@rewrite1 fn advance_to ==> fn advance_to__rejects
//@fn fall/text/src/text_edit.rs TextEditBuilder::advance_to ## as:TextEditBuilder::advance_to(rejects) C06
    pub fn advance_to__rejects(&mut self, offset: TextUnit)
    «requires old(self).wf()
     ensures old(self).last_offset.0 <= offset.0»
    {
        match self.last_offset.cmp(&offset) {
            Ordering::Less => self.copy_up_to(offset),
            Ordering::Equal => (),
            Ordering::Greater => vreject(),
        }
    }
//@end

//@fn fall/text/src/text_edit.rs TextEditBuilder::copy_up_to
    pub fn copy_up_to(&mut self, offset: TextUnit)
    «requires old(self).wf(), old(self).last_offset.0 <= offset.0
     ensures final(self).advanced(*old(self), offset.0 as int, Seq::empty(), offset.0 as int)»
    {
        let len = offset - self.last_offset;
        self.copy_len(len)
    }
//@end

//@fn fall/text/src/text_edit.rs TextEditBuilder::copy_len
    pub fn copy_len(&mut self, len: TextUnit)
    «requires old(self).wf(), old(self).last_offset.0 + len.0 <= u32::MAX
     ensures final(self).advanced(*old(self), old(self).last_offset.0 + len.0, Seq::empty(), old(self).last_offset.0 + len.0)»
    {
        let range = TextRange::from_len(self.last_offset, len);
        self.segments.push(TextEditOp::Copy(range));
        «proof {
            assert forall|t: Seq<u8>| t.len() >= range.end.0 implies #[trigger] ops_text(self.segments@, t) == old(self).out(t) + t.subrange(range.start.0 as int, range.end.0 as int) + Seq::<u8>::empty() by {
                Self::lemma_push(old(self).segments@, TextEditOp::Copy(range), t);
                assert(ops_text(self.segments@, t) =~= old(self).out(t) + t.subrange(range.start.0 as int, range.end.0 as int) + Seq::<u8>::empty());
            }
            assert forall|t: Seq<u8>| #[trigger] ops_bnd(old(self).segments@, t) && bnd(t, range.start.0 as int) && bnd(t, range.end.0 as int) implies ops_bnd(self.segments@, t) by {
                assert forall|i: int| 0 <= i < self.segments@.len() implies match #[trigger] self.segments@[i] {
                    TextEditOp::Copy(r) => bnd(t, r.start.0 as int) && bnd(t, r.end.0 as int), TextEditOp::Insert(_) => true } by {
                    if i < old(self).segments@.len() { assert(self.segments@[i] == old(self).segments@[i]); }
                }
            }
            assert forall|i: int| 0 <= i < self.segments@.len() implies op_ok(#[trigger] self.segments@[i], range.end.0 as int) by {
                if i < old(self).segments@.len() { assert(op_ok(old(self).segments@[i], old(self).last_offset.0 as int)); }
            }
            assert forall|i: int, j: int| 0 <= i < j < self.segments@.len() implies match ((#[trigger] self.segments@[i]), (#[trigger] self.segments@[j])) {
                (TextEditOp::Copy(a), TextEditOp::Copy(b)) => a.end.0 <= b.start.0, _ => true } by {
                assert(op_ok(old(self).segments@[i], old(self).last_offset.0 as int));
            }
        }»
        self.last_offset += len
    }
//@end

//@fn fall/text/src/text_edit.rs TextEditBuilder::insert_
    pub fn insert_(&mut self, text: TextBuf)
    «requires old(self).wf(), text.wf()
     ensures final(self).segments@ == old(self).segments@.push(TextEditOp::Insert(text)), final(self).wf(),
        final(self).last_offset == old(self).last_offset, final(self).text_len == old(self).text_len»
    {
        self.segments.push(TextEditOp::Insert(text))
    }
//@end

//@fn fall/text/src/text_edit.rs TextEditBuilder::delete_len
    pub fn delete_len(&mut self, len: TextUnit)
    «requires old(self).wf(), old(self).last_offset.0 + len.0 <= u32::MAX
     ensures final(self).segments@ == old(self).segments@, final(self).wf(),
        final(self).last_offset.0 == old(self).last_offset.0 + len.0, final(self).text_len == old(self).text_len»
    {
        «proof {
            assert forall|i: int| 0 <= i < self.segments@.len() implies op_ok(#[trigger] self.segments@[i], self.last_offset.0 + len.0) by {
                assert(op_ok(self.segments@[i], self.last_offset.0 as int));
            }
        }»
        self.last_offset += len
    }
//@end
}

pub proof fn lemma_same_segments(old: TextEditBuilder, mid: TextEditBuilder, new: TextEditBuilder, to: int, ins: Seq<u8>)
    requires new.segments@ == mid.segments@, mid.keeps_bnd(old, to),
        forall|t: Seq<u8>| t.len() >= to ==> #[trigger] mid.out(t) == old.out(t) + t.subrange(old.last_offset.0 as int, to) + ins,
    ensures new.keeps_bnd(old, to),
        forall|t: Seq<u8>| t.len() >= to ==> #[trigger] new.out(t) == old.out(t) + t.subrange(old.last_offset.0 as int, to) + ins
{
    assert forall|t: Seq<u8>| t.len() >= to implies #[trigger] new.out(t) == old.out(t) + t.subrange(old.last_offset.0 as int, to) + ins by {
        assert(mid.out(t) == old.out(t) + t.subrange(old.last_offset.0 as int, to) + ins);
    }
}

pub proof fn lemma_push_bnd(s: Seq<TextEditOp>, b: TextBuf, t: Seq<u8>)
    requires ops_bnd(s, t)
    ensures ops_bnd(s.push(TextEditOp::Insert(b)), t)
{
    let n = s.push(TextEditOp::Insert(b));
    assert forall|i: int| 0 <= i < n.len() implies match #[trigger] n[i] {
        TextEditOp::Copy(r) => bnd(t, r.start.0 as int) && bnd(t, r.end.0 as int), TextEditOp::Insert(_) => true } by {
        if i < s.len() { assert(n[i] == s[i]); }
    }
}
pub proof fn lemma_advance2(old: TextEditBuilder, mid: TextEditBuilder, new: TextEditBuilder, to: int, ins: Seq<u8>)
    requires mid.advanced(old, to, Seq::empty(), to), new.wf(), new.text_len == mid.text_len,
        exists|b: TextBuf| b@ == ins && new.segments@ == mid.segments@.push(TextEditOp::Insert(b)),
    ensures new.keeps_bnd(old, to),
        forall|t: Seq<u8>| t.len() >= to ==> #[trigger] new.out(t) == old.out(t) + t.subrange(old.last_offset.0 as int, to) + ins
{
    let b = choose|b: TextBuf| b@ == ins && new.segments@ == mid.segments@.push(TextEditOp::Insert(b));
    assert forall|t: Seq<u8>| t.len() >= to implies #[trigger] new.out(t) == old.out(t) + t.subrange(old.last_offset.0 as int, to) + ins by {
        TextEditBuilder::lemma_push(mid.segments@, TextEditOp::Insert(b), t);
        assert(mid.out(t) == old.out(t) + t.subrange(old.last_offset.0 as int, to) + Seq::<u8>::empty());
        assert(new.out(t) =~= old.out(t) + t.subrange(old.last_offset.0 as int, to) + ins);
    }
    assert forall|t: Seq<u8>| #[trigger] ops_bnd(old.segments@, t) && bnd(t, old.last_offset.0 as int) && bnd(t, to) implies ops_bnd(new.segments@, t) by {
        assert(ops_bnd(mid.segments@, t));
        lemma_push_bnd(mid.segments@, b, t);
    }
}

} // verus!
