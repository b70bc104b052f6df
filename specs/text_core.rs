// Offsets and ranges: fall/text/src/text_unit.rs, text_range.rs
//@owner C07
//@dropmod fall_tree fall_text imp tree_builder
verus! {

//@item fall/text/src/text_unit.rs struct:TextUnit
«#[derive(Clone, Copy)]»
pub struct TextUnit(pub u32);
//@end

// derive(PartialEq, Eq, PartialOrd, Ord) of a one-field tuple struct, expanded by hand (rustc's
// derive is trusted to mean this)
impl PartialEq for TextUnit { fn eq(&self, other: &TextUnit) -> bool { self.0 == other.0 } }
impl Eq for TextUnit {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for TextUnit {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &TextUnit) -> bool { self.0 == other.0 }
}
impl PartialOrd for TextUnit { fn partial_cmp(&self, other: &TextUnit) -> Option<Ordering> { self.0.partial_cmp(&other.0) } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for TextUnit {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &TextUnit) -> Option<Ordering> {
        if self.0 < other.0 { Some(Ordering::Less) } else if self.0 == other.0 { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
    }
}
impl Ord for TextUnit { fn cmp(&self, other: &TextUnit) -> Ordering { self.0.cmp(&other.0) } }
impl vstd::std_specs::cmp::OrdSpecImpl for TextUnit {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &TextUnit) -> Ordering {
        if self.0 < other.0 { Ordering::Less } else if self.0 == other.0 { Ordering::Equal } else { Ordering::Greater }
    }
}

impl TextUnit {
//@fn fall/text/src/text_unit.rs TextUnit::utf8_len
    pub fn utf8_len(self) -> «(r:» usize «) ensures r == self.0» {
        self.0 as usize
    }
//@end
}

//@fn fall/text/src/text_unit.rs tu
pub fn tu(value: u32) -> «(r:» TextUnit «) ensures r.0 == value» {
    TextUnit(value)
}
//@end

impl vstd::std_specs::convert::FromSpecImpl<TextUnit> for u32 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: TextUnit) -> u32 { v.0 }
}
impl From<TextUnit> for u32 {
//@fn fall/text/src/text_unit.rs <u32 as From<TextUnit>>::from
    fn from(tu: TextUnit) -> u32 {
        tu.0
    }
//@end
}

impl vstd::std_specs::ops::AddSpecImpl<u32> for TextUnit {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: u32) -> bool { self.0 + rhs <= u32::MAX }
    open spec fn add_spec(self, rhs: u32) -> TextUnit { TextUnit((self.0 + rhs) as u32) }
}
impl ops::Add<u32> for TextUnit {
    type Output = TextUnit;
//@fn fall/text/src/text_unit.rs <TextUnit as Add<u32>>::add
    fn add(self, rhs: u32) -> TextUnit {
        TextUnit(self.0 + rhs)
    }
//@end
}

impl vstd::std_specs::ops::AddSpecImpl<TextUnit> for TextUnit {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: TextUnit) -> bool { self.0 + rhs.0 <= u32::MAX }
    open spec fn add_spec(self, rhs: TextUnit) -> TextUnit { TextUnit((self.0 + rhs.0) as u32) }
}
impl ops::Add<TextUnit> for TextUnit {
    type Output = TextUnit;
//@fn fall/text/src/text_unit.rs <TextUnit as Add<TextUnit>>::add
    fn add(self, rhs: TextUnit) -> TextUnit {
        TextUnit(self.0 + rhs.0)
    }
//@end
}

impl vstd::std_specs::ops::AddAssignSpecImpl<TextUnit> for TextUnit {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, rhs: TextUnit) -> bool { self.0 + rhs.0 <= u32::MAX }
    open spec fn add_assign_spec(&self, rhs: TextUnit) -> &TextUnit { &TextUnit((self.0 + rhs.0) as u32) }
}
impl ops::AddAssign<TextUnit> for TextUnit {
//@fn fall/text/src/text_unit.rs <TextUnit as AddAssign<TextUnit>>::add_assign
    fn add_assign(&mut self, rhs: TextUnit) {
        self.0 += rhs.0
    }
//@end
}

impl vstd::std_specs::ops::SubSpecImpl<u32> for TextUnit {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: u32) -> bool { self.0 >= rhs }
    open spec fn sub_spec(self, rhs: u32) -> TextUnit { TextUnit((self.0 - rhs) as u32) }
}
impl ops::Sub<u32> for TextUnit {
    type Output = TextUnit;
//@fn fall/text/src/text_unit.rs <TextUnit as Sub<u32>>::sub
    fn sub(self, rhs: u32) -> TextUnit {
        TextUnit(self.0 - rhs)
    }
//@end
}

impl vstd::std_specs::ops::SubSpecImpl<TextUnit> for TextUnit {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: TextUnit) -> bool { self.0 >= rhs.0 }
    open spec fn sub_spec(self, rhs: TextUnit) -> TextUnit { TextUnit((self.0 - rhs.0) as u32) }
}
impl ops::Sub<TextUnit> for TextUnit {
    type Output = TextUnit;
//@fn fall/text/src/text_unit.rs <TextUnit as Sub<TextUnit>>::sub
    fn sub(self, rhs: TextUnit) -> TextUnit {
        TextUnit(self.0 - rhs.0)
    }
//@end
}

impl vstd::std_specs::ops::SubAssignSpecImpl<TextUnit> for TextUnit {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, rhs: TextUnit) -> bool { self.0 >= rhs.0 }
    open spec fn sub_assign_spec(&self, rhs: TextUnit) -> &TextUnit { &TextUnit((self.0 - rhs.0) as u32) }
}
impl ops::SubAssign<TextUnit> for TextUnit {
//@fn fall/text/src/text_unit.rs <TextUnit as SubAssign<TextUnit>>::sub_assign
    fn sub_assign(&mut self, rhs: TextUnit) {
        self.0 -= rhs.0
    }
//@end
}

//@item fall/text/src/text_range.rs struct:TextRange
«#[derive(Clone, Copy)]»
pub struct TextRange {
    pub start: TextUnit,
    pub end: TextUnit,
}
//@end

// derive(PartialEq, Eq), expanded
impl PartialEq for TextRange { fn eq(&self, other: &TextRange) -> bool { self.start == other.start && self.end == other.end } }
impl Eq for TextRange {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for TextRange {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &TextRange) -> bool { *self == *other }
}

impl TextRange {
    /// the representation invariant of ranges
    pub open spec fn wf(self) -> bool { self.start.0 <= self.end.0 }
    /// the set of offsets x with start <= x < end
    pub open spec fn has(self, x: int) -> bool { self.start.0 <= x < self.end.0 }
    pub open spec fn length(self) -> int { self.end.0 - self.start.0 }

//@fn fall/text/src/text_range.rs TextRange::empty
    pub fn empty() -> «(r:» TextRange «) ensures r.wf(), r.start.0 == 0, r.end.0 == 0, forall|x: int| !r.has(x)» {
        TextRange::from_to(tu(0), tu(0))
    }
//@end

//@fn fall/text/src/text_range.rs TextRange::from_to
    pub fn from_to(from: TextUnit, to: TextUnit) -> «(r:» TextRange «)
        requires from.0 <= to.0
        ensures r.wf(), r.start == from, r.end == to» {
        vassert(from <= to);
        TextRange { start: from, end: to }
    }
//@end

//@fn fall/text/src/text_range.rs TextRange::from_len
    pub fn from_len(from: TextUnit, len: TextUnit) -> «(r:» TextRange «)
        requires from.0 + len.0 <= u32::MAX
        ensures r.wf(), r.start == from, r.end.0 == from.0 + len.0, r.length() == len.0» {
        TextRange::from_to(from, from + len)
    }
//@end

//@fn fall/text/src/text_range.rs TextRange::start
    pub fn start(&self) -> «(r:» TextUnit «) ensures r == self.start» {
        self.start
    }
//@end

//@fn fall/text/src/text_range.rs TextRange::end
    pub fn end(&self) -> «(r:» TextUnit «) ensures r == self.end» {
        self.end
    }
//@end

//@fn fall/text/src/text_range.rs TextRange::len
    pub fn len(&self) -> «(r:» TextUnit «) requires self.wf() ensures r.0 == self.length()» {
        self.end - self.start
    }
//@end

//@fn fall/text/src/text_range.rs TextRange::is_empty
    pub fn is_empty(&self) -> «(r:» bool «) requires self.wf() ensures r == (self.length() == 0), r == (forall|x: int| !self.has(x))» {
        «proof { if self.start.0 < self.end.0 { assert(self.has(self.start.0 as int)); } }»
        self.start() == self.end()
    }
//@end

//@fn fall/text/src/text_range.rs TextRange::is_subrange_of
    pub fn is_subrange_of(&self, other: TextRange) -> «(r:» bool «)
        requires self.wf(), other.wf()
        ensures r == (other.start.0 <= self.start.0 && self.end.0 <= other.end.0),
            r ==> (forall|x: int| self.has(x) ==> other.has(x)),
            self.length() > 0 && (forall|x: int| self.has(x) ==> other.has(x)) ==> r» {
        «proof { if self.length() > 0 && (forall|x: int| self.has(x) ==> other.has(x)) {
            assert(self.has(self.start.0 as int)); assert(self.has(self.end.0 - 1)); } }»
        other.start() <= self.start() && self.end() <= other.end()
    }
//@end

//@fn fall/text/src/text_range.rs TextRange::intersects
    pub fn intersects(&self, other: TextRange) -> «(r:» bool «)
        requires self.wf(), other.wf()
        ensures self.length() > 0 && other.length() > 0 ==> r == (exists|x: int| self.has(x) && other.has(x)),
            r == !(self.end.0 <= other.start.0 || other.end.0 <= self.start.0)» {
        «proof {
            let m = if self.start.0 <= other.start.0 { other.start.0 as int } else { self.start.0 as int };
            if self.length() > 0 && other.length() > 0 && !(self.end.0 <= other.start.0 || other.end.0 <= self.start.0) { assert(self.has(m) && other.has(m)); }
        }»
        !self.disjoint(other)
    }
//@end

//@fn fall/text/src/text_range.rs TextRange::disjoint
    pub fn disjoint(&self, other: TextRange) -> «(r:» bool «)
        requires self.wf(), other.wf()
        ensures r == (self.end.0 <= other.start.0 || other.end.0 <= self.start.0),
            r ==> !(exists|x: int| self.has(x) && other.has(x)),
            self.length() > 0 && other.length() > 0 && !(exists|x: int| self.has(x) && other.has(x)) ==> r» {
        «proof {
            let m = if self.start.0 <= other.start.0 { other.start.0 as int } else { self.start.0 as int };
            if self.length() > 0 && other.length() > 0 && !(self.end.0 <= other.start.0 || other.end.0 <= self.start.0) { assert(self.has(m) && other.has(m)); }
        }»
        self.end() <= other.start() || other.end() <= self.start()
    }
//@end

//@fn fall/text/src/text_range.rs TextRange::contains_offset_nonstrict
    pub fn contains_offset_nonstrict(&self, offset: TextUnit) -> «(r:» bool «)
        ensures r == (self.start.0 <= offset.0 <= self.end.0)» {
        self.start() <= offset && offset <= self.end()
    }
//@end

//@fn fall/text/src/text_range.rs TextRange::glue
    pub fn glue(&self, right: TextRange) -> «(r:» TextRange «)
        requires self.wf(), right.wf(), self.end == right.start
        ensures r.wf(), r.start == self.start, r.end == right.end, r.length() == self.length() + right.length(),
            forall|x: int| r.has(x) == (self.has(x) || right.has(x))» {
        vassert(self.end() == right.start());
        TextRange::from_to(self.start(), right.end())
    }
//@end

//@fn fall/text/src/text_range.rs TextRange::shift_right
    pub fn shift_right(&self, offset: TextUnit) -> «(r:» TextRange «)
        requires self.wf(), self.end.0 + offset.0 <= u32::MAX
        ensures r.wf(), r.length() == self.length(), r.start.0 == self.start.0 + offset.0,
            forall|x: int| r.has(x) == self.has(x - offset.0)» {
        TextRange::from_len(self.start() + offset, self.len())
    }
//@end
}

impl vstd::std_specs::cmp::PartialOrdSpecImpl for TextRange {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &TextRange) -> Option<Ordering> {
        if *self == *other { Some(Ordering::Equal) }
        else if self.end.0 <= other.start.0 { Some(Ordering::Less) }
        else if other.end.0 <= self.start.0 { Some(Ordering::Greater) }
        else { None }
    }
}
impl PartialOrd for TextRange {
//@fn fall/text/src/text_range.rs <TextRange as PartialOrd>::partial_cmp
    fn partial_cmp(&self, other: &TextRange) -> Option<Ordering> {
        if self == other {
            Some(Ordering::Equal)
        } else if self.end() <= other.start() {
            Some(Ordering::Less)
        } else if other.end() <= self.start() {
            Some(Ordering::Greater)
        } else {
            None
        }
    }
//@end
}
/// C07: the order of ranges is a strict partial order that agrees with equality
pub proof fn lemma_range_order(a: TextRange, b: TextRange, c: TextRange)
    requires a.wf(), b.wf(), c.wf()
    ensures
        (a.partial_cmp_spec(&b) == Some(Ordering::Equal)) == (a == b),
        a.partial_cmp_spec(&b) == Some(Ordering::Less) <==> b.partial_cmp_spec(&a) == Some(Ordering::Greater),
        a.partial_cmp_spec(&b) == Some(Ordering::Less) && b.partial_cmp_spec(&c) == Some(Ordering::Less) ==> a.partial_cmp_spec(&c) == Some(Ordering::Less),
{
}

} // verus!
