// The index of files: indxr/src/lib.rs
//@owner C22
verus! {

// ---- the file system and what the index should hold ----------------------------------------
/// a path: its components
pub type Key = Seq<nat>;
pub open spec fn prefix(p: Key, k: Key) -> bool {
    p.len() <= k.len() && k.subrange(0, p.len() as int) =~= p
}
pub open spec fn absolute(k: Key) -> bool { k.len() > 0 && k[0] == 0 }
/// regular files with their contents, and directories
pub ghost struct Fs { pub files: Map<Key, int>, pub dirs: Set<Key> }
impl Fs {
    pub open spec fn entry(self, k: Key) -> Option<int> {
        if self.files.contains_key(k) { Some(self.files[k]) } else { None }
    }
    pub open spec fn exists(self, k: Key) -> bool { self.files.contains_key(k) || self.dirs.contains(k) }
    pub open spec fn wf(self) -> bool {
        &&& forall|k: Key| #[trigger] self.files.contains_key(k) ==> !self.dirs.contains(k)
        &&& forall|k: Key, p: Key| #[trigger] self.files.contains_key(k) && #[trigger] prefix(p, k) && p.len() > 0 && p != k ==> self.dirs.contains(p)
    }
}
/// What the watcher and the index see of the outside: the files, the paths for which a change has been
/// announced by an event that is not received yet, the directories being watched, and whether watching one failed.
pub ghost struct World { pub fs: Fs, pub queue: Set<Key>, pub watched: Set<Key>, pub failed: bool, pub tick: nat }
pub open spec fn covered(q: Set<Key>, k: Key) -> bool { exists|p: Key| #[trigger] q.contains(p) && prefix(p, k) }
/// files may change at any time; changes below a watched directory are announced
pub open spec fn evolves(a: World, b: World) -> bool {
    &&& b.fs.wf()
    &&& b.watched == a.watched && b.failed == a.failed
    &&& forall|k: Key| covered(a.queue, k) ==> #[trigger] covered(b.queue, k)
    &&& forall|k: Key| #![trigger b.fs.entry(k)] covered(a.watched, k) && a.fs.entry(k) != b.fs.entry(k) ==> covered(b.queue, k)
}
/// any evolution; `tick` keeps the states apart, so that this is no restriction
pub uninterp spec fn later(w: World) -> World;
pub axiom fn later_evolves(w: World)
    requires w.fs.wf()
    ensures evolves(w, later(w)), later(w).tick == w.tick + 1;

// ---- the environment ------------------------------------------------------------------------
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct PathBuf { p: u64 }
impl PathBuf {
    pub uninterp spec fn view(&self) -> Key;
    #[verifier::external_body]
    pub fn exists_at(&self, fs: Ghost<Fs>) -> (r: bool) ensures r == fs@.exists(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir_at(&self, fs: Ghost<Fs>) -> (r: bool) ensures r == fs@.dirs.contains(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file_at(&self, fs: Ghost<Fs>) -> (r: bool) ensures r == fs@.files.contains_key(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with(&self, o: &PathBuf) -> (r: bool) ensures r == prefix(o@, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone_path(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn same(&self, o: &PathBuf) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, o: &PathBuf) -> (r: PathBuf)
        ensures absolute(o@) ==> r@ == o@, !absolute(o@) ==> r@ == self@ + o@
    { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for PathBuf {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &PathBuf) -> bool { self@ == o@ }
}
impl PartialEq for PathBuf {
    #[verifier::external_body]
    fn eq(&self, o: &PathBuf) -> bool { unimplemented!() }
}
pub struct Cwd { pub p: PathBuf }
impl Cwd {
    pub fn unwrap_or_default(self) -> (r: PathBuf) requires absolute(self.p@) ensures r == self.p { self.p }
    pub fn unwrap(self) -> (r: PathBuf) requires absolute(self.p@) ensures r == self.p { self.p }
}
#[verifier::external_body]
pub fn current_dir() -> (r: Cwd) ensures absolute(r.p@), r.p@ == cwd_key() { unimplemented!() }
pub uninterp spec fn cwd_key() -> Key;
pub axiom fn cwd_absolute() ensures absolute(cwd_key());
pub open spec fn abs_key(k: Key) -> Key { if absolute(k) { k } else { cwd_key() + k } }

#[derive(Clone, Copy)]
pub struct FileType { pub file: bool }
impl FileType {
    pub fn is_file_at(&self, fs: Ghost<Fs>) -> (r: bool) ensures r == self.file { self.file }
}
#[derive(Clone, Copy)]
pub struct DirEntry { pub p: PathBuf, pub ty: FileType }
impl DirEntry {
    pub fn path(&self) -> (r: &PathBuf) ensures *r == self.p { &self.p }
    pub fn into_path(self) -> (r: PathBuf) ensures r == self.p { self.p }
    pub fn file_type(&self) -> (r: FileType) ensures r == self.ty { self.ty }
}
#[derive(Clone, Copy)]
pub struct WalkErr { pub e: u64 }
pub open spec fn listed(l: Seq<Result<DirEntry, WalkErr>>, k: Key) -> bool {
    exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).is_ok() && l[i]->Ok_0.p@ == k
}
/// the listing of a directory: what exists below it, every file included
pub open spec fn listing(l: Seq<Result<DirEntry, WalkErr>>, fs: Fs, p: Key) -> bool {
    &&& forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]).is_ok() ==> {
        &&& prefix(p, l[i]->Ok_0.p@) && fs.exists(l[i]->Ok_0.p@)
        &&& l[i]->Ok_0.ty.file == fs.files.contains_key(l[i]->Ok_0.p@)
    }
    &&& forall|k: Key| fs.files.contains_key(k) && prefix(p, k) ==> #[trigger] listed(l, k)
}
pub struct WalkDir { pub l: VecIter<Result<DirEntry, WalkErr>> }
impl WalkDir {
    #[verifier::external_body]
    pub fn new(p: &PathBuf, fs: Ghost<Fs>) -> (r: VecIter<Result<DirEntry, WalkErr>>)
        ensures r.i == 0, r.wf(), listing(r.v@, fs@, p@)
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct Mapper<V> { p: core::marker::PhantomData<V> }
impl<V> Mapper<V> {
    pub uninterp spec fn value(&self, k: Key, content: int) -> Option<V>;
    #[verifier::external_body]
    pub fn call(&self, p: &PathBuf, fs: Ghost<Fs>) -> (r: Option<V>)
        ensures fs@.files.contains_key(p@) ==> r == self.value(p@, fs@.files[p@])
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Filter { p: u64 }
impl Filter {
    pub uninterp spec fn accepts(&self, k: Key) -> bool;
    #[verifier::external_body]
    pub fn call(&self, p: &PathBuf) -> (r: bool) ensures r == self.accepts(p@) { unimplemented!() }
    #[verifier::external_body]
    pub fn by_extension(ext: &'static str) -> (r: Filter) { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct PathMap<T> { p: core::marker::PhantomData<T> }
impl<T> PathMap<T> {
    pub uninterp spec fn view(&self) -> Map<Key, T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<Key, T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<Key, T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: PathBuf, v: T) -> (r: Option<T>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &PathBuf) -> (r: Option<T>) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<Key, T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &PathBuf) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, o: PathMap<T>) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn keys_list(&self) -> (r: VecIter<PathBuf>)
        ensures r.i == 0, r.wf(),
            forall|i: int| 0 <= i < r.v@.len() ==> self@.contains_key((#[trigger] r.v@[i])@),
            forall|k: Key| #[trigger] self@.contains_key(k) ==> key_in(r.v@, k),
    { unimplemented!() }
    pub uninterp spec fn order(&self) -> Seq<Key>;
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> (r: VecIter<&'a T>)
        ensures r.i == 0, r.wf(), enumerates(self.order(), self@),
            r.v@.len() == self.order().len(),
            forall|i: int| 0 <= i < r.v@.len() ==> *(#[trigger] r.v@[i]) == self@[self.order()[i]],
    { unimplemented!() }
}
pub open spec fn key_in(l: Seq<PathBuf>, k: Key) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i])@ == k }
/// every key once
pub open spec fn enumerates<T>(o: Seq<Key>, m: Map<Key, T>) -> bool {
    &&& o.no_duplicates()
    &&& forall|k: Key| #[trigger] m.contains_key(k) <==> o.contains(k)
}

//@rewrite Path ==> PathBuf
//@rewrite Box < dyn Fn ( & PathBuf ) -> bool + Sync + Send > ==> Filter
//@rewrite Mutex < HashMap < PathBuf , IndexedFile < V > > > ==> PathMap < IndexedFile < V > >
//@rewrite . exists ( ) ==> . exists_at ( Ghost ( self . world @ . fs ) )
//@rewrite . is_dir ( ) ==> . is_dir_at ( Ghost ( self . world @ . fs ) )
//@rewrite . is_file ( ) ==> . is_file_at ( Ghost ( self . world @ . fs ) )
//@rewrite WalkDir :: new ( $p ) ==> WalkDir :: new ( $p , Ghost ( self . world @ . fs ) )
//@rewrite . mapper . call ( $p ) ==> . mapper . call ( $p , Ghost ( self . world @ . fs ) )
//@rewrite HashMap :: new ( ) ==> PathMap :: new ( )
//@rewrite self . data . lock ( ) . unwrap ( ) ==> ( & mut self . data )
//@rewrite ( & mut self . data ) . remove ==> self . data . remove
//@rewrite let files = ==> let mut files =
//@rewrite . path . clone ( ) ==> . path . clone_path ( )
//@rewrite path . clone ( ) ==> path . clone_path ( )
//@iterfn WalkDir::new values

//@item indxr/src/lib.rs struct:IndexableFileSet
pub struct IndexableFileSet {
    pub roots: Vec<PathBuf>,
    pub filter: Filter,
}
//@end
//@item indxr/src/lib.rs struct:IndexedFile
pub struct IndexedFile<V> {
    pub path: PathBuf,
    pub value: V,
}
//@end
//@item indxr/src/lib.rs struct:FileIndexImpl
«#[verifier::reject_recursive_types(V)]»
pub struct FileIndexImpl<V> {
    pub file_set: IndexableFileSet,
    pub data: PathMap<IndexedFile<V>>,
    pub mapper: Mapper<V>,
    «pub world: Ghost<World>,»
}
//@end

impl<V> FileIndexImpl<V> {
    /// the value the index should hold for `k`
    pub open spec fn want(self, fs: Fs, k: Key) -> Option<V> {
        if fs.files.contains_key(k) && self.file_set.filter.accepts(k) { self.mapper.value(k, fs.files[k]) } else { None }
    }
    pub open spec fn holds(m: Map<Key, IndexedFile<V>>, k: Key, w: Option<V>) -> bool {
        match w {
            Some(v) => m.contains_key(k) && m[k].value == v && m[k].path@ == k,
            None => !m.contains_key(k),
        }
    }
    /// up to date at `k`
    pub open spec fn ok_at(self, fs: Fs, k: Key) -> bool { Self::holds(self.data@, k, self.want(fs, k)) }
    /// up to date at `k`, or an event will come
    pub open spec fn fine(self, k: Key) -> bool { self.ok_at(self.world@.fs, k) || covered(self.world@.queue, k) }
}
pub open spec fn same_at<T>(a: Map<Key, T>, b: Map<Key, T>, k: Key) -> bool {
    a.contains_key(k) == b.contains_key(k) && (a.contains_key(k) ==> a[k] == b[k])
}
/// what processing of a path does
pub open spec fn change_step<V>(a: FileIndexImpl<V>, b: FileIndexImpl<V>, p: Key) -> bool {
    &&& b.file_set == a.file_set && b.mapper == a.mapper
    &&& forall|k: Key| prefix(p, k) ==> #[trigger] b.ok_at(a.world@.fs, k)
    &&& forall|k: Key| !prefix(p, k) ==> #[trigger] same_at(a.data@, b.data@, k)
    &&& evolves(a.world@, b.world@)
}

/// after visiting the first `n` of `l`: those below `p` are gone
pub open spec fn dropped<T>(a: Map<Key, T>, b: Map<Key, T>, l: Seq<PathBuf>, n: int, p: Key) -> bool {
    &&& forall|k: Key| #![trigger b.contains_key(k)] #![trigger same_at(a, b, k)] !prefix(p, k) ==> same_at(a, b, k)
    &&& forall|k: Key| #[trigger] b.contains_key(k) ==> same_at(a, b, k)
    &&& forall|i: int| 0 <= i < n && prefix(p, (#[trigger] l[i])@) ==> !b.contains_key(l[i]@)
}
pub open spec fn all_dropped<T>(a: Map<Key, T>, b: Map<Key, T>, p: Key) -> bool {
    &&& forall|k: Key| #![trigger b.contains_key(k)] #![trigger same_at(a, b, k)] !prefix(p, k) ==> same_at(a, b, k)
    &&& forall|k: Key| #![trigger b.contains_key(k)] prefix(p, k) ==> !b.contains_key(k)
}
pub proof fn lemma_dropped_all<T>(a: Map<Key, T>, b: Map<Key, T>, l: Seq<PathBuf>, p: Key)
    requires dropped(a, b, l, l.len() as int, p), forall|k: Key| #[trigger] a.contains_key(k) ==> key_in(l, k)
    ensures all_dropped(a, b, p)
{
    assert forall|k: Key| #![trigger b.contains_key(k)] prefix(p, k) implies !b.contains_key(k) by {
        if b.contains_key(k) {
            assert(same_at(a, b, k));
            assert(key_in(l, k));
            let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i])@ == k;
            assert(prefix(p, l[i]@));
        }
    }
}
/// the files found by a walk that are to be indexed
pub open spec fn found<V>(ix: FileIndexImpl<V>, fs: Fs, p: Key, l: Seq<Result<DirEntry, WalkErr>>, n: int, r: Seq<DirEntry>) -> bool {
    &&& forall|j: int| 0 <= j < r.len() ==> {
        let k = (#[trigger] r[j]).p@;
        prefix(p, k) && fs.files.contains_key(k) && ix.file_set.filter.accepts(k)
    }
    &&& forall|i: int| #![trigger l[i]] 0 <= i < n && l[i].is_ok() && fs.files.contains_key(l[i]->Ok_0.p@) && ix.file_set.filter.accepts(l[i]->Ok_0.p@)
        ==> entry_in(r, l[i]->Ok_0.p@)
}
pub open spec fn entry_in(r: Seq<DirEntry>, k: Key) -> bool { exists|j: int| 0 <= j < r.len() && (#[trigger] r[j]).p@ == k }
pub open spec fn found_all<V>(ix: FileIndexImpl<V>, fs: Fs, p: Key, r: Seq<DirEntry>) -> bool {
    forall|k: Key| #![trigger entry_in(r, k)] entry_in(r, k) <==> prefix(p, k) && fs.files.contains_key(k) && ix.file_set.filter.accepts(k)
}
pub proof fn lemma_found_all<V>(ix: FileIndexImpl<V>, fs: Fs, p: Key, l: Seq<Result<DirEntry, WalkErr>>, r: Seq<DirEntry>)
    requires listing(l, fs, p), found(ix, fs, p, l, l.len() as int, r)
    ensures found_all(ix, fs, p, r)
{
    assert forall|k: Key| #![trigger entry_in(r, k)] entry_in(r, k) <==> prefix(p, k) && fs.files.contains_key(k) && ix.file_set.filter.accepts(k) by {
        if entry_in(r, k) { let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j]).p@ == k; }
        if prefix(p, k) && fs.files.contains_key(k) && ix.file_set.filter.accepts(k) {
            assert(listed(l, k));
            let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).is_ok() && l[i]->Ok_0.p@ == k;
            assert(entry_in(r, l[i]->Ok_0.p@));
        }
    }
}
pub proof fn lemma_found_step<V>(ix: FileIndexImpl<V>, fs: Fs, p: Key, l: Seq<Result<DirEntry, WalkErr>>, n: int, r: Seq<DirEntry>, r2: Seq<DirEntry>)
    requires listing(l, fs, p), 0 <= n < l.len(), found(ix, fs, p, l, n, r),
        ({ let take = l[n].is_ok() && fs.files.contains_key(l[n]->Ok_0.p@) && ix.file_set.filter.accepts(l[n]->Ok_0.p@);
           r2 == if take { r.push(l[n]->Ok_0) } else { r } })
    ensures found(ix, fs, p, l, n + 1, r2)
{
    assert forall|i: int| #![trigger l[i]] 0 <= i < n + 1 && l[i].is_ok() && fs.files.contains_key(l[i]->Ok_0.p@) && ix.file_set.filter.accepts(l[i]->Ok_0.p@)
        implies entry_in(r2, l[i]->Ok_0.p@) by {
        if i < n {
            assert(entry_in(r, l[i]->Ok_0.p@));
            let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j]).p@ == l[i]->Ok_0.p@;
            assert(r2[j] == r[j]);
        } else {
            assert(r2[r2.len() - 1] == l[n]->Ok_0);
        }
    }
}
/// the values of the first `n` found files
pub open spec fn mapped<V>(ix: FileIndexImpl<V>, fs: Fs, r: Seq<DirEntry>, n: int, m: Map<Key, IndexedFile<V>>) -> bool {
    forall|k: Key| #[trigger] mapped_at(ix, fs, r, n, m, k)
}
pub open spec fn mapped_at<V>(ix: FileIndexImpl<V>, fs: Fs, r: Seq<DirEntry>, n: int, m: Map<Key, IndexedFile<V>>, k: Key) -> bool {
    FileIndexImpl::<V>::holds(m, k, if entry_in(r.take(n), k) { ix.mapper.value(k, fs.files[k]) } else { None })
}
pub proof fn lemma_mapped_step<V>(ix: FileIndexImpl<V>, fs: Fs, r: Seq<DirEntry>, n: int, m: Map<Key, IndexedFile<V>>, f: PathBuf, m2: Map<Key, IndexedFile<V>>)
    requires 0 <= n < r.len(), mapped(ix, fs, r, n, m), f@ == r[n].p@,
        match ix.mapper.value(f@, fs.files[f@]) {
            Some(v) => m2 == m.insert(f@, IndexedFile { path: m2[f@].path, value: v }) && m2[f@].path@ == f@,
            None => m2 == m,
        }
    ensures mapped(ix, fs, r, n + 1, m2)
{
    assert forall|k: Key| #[trigger] mapped_at(ix, fs, r, n + 1, m2, k) by {
        let a = r.take(n); let b = r.take(n + 1);
        if entry_in(a, k) { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).p@ == k; assert(b[j] == a[j]); }
        if entry_in(b, k) { let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).p@ == k; if j < n { assert(a[j] == b[j]); } }
        assert(b[n] == r[n]);
        assert(mapped_at(ix, fs, r, n, m, k));
    }
}

/// what processing of a path does to the entries
pub open spec fn done<V>(a: FileIndexImpl<V>, d: Map<Key, IndexedFile<V>>, p: Key) -> bool {
    &&& forall|k: Key| prefix(p, k) ==> #[trigger] FileIndexImpl::<V>::holds(d, k, a.want(a.world@.fs, k))
    &&& forall|k: Key| !prefix(p, k) ==> #[trigger] same_at(a.data@, d, k)
}
pub proof fn lemma_change_step<V>(a: FileIndexImpl<V>, b: FileIndexImpl<V>, p: Key)
    requires done(a, b.data@, p), b.file_set == a.file_set, b.mapper == a.mapper, evolves(a.world@, b.world@)
    ensures change_step(a, b, p)
{
    assert forall|k: Key| prefix(p, k) implies #[trigger] b.ok_at(a.world@.fs, k) by {
        assert(FileIndexImpl::<V>::holds(b.data@, k, a.want(a.world@.fs, k)));
    }
}
/// nothing there
pub proof fn lemma_gone<V>(a: FileIndexImpl<V>, d: Map<Key, IndexedFile<V>>, p: Key)
    requires all_dropped(a.data@, d, p), a.world@.fs.wf(), !a.world@.fs.exists(p), p.len() > 0
    ensures done(a, d, p)
{
    let fs = a.world@.fs;
    assert forall|k: Key| prefix(p, k) implies #[trigger] FileIndexImpl::<V>::holds(d, k, a.want(fs, k)) by {
        assert(!d.contains_key(k));
        if fs.files.contains_key(k) { assert(p == k || fs.dirs.contains(p)); }
    }
}
pub proof fn lemma_prefix_self(p: Key) ensures prefix(p, p) {}
/// a file is there
pub proof fn lemma_file<V>(a: FileIndexImpl<V>, m: Map<Key, IndexedFile<V>>, d: Map<Key, IndexedFile<V>>, p: Key)
    requires all_dropped(a.data@, m, p), a.world@.fs.wf(), a.world@.fs.files.contains_key(p), p.len() > 0,
        match a.want(a.world@.fs, p) {
            Some(v) => d == m.insert(p, IndexedFile { path: d[p].path, value: v }) && d[p].path@ == p,
            None => d =~= m.remove(p),
        }
    ensures done(a, d, p)
{
    let fs = a.world@.fs;
    lemma_prefix_self(p);
    assert forall|k: Key| prefix(p, k) implies #[trigger] FileIndexImpl::<V>::holds(d, k, a.want(fs, k)) by {
        assert(!m.contains_key(k));
        if k != p && fs.files.contains_key(k) { assert(fs.dirs.contains(p)); }
    }
    assert forall|k: Key| !prefix(p, k) implies #[trigger] same_at(a.data@, d, k) by { assert(same_at(a.data@, m, k)); }
}
/// a directory is there
pub proof fn lemma_dir<V>(a: FileIndexImpl<V>, m: Map<Key, IndexedFile<V>>, l: Map<Key, IndexedFile<V>>, d: Map<Key, IndexedFile<V>>, r: Seq<DirEntry>, p: Key)
    requires all_dropped(a.data@, m, p), d == m.union_prefer_right(l), found_all(a, a.world@.fs, p, r), mapped(a, a.world@.fs, r, r.len() as int, l)
    ensures done(a, d, p)
{
    let fs = a.world@.fs;
    assert(r.take(r.len() as int) =~= r);
    assert forall|k: Key| prefix(p, k) implies #[trigger] FileIndexImpl::<V>::holds(d, k, a.want(fs, k)) by {
        assert(mapped_at(a, fs, r, r.len() as int, l, k));
        assert(!m.contains_key(k));
        assert(entry_in(r, k) <==> prefix(p, k) && fs.files.contains_key(k) && a.file_set.filter.accepts(k));
    }
    assert forall|k: Key| !prefix(p, k) implies #[trigger] same_at(a.data@, d, k) by {
        assert(mapped_at(a, fs, r, r.len() as int, l, k));
        assert(same_at(a.data@, m, k));
        assert(entry_in(r, k) ==> prefix(p, k));
    }
}

impl<V> FileIndexImpl<V> {
//@rewrite1 ( & self , ==> ( & mut self ,
//@fn indxr/src/lib.rs FileIndexImpl::change
    «#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]»
    pub fn change(&mut self, path: &PathBuf)
        «requires old(self).world@.fs.wf(), absolute(path@)
        ensures change_step(*old(self), *final(self), path@)»
    {
        let added = path.exists_at(Ghost(self.world@.fs));
        match (path.is_dir_at(Ghost(self.world@.fs)), added) {
            (false, true) => {
                let value = if self.file_set.filter.call(path) { self.mapper.call(path, Ghost(self.world@.fs)) } else { None };
                let mut data = (&mut self.data);
                {
                    let mut it__0 = data.keys_list();
                    «let ghost m0: Map<Key, IndexedFile<V>> = data@;»
                    loop
                        «invariant_except_break
                            it__0.wf(), dropped(m0, data@, it__0.v@, it__0.i as int, path@),
                            forall|k: Key| #[trigger] m0.contains_key(k) ==> key_in(it__0.v@, k),
                        ensures all_dropped(m0, data@, path@)
                        decreases it__0.v@.len() - it__0.i»
                    {
                        if let Some(x__0) = it__0.next() {
                            let k = &x__0;
                            if !(!k.starts_with(path)) {
                                data.remove(&x__0);
                            }
                        } else {
                            «proof { lemma_dropped_all(m0, data@, it__0.v@, path@); }»
                            break;
                        }
                    }
                };
                «let ghost m0x: Map<Key, IndexedFile<V>> = data@;»
                match value {
                    None => {
                        data.remove(path);
                    },
                    Some(value) => {
                        let file = IndexedFile { path: path.to_owned(), value };
                        data.insert(path.to_owned(), file);
                    }
                };
                «proof { lemma_file(*old(self), m0x, self.data@, path@); }»
            }
            (_, false) => {
                {
                    let mut m__0 = (&mut self.data);
                    let mut it__1 = m__0.keys_list();
                    «let ghost m1: Map<Key, IndexedFile<V>> = m__0@;»
                    loop
                        «invariant_except_break
                            it__1.wf(), dropped(m1, m__0@, it__1.v@, it__1.i as int, path@),
                            forall|k: Key| #[trigger] m1.contains_key(k) ==> key_in(it__1.v@, k),
                        ensures all_dropped(m1, m__0@, path@)
                        decreases it__1.v@.len() - it__1.i»
                    {
                        if let Some(x__1) = it__1.next() {
                            let k = &x__1;
                            if !({ !k.starts_with(path) }) {
                                m__0.remove(&x__1);
                            }
                        } else {
                            «proof { lemma_dropped_all(m1, m__0@, it__1.v@, path@); }»
                            break;
                        }
                    }
                };
                «proof { lemma_gone(*old(self), self.data@, path@); }»
            }
            (true, true) => {
                let mut files = {
                    let mut r__1 = Vec::new();
                    let mut it__2 = WalkDir::new(path, Ghost(self.world@.fs));
                    loop
                        «invariant_except_break
                            it__2.wf(), found(*self, self.world@.fs, path@, it__2.v@, it__2.i as int, r__1@), listing(it__2.v@, self.world@.fs, path@),
                        ensures found_all(*self, self.world@.fs, path@, r__1@)
                        decreases it__2.v@.len() - it__2.i»
                    {
                        if let Some(x__2) = it__2.next() {
                            «let ghost r0: Seq<DirEntry> = r__1@;»
                            let entry = x__2;
                            if let Some(y__2) = entry.ok() {
                                let entry = &y__2;
                                if entry.file_type().is_file_at(Ghost(self.world@.fs)) && self.file_set.filter.call(entry.path()) {
                                    r__1.push(y__2);
                                }
                            }
                            «proof { lemma_found_step(*self, self.world@.fs, path@, it__2.v@, it__2.i - 1, r0, r__1@); }»
                        } else {
                            «proof { lemma_found_all(*self, self.world@.fs, path@, it__2.v@, r__1@); }»
                            break;
                        }
                    }
                    vec_iter(r__1)
                };
                let mut local = PathMap::new();
                {
                    loop
                        «invariant_except_break
                            files.wf(), mapped(*self, self.world@.fs, files.v@, files.i as int, local@),
                            found_all(*self, self.world@.fs, path@, files.v@),
                        ensures found_all(*self, self.world@.fs, path@, files.v@), mapped(*self, self.world@.fs, files.v@, files.v@.len() as int, local@)
                        decreases files.v@.len() - files.i»
                    {
                        if let Some(x__3) = files.next() {
                            «let ghost l0: Map<Key, IndexedFile<V>> = local@;»
                            let entry = x__3;
                            let path = entry.path().to_owned();
                            «proof { assert(entry_in(files.v@, files.v@[files.i - 1].p@)); }»
                            if let Some(value) = self.mapper.call(&path, Ghost(self.world@.fs)) {
                                let file = IndexedFile { path: path.clone_path(), value };
                                local.insert(path.clone_path(), file);
                            }
                            «proof { lemma_mapped_step(*self, self.world@.fs, files.v@, files.i - 1, l0, path, local@); }»
                        } else {
                            break;
                        }
                    }
                }
                let mut data = (&mut self.data);
                {
                    let mut it__4 = data.keys_list();
                    «let ghost m4: Map<Key, IndexedFile<V>> = data@;»
                    loop
                        «invariant_except_break
                            it__4.wf(), dropped(m4, data@, it__4.v@, it__4.i as int, path@),
                            forall|k: Key| #[trigger] m4.contains_key(k) ==> key_in(it__4.v@, k),
                        ensures all_dropped(m4, data@, path@)
                        decreases it__4.v@.len() - it__4.i»
                    {
                        if let Some(x__4) = it__4.next() {
                            let k = &x__4;
                            if !(!k.starts_with(path)) {
                                data.remove(&x__4);
                            }
                        } else {
                            «proof { lemma_dropped_all(m4, data@, it__4.v@, path@); }»
                            break;
                        }
                    }
                };
                «let ghost m4x: Map<Key, IndexedFile<V>> = data@; let ghost l4: Map<Key, IndexedFile<V>> = local@;»
                data.extend(local);
                «proof { lemma_dir(*old(self), m4x, l4, self.data@, files.v@, path@); }»
            }
        };
        «proof { later_evolves(self.world@); self.world = Ghost(later(self.world@)); lemma_change_step(*old(self), *self, path@); }»
    }
//@end
}


// ---- watching -------------------------------------------------------------------------------
pub struct Duration { pub d: u64 }
impl Duration {
    pub fn from_secs(n: u64) -> Duration { Duration { d: n } }
    pub fn from_millis(n: u64) -> Duration { Duration { d: n } }
    pub fn as_secs(&self) -> u64 { self.d }
}
pub struct Instant { pub i: u64 }
impl Instant {
    pub fn now() -> Instant { Instant { i: 0 } }
    pub fn elapsed(&self) -> Duration { Duration { d: 0 } }
}
#[derive(Debug)]
pub struct NotifyError { pub e: u64 }
pub struct RecvError { pub e: u64 }
pub struct Sender { pub s: u64 }
impl Sender {
    pub fn clone(&self) -> Sender { Sender { s: self.s } }
}
pub enum RecursiveMode { Recursive, NonRecursive }
/// the variants of notify::DebouncedEvent
pub enum DebouncedEvent {
    NoticeWrite(PathBuf), NoticeRemove(PathBuf), Create(PathBuf), Write(PathBuf), Chmod(PathBuf), Remove(PathBuf),
    Rename(PathBuf, PathBuf), Rescan, Error(NotifyError, Option<PathBuf>),
}
/// the paths an event announces changes for; after a Rescan anything watched may have changed
pub open spec fn announced(e: DebouncedEvent, w: World) -> Set<Key> {
    match e {
        DebouncedEvent::Create(p) => set![p@],
        DebouncedEvent::Write(p) => set![p@],
        DebouncedEvent::Remove(p) => set![p@],
        DebouncedEvent::Rename(p, q) => set![p@, q@],
        DebouncedEvent::Rescan => w.watched,
        _ => Set::empty(),
    }
}
pub open spec fn mentions(e: DebouncedEvent) -> Set<Key> {
    match e {
        DebouncedEvent::NoticeWrite(p) => set![p@],
        DebouncedEvent::NoticeRemove(p) => set![p@],
        DebouncedEvent::Create(p) => set![p@],
        DebouncedEvent::Write(p) => set![p@],
        DebouncedEvent::Chmod(p) => set![p@],
        DebouncedEvent::Remove(p) => set![p@],
        DebouncedEvent::Rename(p, q) => set![p@, q@],
        DebouncedEvent::Error(_, Some(p)) => set![p@],
        _ => Set::empty(),
    }
}
/// receiving an event takes what it announces from what is still to be announced
pub open spec fn received(a: World, b: World, r: Result<DebouncedEvent, RecvError>) -> bool {
    let w = later(a);
    &&& evolves(a, w)
    &&& b.fs == w.fs && b.watched == w.watched && b.failed == w.failed
    &&& match r {
        Ok(e) => {
            &&& forall|k: Key| covered(w.queue, k) ==> #[trigger] covered(b.queue, k) || covered(announced(e, w), k)
            &&& forall|p: Key| #[trigger] mentions(e).contains(p) ==> absolute(p) && covered(w.watched, p)
        }
        Err(_) => b.queue == w.queue,
    }
}
pub struct Receiver { pub s: u64 }
impl Receiver {
    #[verifier::external_body]
    pub fn recv(&self, w: &mut Ghost<World>) -> (r: Result<DebouncedEvent, RecvError>)
        requires old(w)@.fs.wf()
        ensures received(old(w)@, final(w)@, r)
    { unimplemented!() }
}
pub fn channel() -> (Sender, Receiver) { (Sender { s: 0 }, Receiver { s: 0 }) }
pub struct RecommendedWatcher { pub w: u64 }
pub open spec fn starts_watching(a: World, b: World, p: Key, ok: bool, all: bool) -> bool {
    let w = later(a);
    evolves(a, w) && b.failed == (w.failed || !ok) && b.fs == w.fs && b.queue == w.queue && b.watched == if ok && all { w.watched.insert(p) } else { w.watched }
}
impl RecommendedWatcher {
    #[verifier::external_body]
    pub fn watch(&mut self, p: &PathBuf, m: RecursiveMode, w: &mut Ghost<World>) -> (r: Result<(), NotifyError>)
        requires old(w)@.fs.wf()
        ensures starts_watching(old(w)@, final(w)@, p@, r.is_ok(), m == RecursiveMode::Recursive)
    { unimplemented!() }
}
pub struct Watcher { pub w: u64 }
impl Watcher {
    #[verifier::external_body]
    pub fn new(tx: Sender, d: Duration) -> (r: Result<RecommendedWatcher, NotifyError>) ensures r.is_ok() { unimplemented!() }
}

pub open spec fn under_roots(roots: Seq<PathBuf>, k: Key) -> bool { exists|i: int| 0 <= i < roots.len() && prefix((#[trigger] roots[i])@, k) }
pub open spec fn root_is(roots: Seq<PathBuf>, k: Key) -> bool { exists|i: int| 0 <= i < roots.len() && (#[trigger] roots[i])@ == k }
impl IndexableFileSet {
    /// watchers report absolute paths
    pub open spec fn wf(self) -> bool { forall|i: int| 0 <= i < self.roots@.len() ==> absolute((#[trigger] self.roots@[i])@) }
}
impl<V> FileIndexImpl<V> {
    /// nothing is held for files outside the roots, and only roots are watched
    pub open spec fn inside(self) -> bool {
        &&& self.file_set.wf() && self.world@.fs.wf()
        &&& forall|k: Key| #[trigger] self.data@.contains_key(k) ==> under_roots(self.file_set.roots@, k)
        &&& forall|k: Key| #[trigger] self.world@.watched.contains(k) ==> root_is(self.file_set.roots@, k)
    }
    /// the first `n` roots are watched, if it worked
    pub open spec fn watching(self, n: int) -> bool {
        !self.world@.failed ==> forall|i: int| 0 <= i < n ==> self.world@.watched.contains((#[trigger] self.file_set.roots@[i])@)
    }
    pub open spec fn watching_all(self) -> bool { self.watching(self.file_set.roots@.len() as int) }
    /// everything watched is up to date, except for what is announced by an event yet to be received
    pub open spec fn settled(self) -> bool {
        &&& self.inside()
        &&& forall|k: Key| covered(self.world@.watched, k) ==> #[trigger] self.fine(k)
    }
    /// ... or announced by one being processed
    pub open spec fn settled_but(self, q: Set<Key>) -> bool {
        &&& self.inside()
        &&& forall|k: Key| covered(self.world@.watched, k) ==> #[trigger] self.fine(k) || covered(q, k)
    }
}
/// C22: once every event has been received, the index holds the value of every watched indexable file and nothing else
pub proof fn theorem_mirror<V>(ix: FileIndexImpl<V>)
    requires ix.settled(), ix.watching_all(), ix.world@.queue == Set::<Key>::empty()
    ensures
        !ix.world@.failed ==> forall|k: Key| under_roots(ix.file_set.roots@, k) ==> #[trigger] ix.ok_at(ix.world@.fs, k),
        forall|k: Key| covered(ix.world@.watched, k) ==> #[trigger] ix.ok_at(ix.world@.fs, k),
        forall|k: Key| #[trigger] ix.data@.contains_key(k) ==> under_roots(ix.file_set.roots@, k)
{
    assert forall|k: Key| covered(ix.world@.watched, k) implies #[trigger] ix.ok_at(ix.world@.fs, k) by { assert(ix.fine(k)); }
    if !ix.world@.failed {
        assert forall|k: Key| under_roots(ix.file_set.roots@, k) implies #[trigger] ix.ok_at(ix.world@.fs, k) by {
            let i = choose|i: int| 0 <= i < ix.file_set.roots@.len() && prefix((#[trigger] ix.file_set.roots@[i])@, k);
            assert(ix.world@.watched.contains(ix.file_set.roots@[i]@));
            assert(covered(ix.world@.watched, k));
        }
    }
}
pub proof fn lemma_prefix_trans(a: Key, b: Key, c: Key)
    requires prefix(a, b), prefix(b, c)
    ensures prefix(a, c)
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == c[i] by { assert(b.subrange(0, a.len() as int)[i] == a[i]); assert(c.subrange(0, b.len() as int)[i] == b[i]); }
    assert(c.subrange(0, a.len() as int) =~= a);
}
/// processing `p` keeps what was fine and makes everything below `p` fine
pub proof fn lemma_change<V>(a: FileIndexImpl<V>, b: FileIndexImpl<V>, p: Key)
    requires change_step(a, b, p), a.inside(), under_roots(a.file_set.roots@, p)
    ensures b.inside(), b.world@.watched == a.world@.watched,
        forall|k: Key| #![trigger b.fine(k)] covered(b.world@.watched, k) && (a.fine(k) || prefix(p, k)) ==> b.fine(k)
{
    assert forall|k: Key| #![trigger b.fine(k)] covered(b.world@.watched, k) && (a.fine(k) || prefix(p, k)) implies b.fine(k) by {
        let (fa, fb) = (a.world@.fs, b.world@.fs);
        if fa.entry(k) == fb.entry(k) {
            assert(a.want(fa, k) == b.want(fb, k));
            if prefix(p, k) {
                assert(b.ok_at(fa, k));
            } else {
                assert(same_at(a.data@, b.data@, k));
                if covered(a.world@.queue, k) { assert(covered(b.world@.queue, k)); }
            }
        } else {
            assert(covered(b.world@.queue, k));
        }
    }
    assert forall|k: Key| #[trigger] b.data@.contains_key(k) implies under_roots(b.file_set.roots@, k) by {
        if prefix(p, k) {
            let i = choose|i: int| 0 <= i < a.file_set.roots@.len() && prefix((#[trigger] a.file_set.roots@[i])@, p);
            lemma_prefix_trans(a.file_set.roots@[i]@, p, k);
            assert(prefix(b.file_set.roots@[i]@, k));
        } else {
            assert(same_at(a.data@, b.data@, k));
        }
    }
}
pub proof fn lemma_in_roots<V>(a: FileIndexImpl<V>, p: Key)
    requires a.inside(), covered(a.world@.watched, p)
    ensures under_roots(a.file_set.roots@, p)
{
    let r = choose|r: Key| #[trigger] a.world@.watched.contains(r) && prefix(r, p);
    let i = choose|i: int| 0 <= i < a.file_set.roots@.len() && (#[trigger] a.file_set.roots@[i])@ == r;
    assert(prefix(a.file_set.roots@[i]@, p));
}
pub proof fn lemma_root<V>(a: FileIndexImpl<V>, i: int)
    requires 0 <= i < a.file_set.roots@.len()
    ensures under_roots(a.file_set.roots@, a.file_set.roots@[i]@)
{
    let p = a.file_set.roots@[i]@;
    lemma_prefix_self(p);
}
/// time passes
pub proof fn lemma_later<V>(a: FileIndexImpl<V>, b: FileIndexImpl<V>)
    requires a.inside(), b.file_set == a.file_set, b.data == a.data, b.mapper == a.mapper, evolves(a.world@, b.world@)
    ensures b.inside(),
        forall|k: Key| #![trigger b.fine(k)] covered(b.world@.watched, k) && a.fine(k) ==> b.fine(k)
{
    assert forall|k: Key| #![trigger b.fine(k)] covered(b.world@.watched, k) && a.fine(k) implies b.fine(k) by {
        let (fa, fb) = (a.world@.fs, b.world@.fs);
        if fa.entry(k) == fb.entry(k) {
            assert(a.want(fa, k) == b.want(fb, k));
            if covered(a.world@.queue, k) { assert(covered(b.world@.queue, k)); }
        } else {
            assert(covered(b.world@.queue, k));
        }
    }
}
/// an event is received
pub proof fn lemma_received<V>(a: FileIndexImpl<V>, b: FileIndexImpl<V>, r: Result<DebouncedEvent, RecvError>)
    requires a.settled(), received(a.world@, b.world@, r), b.file_set == a.file_set, b.data == a.data, b.mapper == a.mapper
    ensures b.inside(),
        match r { Ok(e) => b.settled_but(announced(e, b.world@)), Err(_) => b.settled() }
{
    let w = later(a.world@);
    let m = FileIndexImpl { world: Ghost(w), ..a };
    lemma_later(a, m);
    match r {
        Ok(e) => {
            assert(announced(e, b.world@) == announced(e, w));
            assert forall|k: Key| covered(b.world@.watched, k) implies #[trigger] b.fine(k) || covered(announced(e, b.world@), k) by {
                assert(a.fine(k));
                assert(m.fine(k));
                assert(b.want(b.world@.fs, k) == m.want(m.world@.fs, k));
                if covered(w.queue, k) { assert(covered(b.world@.queue, k) || covered(announced(e, w), k)); }
            }
        }
        Err(_) => {
            assert forall|k: Key| covered(b.world@.watched, k) implies #[trigger] b.fine(k) by {
                assert(a.fine(k));
                assert(m.fine(k));
                assert(b.want(b.world@.fs, k) == m.want(m.world@.fs, k));
            }
        }
    }
}
/// the roots indexed so far are fine
pub open spec fn rooted<V>(ix: FileIndexImpl<V>, n: int) -> bool {
    forall|k: Key| #![trigger ix.fine(k)] covered(ix.world@.watched, k) && under_first(ix.file_set.roots@, n, k) ==> ix.fine(k)
}
pub open spec fn under_first(roots: Seq<PathBuf>, n: int, k: Key) -> bool { exists|i: int| 0 <= i < n && prefix((#[trigger] roots[i])@, k) }
pub proof fn lemma_rooted_step<V>(a: FileIndexImpl<V>, b: FileIndexImpl<V>, n: int)
    requires a.inside(), rooted(a, n), 0 <= n < a.file_set.roots@.len(), change_step(a, b, a.file_set.roots@[n]@)
    ensures b.inside(), rooted(b, n + 1), b.world@.watched == a.world@.watched
{
    lemma_root(a, n);
    lemma_change(a, b, a.file_set.roots@[n]@);
    assert forall|k: Key| #![trigger b.fine(k)] covered(b.world@.watched, k) && under_first(b.file_set.roots@, n + 1, k) implies b.fine(k) by {
        let i = choose|i: int| 0 <= i < n + 1 && prefix((#[trigger] b.file_set.roots@[i])@, k);
        if i < n { assert(under_first(a.file_set.roots@, n, k)); assert(a.fine(k)); }
    }
}
pub proof fn lemma_rooted_all<V>(a: FileIndexImpl<V>)
    requires a.inside(), rooted(a, a.file_set.roots@.len() as int)
    ensures a.settled()
{
    assert forall|k: Key| covered(a.world@.watched, k) implies #[trigger] a.fine(k) by {
        lemma_in_roots(a, k);
        assert(under_first(a.file_set.roots@, a.file_set.roots@.len() as int, k));
    }
}
pub proof fn lemma_watching<V>(a: FileIndexImpl<V>, b: FileIndexImpl<V>, i: int, ok: bool)
    requires a.inside(), a.watching(i), 0 <= i < a.file_set.roots@.len(), starts_watching(a.world@, b.world@, a.file_set.roots@[i]@, ok, true),
        b.file_set == a.file_set, b.data == a.data, b.mapper == a.mapper
    ensures b.inside(), b.watching(i + 1)
{
    assert(root_is(a.file_set.roots@, a.file_set.roots@[i]@));
}
/// some of the paths in `q` are left
pub proof fn lemma_processed<V>(a: FileIndexImpl<V>, b: FileIndexImpl<V>, q: Set<Key>, q2: Set<Key>, p: Key)
    requires a.settled_but(q), change_step(a, b, p), under_roots(a.file_set.roots@, p), q =~= q2.insert(p) || q =~= q2
    ensures b.settled_but(q2), b.world@.watched == a.world@.watched
{
    lemma_change(a, b, p);
    assert forall|k: Key| covered(b.world@.watched, k) implies #[trigger] b.fine(k) || covered(q2, k) by {
        if covered(q, k) {
            let r = choose|r: Key| #[trigger] q.contains(r) && prefix(r, k);
            if r != p { assert(q2.contains(r)); }
        } else {
            assert(a.fine(k));
        }
    }
}
pub proof fn lemma_none_left<V>(a: FileIndexImpl<V>)
    requires a.settled_but(Set::empty())
    ensures a.settled()
{
    assert forall|k: Key| covered(a.world@.watched, k) implies #[trigger] a.fine(k) by { assert(!covered(Set::empty(), k)); }
}

//@rewrite1 :: std :: time :: Instant :: now ==> Instant :: now
//@rewrite1 ( index : & FileIndexImpl ==> ( index : & mut FileIndexImpl
//@rewrite1 & index . file_set . roots [ $i ] ==> & index . file_set . roots [ $i ] . clone_path ( )
//@rewrite1 rx . recv ( ) ==> rx . recv ( & mut index . world )
//@rewrite1 . watch ( $p , $m ) ==> . watch ( $p , $m , & mut index . world )
//@fn indxr/src/lib.rs watch
«#[verifier::exec_allows_no_decreases_clause]»
pub fn watch<V>(index: &mut FileIndexImpl<V>)
    «requires old(index).inside(), old(index).world@.watched == Set::<Key>::empty()»
{
    let (tx, rx) = channel();
    let _watchers = {
        let mut r__0 = Vec::new();
        let mut i__0: usize = 0;
        while i__0 < index.file_set.roots.len()
            «invariant index.inside(), i__0 <= index.file_set.roots@.len(), index.watching(i__0 as int)
            decreases index.file_set.roots@.len() - i__0»
        {
            let j__0 = i__0;
            i__0 = i__0 + 1;
            let path = &index.file_set.roots[j__0].clone_path();
            «let ghost a: FileIndexImpl<V> = *index;»
            r__0.push({
                let tx = tx.clone();
                let mut watcher: RecommendedWatcher = Watcher::new(tx, Duration::from_secs(2)).unwrap();
                if let Err(e) = watcher.watch(path, RecursiveMode::Recursive, &mut index.world) {
                    {};
                }
                watcher
            });
            «proof {
                let p = a.file_set.roots@[j__0 as int]@;
                if starts_watching(a.world@, index.world@, p, true, true) { lemma_watching(a, *index, j__0 as int, true); } else { lemma_watching(a, *index, j__0 as int, false); }
            }»
        }
        r__0
    };
    «proof { assert(rooted(*index, 0)); if index.file_set.roots@.len() == 0 { lemma_rooted_all(*index); } }»
    let initial_indexing_start = Instant::now();
    {
        let mut i__1: usize = 0;
        while i__1 < index.file_set.roots.len()
            «invariant index.watching_all(), index.inside(), i__1 <= index.file_set.roots@.len(), rooted(*index, i__1 as int),
                i__1 == index.file_set.roots@.len() ==> index.settled(),
            decreases index.file_set.roots@.len() - i__1»
        {
            let j__1 = i__1;
            i__1 = i__1 + 1;
            let path = &index.file_set.roots[j__1].clone_path();
            «let ghost a: FileIndexImpl<V> = *index;»
            index.change(path)
            «; proof {
                lemma_rooted_step(a, *index, j__1 as int);
                if i__1 == index.file_set.roots@.len() { lemma_rooted_all(*index); }
            }»
        }
    }
    let elapsed = initial_indexing_start.elapsed();
    {};
    loop
        «invariant index.settled(), index.watching_all()»
    {
        «let ghost a: FileIndexImpl<V> = *index;»
        match rx.recv(&mut index.world) {
            Ok(event) => {
                «let ghost b: FileIndexImpl<V> = *index; let ghost q: Set<Key> = announced(event, index.world@);
                proof { lemma_received(a, b, Ok(event)); }»
                {};
                match event {
                    DebouncedEvent::NoticeWrite(path) | DebouncedEvent::NoticeRemove(path) | DebouncedEvent::Create(path) | DebouncedEvent::Write(path) | DebouncedEvent::Remove(path) => {
                        «proof { assert(mentions(event).contains(path@)); lemma_in_roots(b, path@); }»
                        index.change(&path)
                        «; proof { lemma_processed(b, *index, q, Set::empty(), path@); lemma_none_left(*index); }»
                    }
                    DebouncedEvent::Rename(p1, p2) => {
                        «proof {
                            assert(mentions(event).contains(p1@)); lemma_in_roots(b, p1@);
                            assert(mentions(event).contains(p2@)); lemma_in_roots(b, p2@);
                        }»
                        index.change(&p1);
                        «let ghost c: FileIndexImpl<V> = *index; proof { lemma_processed(b, c, q, set![p2@], p1@); }»
                        index.change(&p2);
                        «proof { lemma_processed(c, *index, set![p2@], Set::empty(), p2@); lemma_none_left(*index); }»
                    }
                    DebouncedEvent::Rescan => {
                        {
                            «proof { assert(rooted(*index, 0)); if index.file_set.roots@.len() == 0 { lemma_rooted_all(*index); } }»
                            let mut i__2: usize = 0;
                            while i__2 < index.file_set.roots.len()
                                «invariant index.watching_all(), index.inside(), i__2 <= index.file_set.roots@.len(), rooted(*index, i__2 as int),
                                    i__2 == index.file_set.roots@.len() ==> index.settled(),
                                decreases index.file_set.roots@.len() - i__2»
                            {
                                let j__2 = i__2;
                                i__2 = i__2 + 1;
                                let path = &index.file_set.roots[j__2].clone_path();
                                «let ghost a: FileIndexImpl<V> = *index;»
                                index.change(path)
                                «; proof {
                                    lemma_rooted_step(a, *index, j__2 as int);
                                    if i__2 == index.file_set.roots@.len() { lemma_rooted_all(*index); }
                                }»
                            }
                        }
                    }
                    _ => «{ proof { assert(q =~= Set::empty()); lemma_none_left(*index); }» continue «}»,
                }
            },
            Err(e) => {
                «proof { lemma_received(a, *index, Err(e)); }»
                {};
                continue
            }
        }
    }
}
//@end


// ---- making an index and reading it ----------------------------------------------------------
//@rewrite1 Box :: new ( move | path | path . extension ( ) . unwrap_or_default ( ) == ext ) ==> Filter :: by_extension ( ext )
//@rewrite1 :: std :: env :: current_dir ( ) ==> current_dir ( )
impl IndexableFileSet {
//@fn indxr/src/lib.rs IndexableFileSet::new
    pub fn new(roots: Vec<PathBuf>, ext: &'static str) -> «(r:» IndexableFileSet «)
        ensures r.wf(), r.roots@.len() == roots@.len(), forall|i: int| 0 <= i < roots@.len() ==> (#[trigger] r.roots@[i])@ == abs_key(roots@[i]@)»
    {
        «proof { cwd_absolute(); }»
        let cwd = current_dir().unwrap_or_default();
        IndexableFileSet {
            roots: {
                let mut r__0 «: Vec<PathBuf>» = Vec::new();
                let mut i__0: usize = 0;
                while i__0 < roots.len()
                    «invariant i__0 <= roots@.len(), r__0@.len() == i__0, cwd@ == cwd_key(), absolute(cwd@),
                        forall|i: int| 0 <= i < i__0 ==> (#[trigger] r__0@[i])@ == abs_key(roots@[i]@) && absolute(r__0@[i]@)
                    decreases roots@.len() - i__0»
                {
                    let j__0 = i__0;
                    i__0 = i__0 + 1;
                    let root = &roots[j__0];
                    r__0.push(cwd.join(root));
                }
                r__0
            },
            filter: Filter::by_extension(ext)
        }
    }
//@end
}

/// the sink of a query: what it was given, and whether it asked to stop
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct Sink<V> { p: core::marker::PhantomData<V> }
impl<V> Sink<V> {
    pub uninterp spec fn seen(&self) -> Seq<IndexedFile<V>>;
    pub uninterp spec fn stopped(&self) -> bool;
    #[verifier::external_body]
    pub fn call(&mut self, f: &IndexedFile<V>) -> (r: bool)
        requires !old(self).stopped()
        ensures final(self).seen() == old(self).seen().push(*f), final(self).stopped() == r
    { unimplemented!() }
}
//@rewrite V : Send + 'static ==> V
//@rewrite Arc < FileIndexImpl < V > > ==> FileIndexImpl < V >
//@item indxr/src/lib.rs struct:FileIndex ## C22
«#[verifier::reject_recursive_types(V)]»
pub struct FileIndex<V> {
    pub imp: FileIndexImpl<V>,
}
//@end
/// `s` is the entries for the first `n` of the keys
pub open spec fn entries<V>(d: PathMap<IndexedFile<V>>, n: int) -> Seq<IndexedFile<V>> {
    Seq::new(n as nat, |i: int| d@[d.order()[i]])
}
impl<V> FileIndex<V> {
//@rewrite1 self . imp . data . lock ( ) . unwrap ( ) ==> & self . imp . data
//@rewrite1 & mut dyn FnMut ( & IndexedFile < V > ) -> bool ==> & mut Sink < V >
//@rewrite1 sink ( $f ) ==> sink . call ( $f )
//@fn indxr/src/lib.rs FileIndex::process_files
    pub fn process_files(&self, sink: &mut Sink<V>)
        «requires !old(sink).stopped()
        ensures
            enumerates(self.imp.data.order(), self.imp.data@),
            exists|n: int| 0 <= n <= self.imp.data.order().len() && final(sink).seen() =~= old(sink).seen() + #[trigger] entries(self.imp.data, n)
                && (final(sink).stopped() || n == self.imp.data.order().len())»
    {
        let data = &self.imp.data;
        {
            let mut it__0 = data.values();
            loop
                «invariant_except_break
                    it__0.wf(), enumerates(data.order(), data@), it__0.v@.len() == data.order().len(), *data == self.imp.data,
                    forall|i: int| 0 <= i < it__0.v@.len() ==> *(#[trigger] it__0.v@[i]) == data@[data.order()[i]],
                    !sink.stopped(), sink.seen() =~= old(sink).seen() + entries(*data, it__0.i as int),
                ensures
                    enumerates(self.imp.data.order(), self.imp.data@), sink.seen() =~= old(sink).seen() + entries(self.imp.data, self.imp.data.order().len() as int)
                decreases it__0.v@.len() - it__0.i»
            {
                if let Some(x__0) = it__0.next() {
                    let file = x__0;
                    «proof { assert(entries(*data, it__0.i as int) =~= entries(*data, it__0.i - 1).push(*file)); }»
                    if sink.call(file) {
                        return
                    }
                } else {
                    break;
                }
            }
        }
    }
//@end
}

/// whatever is there when an index is made; nothing is watched yet
pub uninterp spec fn start_world() -> World;
pub axiom fn start_world_ok() ensures start_world().fs.wf(), start_world().watched == Set::<Key>::empty(), !start_world().failed;
/// starts the watching thread: the call runs concurrently, on its own handle of the index
pub fn spawn_watch<V>(index: &FileIndexImpl<V>)
    requires index.inside(), index.world@.watched == Set::<Key>::empty()
{}
impl<V> FileIndex<V> {
//@rewrite1 Arc :: new ( imp ) ==> imp
//@rewrite1 let imp2 = imp . clone ( ) ; ==> let imp2 = & imp ;
//@rewrite1 :: std :: thread :: spawn ( move | | watch ( & imp2 ) ) ==> spawn_watch ( imp2 )
//@rewrite1 Default :: default ( ) ==> PathMap :: default ( )
//@fn indxr/src/lib.rs FileIndex::new
    pub fn new(file_set: IndexableFileSet, mapper: Mapper<V>) -> «(r:» Self «)
        requires file_set.wf()»
    {
        «proof { start_world_ok(); }»
        let imp = FileIndexImpl { «world: Ghost(start_world()),» file_set, data: PathMap::default(), mapper };
        let imp = imp;
        let imp2 = &imp;
        spawn_watch(imp2);
        FileIndex { imp }
    }
//@end
}

} // verus!
