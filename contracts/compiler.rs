// Unit: the project compiler (C29).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@option map_option maps_are_options keep_closures drop_items
//@rw type ImmutPath => Path
//@rw type CompileServerOpts<F, Ext> => CompileServerOpts
//@rw type EcoString => Text
//@rw type Arc<DiagnosticsTask> => DiagnosticsTask
//@rw type Arc<Path> => Path
//@rw type Arc<F::FontResolver> => Fonts<F>
//@rw type Arc<F::Registry> => Registry<F>
//@rw type Vfs<F::AccessModel> => Vfs<F>
//@rw type RevisingVfs<'_, F::AccessModel> => Vfs<F>
//@rw type Arc<LazyHash<Dict>> => Inputs
//@rw type Arc<LazyHash<Library>> => Library
//@rw type Arc<WorldComputeGraph<F>> => Graph<F>
//@rw type Arc<dyn CompileHandler<F, Ext>> => Handler
//@rw type mpsc::UnboundedSender<NotifyMessage> => Sender
//@rw type HashSet<$t> => PathSet
//@rw type EcoVec<$t> => Vec<$t>
//@rw type Box<dyn NotifyDeps> => Box<ProjectDeps>
//@rw type Box<dyn std::any::Any + Send> => Opaque
//@rw type rpds::RedBlackTreeMapSync<$k, $v> => DepMap
//@rw type SourceResult<$t> => core::result::Result<$t, VxErr>
//@rw type Result<$t> => core::result::Result<$t, VxErr>
//@rw type FileResult<$t> => core::result::Result<$t, FileError>
//@rw expr $p.increment_revision(|$v| $b) => { let mut $v = $p.vx_revise(); let vx_r = $b; $v.finish(); vx_r }
//@rw expr $x.clone() => vx_clone(&$x)
//@rw expr Arc::clone($x) => vx_clone(&$x)
//@rw expr $x.cloned() => vx_clone(&$x)
//@rw expr $a |= $b => $a = vx_or($a, $b)
//@rw expr $x.into_iter().collect() => vx_list($x)
//@rw expr Box::new($x) => vx_box($x)
//@rw expr $a.max($b) => vx_max($a, $b)
//@rw expr $w.file_path($d).and_then(|e| e.to_err()) => vx_path($w, $d)
//@rw expr &mut verse.vfs() => verse.vfs()
//@rw expr &mut vfs => &mut *vfs
//@rw expr move || $b => $b
//@rw expr f(&mut $x) => $x
//@rw expr inputs.unwrap_or_default() => vx_or_default(inputs)
//@rw expr start.elapsed().unwrap_or_default() => start.vx_elapsed()
//@rw expr tinymist_std::time::now() => vx_now()
//@rw type tinymist_std::time::Duration => Duration
//@rw type OnceLock<NowStorage> => OnceLock<Now>
//@dropcall log_send_error compute log_compile_report
//@rw expr $a == $b => vx_eq(&$a, &$b)
//@rw expr $a != $b => !vx_eq(&$a, &$b)
//@rw expr $a.snap => $a.vx_snap()
//@rw expr rayon::spawn($x) => ()
//@rw expr $x.into() => vx_into($x)
//@rw expr HashSet::new() => PathSet::new()
//@rw expr std::iter::once(&mut $c.primary).chain($c.dedicates.iter_mut()) => vx_projs(&mut $c.primary, &mut $c.dedicates)
//@rw expr std::iter::repeat_n($x, $n) => vx_repeat($x, $n)
//@rw expr $p.zip($c) => vx_zip($p, $c)
//@rw expr $v.iter_mut().find(|e| vx_eq(&e.id, &*$i)) => vx_find($v, $i)
//@rw expr $v.iter().position(|e| vx_eq(&e.id, &*$i)) => vx_position(&$v, $i)
//@rw expr Default::default() => vx_default()
//@rw expr ($h)($x_list) => $h($x_list)
//@rw expr CompilerUniverse::<F>::new_raw => CompilerUniverse::new_raw
//@rw expr NonZeroUsize::new($x) => vx_nonzero($x)
//@rw expr NonZeroUsize::MIN.saturating_add($x) => vx_after($x)
//@rw expr $x.checked_add($n) => vx_checked_add(*$x, $n)
//@rw expr event.opaque.as_ref().downcast_ref() => event.opaque.vx_tagged()
//@rw expr $x.inputs().clone() => $x.inputs()
//@macro eco_vec => Vec::new()
//@thread send finish status notify_compile notify_removed vx_revise run_compile may_compile may_compile2 remove_dedicates restart_dedicate process_inner on_any_compile_reason
use vstd::prelude::*;
verus! {
uninterp spec fn vx_vac(k: int) -> bool;
fn vx_assert(b: bool) requires b {}
#[verifier::external_body]
fn vx_panic<T>() -> T requires false { unimplemented!() }
// ---- iteration ------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct VxIt<T> { p: core::marker::PhantomData<T> }
impl<T> VxIt<T> {
    uninterp spec fn all(&self) -> Seq<T>;
    uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).pos() <= old(self).all().len()
        ensures final(self).all() == old(self).all(), 0 <= final(self).pos() <= final(self).all().len(),
            old(self).pos() < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() == old(self).all().len() ==> r is None && final(self).pos() == old(self).pos()
    { unimplemented!() }
}
/// something that can be gone through
trait VxColl: Sized { type It; spec fn starts(self, it: Self::It) -> bool; }
#[verifier::external_body]
fn vx_into_iter<C: VxColl>(c: C) -> (r: C::It) ensures c.starts(r) { unimplemented!() }
impl<T> VxColl for Vec<T> { type It = VxIt<T>; spec fn starts(self, it: VxIt<T>) -> bool { it.pos() == 0 && it.all() == self@ } }
impl<'a, T> VxColl for &'a Vec<T> { type It = VxIt<&'a T>; spec fn starts(self, it: VxIt<&'a T>) -> bool { it.pos() == 0 && it.all().len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] it.all()[i]) == self@[i] } }
impl<T> VxColl for VxIt<T> { type It = VxIt<T>; spec fn starts(self, it: VxIt<T>) -> bool { it == self } }
impl<'a, F: CompilerFeat, Ext> VxColl for VxProjs<'a, F, Ext> { type It = Self; spec fn starts(self, it: Self) -> bool { it == self } }
impl<'a, F: CompilerFeat, Ext, T> VxColl for VxZip<'a, F, Ext, T> { type It = Self; spec fn starts(self, it: Self) -> bool { it == self } }
/// the primary project and the others, lent one after the other
#[verifier::external_body]
#[verifier::reject_recursive_types(F)]
#[verifier::reject_recursive_types(Ext)]
struct VxProjs<'a, F: CompilerFeat, Ext> { p: core::marker::PhantomData<&'a mut (F, Ext)> }
impl<'a, F: CompilerFeat, Ext> VxProjs<'a, F, Ext> {
    /// as they are now, and as they are when all of them were lent
    uninterp spec fn cur(&self) -> Seq<ProjectInsState<F, Ext>>;
    uninterp spec fn end(&self) -> Seq<ProjectInsState<F, Ext>>;
    uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<&mut ProjectInsState<F, Ext>>)
        requires 0 <= old(self).pos() <= old(self).cur().len()
        ensures final(self).end() == old(self).end(),
            old(self).pos() < old(self).cur().len() ==> r is Some && *(r->0) == old(self).cur()[old(self).pos()] && final(self).cur() == old(self).cur().update(old(self).pos(), *final(r->0)) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() == old(self).cur().len() ==> r is None && final(self).cur() == old(self).cur() && final(self).pos() == old(self).pos() && final(self).cur() == final(self).end()
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_projs<'a, F: CompilerFeat, Ext>(p: &'a mut ProjectInsState<F, Ext>, d: &'a mut Vec<ProjectInsState<F, Ext>>) -> (r: VxProjs<'a, F, Ext>)
    ensures r.pos() == 0, r.cur() == seq![*old(p)] + old(d)@, r.end() == seq![*final(p)] + final(d)@ { unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct Repeat<T> { p: core::marker::PhantomData<T> }
impl<T> Repeat<T> { uninterp spec fn what(&self) -> T; uninterp spec fn left(&self) -> int; }
#[verifier::external_body]
fn vx_repeat<T>(t: T, n: usize) -> (r: Repeat<T>) ensures r.what() == t, r.left() == n { unimplemented!() }
/// each project with a copy
#[verifier::external_body]
#[verifier::reject_recursive_types(F)]
#[verifier::reject_recursive_types(Ext)]
#[verifier::reject_recursive_types(T)]
struct VxZip<'a, F: CompilerFeat, Ext, T> { p: core::marker::PhantomData<&'a mut (F, Ext, T)> }
impl<'a, F: CompilerFeat, Ext, T> VxZip<'a, F, Ext, T> {
    uninterp spec fn cur(&self) -> Seq<ProjectInsState<F, Ext>>;
    uninterp spec fn end(&self) -> Seq<ProjectInsState<F, Ext>>;
    uninterp spec fn pos(&self) -> int;
    uninterp spec fn what(&self) -> T;
    uninterp spec fn left(&self) -> int;
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<(&mut ProjectInsState<F, Ext>, T)>)
        requires 0 <= old(self).pos() <= old(self).cur().len()
        ensures final(self).end() == old(self).end(), final(self).what() == old(self).what(),
            old(self).pos() < old(self).cur().len() && old(self).left() > 0 ==> r is Some && *((r->0).0) == old(self).cur()[old(self).pos()] && (r->0).1 == old(self).what()
                && final(self).cur() == old(self).cur().update(old(self).pos(), *final((r->0).0)) && final(self).pos() == old(self).pos() + 1 && final(self).left() == old(self).left() - 1,
            old(self).pos() == old(self).cur().len() || old(self).left() <= 0 ==> r is None && final(self).cur() == old(self).cur() && final(self).pos() == old(self).pos() && final(self).left() == old(self).left() && final(self).cur() == final(self).end()
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_zip<'a, F: CompilerFeat, Ext, T>(p: VxProjs<'a, F, Ext>, c: Repeat<T>) -> (r: VxZip<'a, F, Ext, T>)
    ensures r.pos() == p.pos(), r.cur() == p.cur(), r.end() == p.end(), r.what() == c.what(), r.left() == c.left() { unimplemented!() }

// ---- values ---------------------------------------------------------------------------
trait CompilerFeat: Sized { }
struct PKey { x: int }
uninterp spec fn pk(t: Seq<char>) -> PKey;
/// a path; two are the same if their components are (std's)
#[verifier::external_body]
struct Path { x: u8 }
impl View for Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
/// a short text
#[verifier::external_body]
struct Text { x: u8 }
impl View for Text { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
struct VxErr { x: u8 }
#[verifier::external_body]
struct FileError { x: u8 }
#[verifier::external_body]
struct FileSnapshot { x: u8 }
#[verifier::external_body]
struct TypstDocument { x: u8 }
impl TypstDocument {
    #[verifier::external_body]
    fn num_of_pages(&self) -> u32 { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
struct FileId { x: u8 }
#[verifier::external_body]
struct Inputs { x: u8 }
#[verifier::external_body]
struct Library { x: u8 }
struct SourceDb { is_compiling: bool, slots: Slots }
#[verifier::external_body]
struct Slots { x: u8 }
#[verifier::external_body]
struct Now { x: u8 }
#[verifier::external_body]
struct Features { x: u8 }
#[verifier::external_body]
struct DiagnosticsTask { x: u8 }
#[verifier::external_body]
struct Duration { x: u8 }
#[derive(Clone, Copy)]
enum ExportTarget { Paged, Html }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct OnceLock<T> { p: core::marker::PhantomData<T> }
impl<T> OnceLock<T> {
    #[verifier::external_body]
    fn default() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn new() -> (r: Self) { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
struct NonZeroUsize { x: usize }
impl View for NonZeroUsize { type V = int; uninterp spec fn view(&self) -> int; }
impl NonZeroUsize {
    #[verifier::external_body]
    fn get(self) -> (r: usize) ensures r == self@, r > 0 { unimplemented!() }
}
#[verifier::external_body]
fn vx_nonzero(n: usize) -> (r: Option<NonZeroUsize>) ensures r is Some <==> n > 0, r is Some ==> r->0@ == n { unimplemented!() }
#[verifier::external_body]
fn vx_checked_add(a: NonZeroUsize, n: usize) -> (r: Option<NonZeroUsize>) ensures r is Some <==> a@ + n <= usize::MAX, r is Some ==> r->0@ == a@ + n { unimplemented!() }
#[verifier::external_body]
fn vx_after(n: usize) -> (r: NonZeroUsize) ensures r@ == if n < usize::MAX { n + 1 } else { n as int } { unimplemented!() }
fn vx_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
trait VxCopy { type O; spec fn same(self, o: Self::O) -> bool; }
#[verifier::external_body]
fn vx_clone<T: VxCopy>(t: T) -> (r: T::O) ensures t.same(r) { unimplemented!() }
macro_rules! copies { ($($t:ty),*) => { verus! { $(impl<'a> VxCopy for &'a $t { type O = $t; spec fn same(self, o: $t) -> bool { *self == o } }
impl<'b, 'a> VxCopy for &'b &'a $t { type O = $t; spec fn same(self, o: $t) -> bool { **self == o } })* } } }
copies!(Path, FileSnapshot, TypstDocument, Inputs, Features, Option<TypstDocument>, ProjectInsId, EntryState, Option<Inputs>, Option<EntryState>, MemoryEvent, FileChangeSet, ProjectDeps, Vec<Path>, Library, Handler);
impl<'a, F: CompilerFeat> VxCopy for &'a Fonts<F> { type O = Fonts<F>; spec fn same(self, o: Fonts<F>) -> bool { *self == o } }
impl<'a, F: CompilerFeat> VxCopy for &'a Registry<F> { type O = Registry<F>; spec fn same(self, o: Registry<F>) -> bool { *self == o } }
impl<'a, F: CompilerFeat> VxCopy for &'a Graph<F> { type O = Graph<F>; spec fn same(self, o: Graph<F>) -> bool { *self == o } }
impl<'b, 'a, F: CompilerFeat> VxCopy for &'b &'a Graph<F> { type O = Graph<F>; spec fn same(self, o: Graph<F>) -> bool { **self == o } }
impl<'b, 'a, F: CompilerFeat> VxCopy for &'b &'a CompilerWorld<F> { type O = CompilerWorld<F>; spec fn same(self, o: CompilerWorld<F>) -> bool { true } }
/// the derived comparisons
trait VxEq { type K; spec fn key(&self) -> Self::K; }
impl VxEq for ProjectInsId { type K = Seq<char>; spec fn key(&self) -> Seq<char> { self.0@ } }
impl VxEq for NonZeroUsize { type K = int; spec fn key(&self) -> int { self@ } }
impl VxEq for usize { type K = int; spec fn key(&self) -> int { *self as int } }
impl VxEq for Path { type K = PKey; spec fn key(&self) -> PKey { pk(self@) } }
impl<'a, T: VxEq> VxEq for &'a T { type K = T::K; spec fn key(&self) -> T::K { (**self).key() } }
impl<'a, T: VxEq> VxEq for &'a mut T { type K = T::K; spec fn key(&self) -> T::K { (**self).key() } }
impl<T: VxEq> VxEq for Option<T> { type K = Option<T::K>; spec fn key(&self) -> Option<T::K> { match *self { Some(x) => Some(x.key()), None => None } } }
#[verifier::external_body]
fn vx_eq<A: VxEq, B: VxEq<K = A::K>>(a: &A, b: &B) -> (r: bool) ensures r == (a.key() == b.key()) { unimplemented!() }
trait VxInto { type O; spec fn conv(self, o: Self::O) -> bool; }
impl<'a> VxInto for &'a str { type O = Text; spec fn conv(self, o: Text) -> bool { o@ == self@ } }
impl VxInto for Path { type O = Path; spec fn conv(self, o: Path) -> bool { self == o } }
#[verifier::external_body]
fn vx_into<T: VxInto>(t: T) -> (r: T::O) ensures t.conv(r) { unimplemented!() }
trait VxDefault: Sized { spec fn is_default(&self) -> bool; }
impl VxDefault for CompileReasons { spec fn is_default(&self) -> bool { !any(*self) } }
impl<T> VxDefault for Vec<T> { spec fn is_default(&self) -> bool { self@.len() == 0 } }
impl VxDefault for PathSet { spec fn is_default(&self) -> bool { self@ == Set::<PKey>::empty() } }
impl VxDefault for ProjectDeps { spec fn is_default(&self) -> bool { self.project_deps@ == Map::<Seq<char>, Vec<Path>>::empty() } }
impl VxDefault for Inputs { spec fn is_default(&self) -> bool { true } }
impl VxDefault for Slots { spec fn is_default(&self) -> bool { true } }
#[verifier::external_body]
fn vx_default<T: VxDefault>() -> (r: T) ensures r.is_default() { unimplemented!() }
#[verifier::external_body]
fn vx_or_default<T: VxDefault>(o: Option<T>) -> (r: T) ensures o matches Some(x) ==> r == x { unimplemented!() }
trait VxBox { type O; spec fn boxed(self, o: Self::O) -> bool; }
impl VxBox for TaggedMemoryEvent { type O = Opaque; spec fn boxed(self, o: Opaque) -> bool { o.tag() == Some(self) } }
impl VxBox for ProjectDeps { type O = Box<ProjectDeps>; spec fn boxed(self, o: Box<ProjectDeps>) -> bool { *o == self } }
#[verifier::external_body]
fn vx_box<T: VxBox>(t: T) -> (r: T::O) ensures t.boxed(r) { unimplemented!() }
/// anything, to be asked what it is
#[verifier::external_body]
struct Opaque { x: u8 }
impl Opaque {
    uninterp spec fn tag(&self) -> Option<TaggedMemoryEvent>;
    #[verifier::external_body]
    fn vx_tagged(&self) -> (r: Option<&TaggedMemoryEvent>) ensures self.tag() is Some <==> r is Some, r is Some ==> self.tag() == Some(*(r->0)) { unimplemented!() }
}
/// a set of paths
#[verifier::external_body]
struct PathSet { x: u8 }
impl View for PathSet { type V = Set<PKey>; uninterp spec fn view(&self) -> Set<PKey>; }
spec fn keys(s: Seq<Path>) -> Set<PKey> { s.map_values(|p: Path| pk(p@)).to_set() }
impl PathSet {
    #[verifier::external_body]
    fn new() -> (r: PathSet) ensures r@ == Set::<PKey>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, p: Path) -> (r: bool) ensures final(self)@ == old(self)@.insert(pk(p@)) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, p: &Path) -> (r: bool) ensures final(self)@ == old(self)@.remove(pk(p@)) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<PKey>::empty()) { unimplemented!() }
}
#[verifier::external_body]
fn vx_list(s: PathSet) -> (r: Vec<Path>) ensures keys(r@) == s@ { unimplemented!() }
impl VxColl for PathSet { type It = VxIt<Path>; spec fn starts(self, it: VxIt<Path>) -> bool { it.pos() == 0 && keys(it.all()) == self@ } }
/// the dependencies by project
#[verifier::external_body]
struct DepMap { x: u8 }
impl View for DepMap { type V = Map<Seq<char>, Vec<Path>>; uninterp spec fn view(&self) -> Map<Seq<char>, Vec<Path>>; }
impl DepMap {
    #[verifier::external_body]
    fn insert_mut(&mut self, k: ProjectInsId, v: Vec<Path>) ensures final(self)@ == old(self)@.insert(k.0@, v) { unimplemented!() }
    #[verifier::external_body]
    fn remove_mut(&mut self, k: &ProjectInsId) -> (r: bool) ensures final(self)@ == old(self)@.remove(k.0@) { unimplemented!() }
}

// ---- what the projects depend on --------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(F)]
struct Fonts<F: CompilerFeat> { p: core::marker::PhantomData<F> }
#[verifier::external_body]
#[verifier::reject_recursive_types(F)]
struct Registry<F: CompilerFeat> { p: core::marker::PhantomData<F> }
/// fonts with the same revision are the same; others may be
impl<F: CompilerFeat> Fonts<F> {
    uninterp spec fn rev(&self) -> Option<NonZeroUsize>;
    spec fn what(&self) -> (Option<int>, Option<Fonts<F>>) { match self.rev() { Some(r) => (Some(r@), None), None => (None, Some(*self)) } }
    #[verifier::external_body]
    fn revision(&self) -> (r: Option<NonZeroUsize>) ensures r == self.rev() { unimplemented!() }
}
impl<F: CompilerFeat> Registry<F> {
    uninterp spec fn rev(&self) -> Option<NonZeroUsize>;
    spec fn what(&self) -> (Option<int>, Option<Registry<F>>) { match self.rev() { Some(r) => (Some(r@), None), None => (None, Some(*self)) } }
    #[verifier::external_body]
    fn revision(&self) -> (r: Option<NonZeroUsize>) ensures r == self.rev() { unimplemented!() }
}
/// the files: what the editor holds, which changes the watcher told about, and the revision (C23, C28, C30)
type Mem = Map<PKey, FileSnapshot>;
#[verifier::external_body]
#[verifier::reject_recursive_types(F)]
struct Vfs<F: CompilerFeat> { p: core::marker::PhantomData<F> }
spec fn moved<F: CompilerFeat>(a: Vfs<F>, b: Vfs<F>) -> bool { b.rev()@ >= a.rev()@ && (b.mem() != a.mem() || b.log() != a.log() ==> b.rev()@ > a.rev()@) }
impl<F: CompilerFeat> Vfs<F> {
    uninterp spec fn mem(&self) -> Mem;
    uninterp spec fn log(&self) -> Seq<FileChangeSet>;
    uninterp spec fn rev(&self) -> NonZeroUsize;
    #[verifier::external_body]
    fn revision(&self) -> (r: NonZeroUsize) ensures r == self.rev() { unimplemented!() }
    #[verifier::external_body]
    fn map_shadow(&mut self, p: &Path, s: FileSnapshot) -> (r: core::result::Result<(), FileError>) ensures final(self).mem() == old(self).mem().insert(pk(p@), s), final(self).log() == old(self).log(), moved(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn unmap_shadow(&mut self, p: &Path) -> (r: core::result::Result<(), FileError>) ensures final(self).mem() == old(self).mem().remove(pk(p@)), final(self).log() == old(self).log(), moved(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn reset_shadow(&mut self) ensures final(self).mem() == Map::<PKey, FileSnapshot>::empty(), final(self).log() == old(self).log(), moved(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn notify_fs_changes(&mut self, c: FileChangeSet) ensures final(self).mem() == old(self).mem(), final(self).log() == old(self).log().push(c), moved(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn reset_cache(&mut self) ensures final(self).mem() == old(self).mem(), final(self).log() == old(self).log(), moved(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    fn reset_access_model(&mut self) ensures final(self).mem() == old(self).mem(), final(self).log() == old(self).log(), final(self).rev() == old(self).rev() { unimplemented!() }
    #[verifier::external_body]
    fn snapshot(&self) -> (r: Vfs<F>) ensures r.mem() == self.mem(), r.log() == self.log() { unimplemented!() }
    #[verifier::external_body]
    fn fork(&self) -> (r: Vfs<F>) ensures r.mem() == self.mem(), r.log() == self.log() { unimplemented!() }
}
#[verifier::external_body]
fn create_library(i: Inputs, f: Features) -> (r: Library) { unimplemented!() }
/// what a compilation computed
#[verifier::external_body]
#[verifier::reject_recursive_types(F)]
struct Graph<F: CompilerFeat> { p: core::marker::PhantomData<F> }
impl<F: CompilerFeat> Graph<F> {
    uninterp spec fn snap_(&self) -> CompileSnapshot<F>;
    #[verifier::external_body]
    fn vx_snap(&self) -> (r: &CompileSnapshot<F>) ensures *r == self.snap_() { unimplemented!() }
    #[verifier::external_body]
    fn world(&self) -> (r: &CompilerWorld<F>) ensures *r == self.snap_().world { unimplemented!() }
}
struct WorldComputeGraph { }
impl WorldComputeGraph {
    #[verifier::external_body]
    fn new<F: CompilerFeat>(s: CompileSnapshot<F>) -> (r: Graph<F>) ensures r.snap_() == s { unimplemented!() }
}
/// what the handler is told
ghost enum Said { Status(Seq<char>, int, CompileStatusEnum), Done(Seq<char>, int, bool), Removed(Seq<char>) }
tracked struct World {
    /// the memory changes the watcher has yet to return, and what each invalidates
    ghost q: Seq<(TaggedMemoryEvent, Set<PKey>)>,
    /// the dependencies the watcher was last given
    ghost deps: Option<ProjectDeps>,
    ghost said: Seq<Said>,
}
#[verifier::external_body]
struct Handler { x: u8 }
impl Handler {
    #[verifier::external_body]
    fn status(&self, revision: usize, rep: CompileReport, Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { said: old(w).said.push(Said::Status(rep.id.0@, revision as int, rep.status)), ..*old(w) }) { unimplemented!() }
    #[verifier::external_body]
    fn notify_compile<F: CompilerFeat>(&self, res: &CompiledArtifact<F>, Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { said: old(w).said.push(Said::Done(res.graph.snap_().id.0@, res.graph.snap_().world.revision@, res.doc is Some)), ..*old(w) }) { unimplemented!() }
    #[verifier::external_body]
    fn notify_removed(&self, id: &ProjectInsId, Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { said: old(w).said.push(Said::Removed(id.0@)), ..*old(w) }) { unimplemented!() }
}
#[verifier::external_body]
struct Sender { x: u8 }
impl Sender {
    #[verifier::external_body]
    fn send(&self, m: NotifyMessage, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<(), VxErr>)
        ensures *final(w) == (match m {
            NotifyMessage::Settle => *old(w),
            NotifyMessage::SyncDependency(d) => World { deps: Some(*d), ..*old(w) },
            NotifyMessage::UpstreamUpdate(e) => match e.opaque.tag() { Some(t) => World { q: old(w).q.push((t, keys(e.invalidates@))), ..*old(w) }, None => *old(w) },
        }) { unimplemented!() }
}
//@type crates/tinymist-vfs/src/snapshot.rs FileChangeSet
//@type crates/tinymist-vfs/src/notify.rs MemoryEvent
//@type crates/tinymist-vfs/src/notify.rs UpstreamUpdateEvent
//@type crates/tinymist-vfs/src/notify.rs FilesystemEvent
//@type crates/tinymist-vfs/src/notify.rs NotifyMessage
//@type crates/tinymist-world/src/entry.rs EntryState
//@type crates/tinymist-world/src/snapshot.rs ProjectInsId
//@type crates/tinymist-world/src/snapshot.rs ExportSignal
//@type crates/tinymist-world/src/snapshot.rs CompileSnapshot #[verifier::reject_recursive_types(F)]
//@type crates/tinymist-world/src/world.rs TaskInputs
//@type crates/tinymist-world/src/world.rs CompilerUniverse #[verifier::reject_recursive_types(F)]
//@type crates/tinymist-world/src/world.rs RevisingUniverse #[verifier::reject_recursive_types(F)]
//@type crates/tinymist-world/src/world.rs CompilerWorld #[verifier::reject_recursive_types(F)]
//@type crates/tinymist-project/src/compiler.rs CompiledArtifact #[verifier::reject_recursive_types(F)]
//@type crates/tinymist-project/src/compiler.rs CompileReport
//@type crates/tinymist-project/src/compiler.rs CompileStatusEnum
//@type crates/tinymist-project/src/compiler.rs CompileStatusResult
//@type crates/tinymist-project/src/compiler.rs Interrupt #[verifier::reject_recursive_types(F)]
//@type crates/tinymist-project/src/compiler.rs CompileReasons
//@type crates/tinymist-project/src/compiler.rs TaggedMemoryEvent
//@type crates/tinymist-project/src/compiler.rs ProjectDeps
//@type crates/tinymist-project/src/compiler.rs ProjectInsState #[verifier::reject_recursive_types(F)] #[verifier::reject_recursive_types(Ext)]
struct CompileServerOpts { handler: Handler, enable_watch: bool, export_target: ExportTarget }
//@type crates/tinymist-project/src/compiler.rs ProjectCompiler #[verifier::reject_recursive_types(F)] #[verifier::reject_recursive_types(Ext)]

impl FilesystemEvent {
//@fn crates/tinymist-vfs/src/notify.rs FilesystemEvent::split C29
//@ret r
    ensures self matches FilesystemEvent::Update(c) ==> r.0 == c && r.1 is None, self matches FilesystemEvent::UpstreamUpdate { changeset, upstream_event } ==> r.0 == changeset && r.1 == upstream_event
//@end
}
// ---- reasons --------------------------------------------------------------------------
spec fn any(r: CompileReasons) -> bool { r.by_memory_events || r.by_fs_events || r.by_entry_update }
spec fn covers(a: CompileReasons, b: CompileReasons) -> bool { (b.by_memory_events ==> a.by_memory_events) && (b.by_fs_events ==> a.by_fs_events) && (b.by_entry_update ==> a.by_entry_update) }
impl CompileReasons {
    #[verifier::external_body]
    fn default() -> (r: CompileReasons) ensures !any(r) { unimplemented!() }
//@fn crates/tinymist-project/src/compiler.rs CompileReasons::see C29
    ensures final(self).by_memory_events == (old(self).by_memory_events || reason.by_memory_events), final(self).by_fs_events == (old(self).by_fs_events || reason.by_fs_events), final(self).by_entry_update == (old(self).by_entry_update || reason.by_entry_update)
//@end
//@fn crates/tinymist-project/src/compiler.rs CompileReasons::any C29
//@ret r
    ensures r == any(*self)
//@end
//@fn crates/tinymist-project/src/compiler.rs CompileReasons::exclude C29
//@ret r
    ensures r.by_memory_events == (self.by_memory_events && !excluded.by_memory_events), r.by_fs_events == (self.by_fs_events && !excluded.by_fs_events), r.by_entry_update == (self.by_entry_update && !excluded.by_entry_update)
//@end
}
//@fn crates/tinymist-project/src/compiler.rs no_reason C29
//@ret r
    ensures !any(r)
//@end
//@fn crates/tinymist-project/src/compiler.rs reason_by_mem C29
//@ret r
    ensures r.by_memory_events, !r.by_fs_events, !r.by_entry_update
//@end
//@fn crates/tinymist-project/src/compiler.rs reason_by_fs C29
//@ret r
    ensures r.by_fs_events, !r.by_memory_events, !r.by_entry_update
//@end
//@fn crates/tinymist-project/src/compiler.rs reason_by_entry_change C29
//@ret r
    ensures r.by_entry_update, !r.by_memory_events, !r.by_fs_events
//@end

// ---- the universe -----------------------------------------------------------------------
#[verifier::reject_recursive_types(F)]
ghost struct UV<F: CompilerFeat> { entry: EntryState, inputs: Inputs, features: Features, fonts: (Option<int>, Option<Fonts<F>>), registry: (Option<int>, Option<Registry<F>>), mem: Mem, log: Seq<FileChangeSet> }
spec fn uv<F: CompilerFeat>(u: CompilerUniverse<F>) -> UV<F> { UV { entry: u.entry, inputs: u.inputs, features: u.features, fonts: u.font_resolver.what(), registry: u.registry.what(), mem: u.vfs.mem(), log: u.vfs.log() } }
spec fn wv<F: CompilerFeat>(u: CompilerWorld<F>) -> UV<F> { UV { entry: u.entry, inputs: u.inputs, features: u.features, fonts: u.font_resolver.what(), registry: u.registry.what(), mem: u.vfs.mem(), log: u.vfs.log() } }
spec fn differ(a: Option<NonZeroUsize>, b: Option<NonZeroUsize>) -> bool { a is None || b is None || a->0@ != b->0@ }
impl EntryState {
    uninterp spec fn root_(&self) -> Option<Path>;
    #[verifier::external_body]
    fn workspace_root(&self) -> (r: Option<Path>) ensures r == self.root_() { unimplemented!() }
//@fn crates/tinymist-world/src/entry.rs EntryState::is_inactive C29
//@ret r
    ensures r == (self.main is None)
//@end
//@fn crates/tinymist-world/src/entry.rs EntryState::main C29
//@ret r
    ensures r == self.main
//@end
}
//@fn crates/tinymist-world/src/world.rs is_revision_changed C29
//@ret r
    ensures r == differ(a, b)
//@end
impl<F: CompilerFeat> CompilerUniverse<F> {
//@fn crates/tinymist-world/src/world.rs CompilerUniverse::new_raw C29
//@ret r
    ensures r.entry == entry, r.features == features, inputs matches Some(i) ==> r.inputs == i, r.vfs == vfs, r.registry == package_registry, r.font_resolver == font_resolver, r.revision@ == 1
//@end
//@fn crates/tinymist-world/src/world.rs CompilerUniverse::inputs C29
//@ret r
    ensures r == self.inputs
//@end
//@fn crates/tinymist-world/src/world.rs CompilerUniverse::vfs C29
//@ret r
    ensures *r == self.vfs
//@end
//@fn crates/tinymist-world/src/world.rs EntryReader@CompilerUniverse::entry_state C29
//@ret r
    ensures r == self.entry
//@end
//@fn crates/tinymist-world/src/world.rs CompilerUniverse::snapshot C29
//@ret r
    ensures wv(r) == uv(*self), r.revision == self.revision
//@end
//@fn crates/tinymist-world/src/world.rs CompilerUniverse::snapshot_with C29
//@ret r
    ensures mutant is None ==> wv(r) == uv(*self) && r.revision == self.revision
//@end
//@fn crates/tinymist-world/src/world.rs CompilerUniverse::increment_revision as vx_revise C29
//@ret r
//@sig fn vx_revise(&mut self, Tracked(w): Tracked<&mut World>) -> (r: RevisingUniverse<'_, F>)
    ensures *r.inner == *old(self), *final(r.inner) == *final(self), *final(w) == *old(w), !r.view_changed, !r.font_changed, !r.registry_changed,
        r.vfs_revision == old(self).vfs.rev(), r.font_revision == old(self).font_resolver.rev(), r.registry_revision == old(self).registry.rev()
//@end
//@fn crates/tinymist-world/src/world.rs CompilerUniverse::mutate_entry_ C29
//@ret r
    ensures r == core::result::Result::<EntryState, VxErr>::Ok(old(self).entry), *final(self) == (CompilerUniverse { entry: state, ..*old(self) })
//@end
}
/// whether anything was changed
spec fn stirred<F: CompilerFeat>(r: RevisingUniverse<F>) -> bool {
    r.view_changed || (r.font_changed && differ(r.font_revision, r.inner.font_resolver.rev())) || (r.registry_changed && differ(r.registry_revision, r.inner.registry.rev())) || r.vfs_revision@ != r.inner.vfs.rev()@
}
impl<F: CompilerFeat> RevisingUniverse<'_, F> {
//@fn crates/tinymist-world/src/world.rs RevisingUniverse::vfs C29
//@sig fn vfs(&mut self) -> (r: &mut Vfs<F>)
//@ret r
//@rw expr self.vfs.revise() => &mut self.inner.vfs
    ensures *r == old(self).inner.vfs, *final(self).inner == (CompilerUniverse { vfs: *final(r), ..*old(self).inner }), *final(final(self).inner) == *final(old(self).inner),
        final(self).view_changed == old(self).view_changed, final(self).vfs_revision == old(self).vfs_revision, final(self).font_changed == old(self).font_changed, final(self).font_revision == old(self).font_revision, final(self).registry_changed == old(self).registry_changed, final(self).registry_revision == old(self).registry_revision
//@end
//@fn crates/tinymist-world/src/world.rs RevisingUniverse::set_fonts C29
    ensures *final(self).inner == (CompilerUniverse { font_resolver: fonts, ..*old(self).inner }), *final(final(self).inner) == *final(old(self).inner), final(self).font_changed,
        final(self).view_changed == old(self).view_changed, final(self).vfs_revision == old(self).vfs_revision, final(self).font_revision == old(self).font_revision, final(self).registry_changed == old(self).registry_changed, final(self).registry_revision == old(self).registry_revision
//@end
//@fn crates/tinymist-world/src/world.rs RevisingUniverse::set_package C29
    ensures *final(self).inner == (CompilerUniverse { registry: packages, ..*old(self).inner }), *final(final(self).inner) == *final(old(self).inner), final(self).registry_changed,
        final(self).view_changed == old(self).view_changed, final(self).vfs_revision == old(self).vfs_revision, final(self).font_changed == old(self).font_changed, final(self).font_revision == old(self).font_revision, final(self).registry_revision == old(self).registry_revision
//@end
//@fn crates/tinymist-world/src/world.rs RevisingUniverse::set_inputs C29
    ensures *final(self).inner == (CompilerUniverse { inputs: inputs, ..*old(self).inner }), *final(final(self).inner) == *final(old(self).inner), final(self).view_changed,
        final(self).vfs_revision == old(self).vfs_revision, final(self).font_changed == old(self).font_changed, final(self).font_revision == old(self).font_revision, final(self).registry_changed == old(self).registry_changed, final(self).registry_revision == old(self).registry_revision
//@end
//@fn crates/tinymist-world/src/world.rs RevisingUniverse::mutate_entry C29
//@ret r
    ensures r is Ok, final(self).inner.entry == state, uv(*final(self).inner) == (UV { entry: state, ..uv(*old(self).inner) }), final(self).inner.revision == old(self).inner.revision, moved(old(self).inner.vfs, final(self).inner.vfs), *final(final(self).inner) == *final(old(self).inner), final(self).view_changed,
        final(self).inner.font_resolver == old(self).inner.font_resolver, final(self).inner.registry == old(self).inner.registry,
        final(self).vfs_revision == old(self).vfs_revision, final(self).font_changed == old(self).font_changed, final(self).font_revision == old(self).font_revision, final(self).registry_changed == old(self).registry_changed, final(self).registry_revision == old(self).registry_revision
//@end
//@fn crates/tinymist-world/src/world.rs RevisingUniverse::flush C29
    ensures *final(self).inner == *old(self).inner, *final(final(self).inner) == *final(old(self).inner), final(self).view_changed,
        final(self).vfs_revision == old(self).vfs_revision, final(self).font_changed == old(self).font_changed, final(self).font_revision == old(self).font_revision, final(self).registry_changed == old(self).registry_changed, final(self).registry_revision == old(self).registry_revision
//@end
//@fn crates/tinymist-world/src/world.rs RevisingUniverse::font_changed C29
//@ret r
//@rw expr self.font_resolver => self.inner.font_resolver
    ensures r == (self.font_changed && differ(self.font_revision, old(self.inner).font_resolver.rev()))
//@end
//@fn crates/tinymist-world/src/world.rs RevisingUniverse::registry_changed C29
//@ret r
//@rw expr self.registry => self.inner.registry
    ensures r == (self.registry_changed && differ(self.registry_revision, old(self.inner).registry.rev()))
//@end
//@fn crates/tinymist-world/src/world.rs RevisingUniverse::vfs_changed C29
//@ret r
//@rw expr self.vfs => self.inner.vfs
    ensures r == (self.vfs_revision@ != old(self.inner).vfs.rev()@)
//@end
//@fn crates/tinymist-world/src/world.rs Drop@RevisingUniverse::drop as finish C29
//@world Tracked(w): Tracked<&mut World>
//@rw expr self.vfs => self.inner.vfs
//@rw expr self.revision => self.inner.revision
    requires old(self).inner.revision@ < usize::MAX
    ensures *final(w) == *old(w), *final(final(self).inner) == *final(old(self).inner), uv(*final(self).inner) == uv(*old(self).inner),
        final(self).inner.font_resolver == old(self).inner.font_resolver, final(self).inner.registry == old(self).inner.registry,
        final(self).inner.revision@ == old(self).inner.revision@ + (if stirred(*old(self)) { 1int } else { 0 })
//@end
}
impl<F: CompilerFeat> CompilerWorld<F> {
    uninterp spec fn deps_(&self) -> Seq<FileId>;
    uninterp spec fn path_(&self, f: FileId) -> Option<Path>;
//@fn crates/tinymist-world/src/world.rs CompilerWorld::revision C29
//@ret r
    ensures r == self.revision
//@end
    #[verifier::external_body]
    fn task(&self, m: TaskInputs) -> (r: CompilerWorld<F>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_each_iter_dependencies(&self) -> (r: VxIt<FileId>) ensures r.pos() == 0, r.all() == self.deps_() { unimplemented!() }
    #[verifier::external_body]
    fn main_id(&self) -> (r: Option<FileId>) ensures r == self.entry.main { unimplemented!() }
}
/// the real path of a file, if it has one
#[verifier::external_body]
fn vx_path<F: CompilerFeat>(w: &CompilerWorld<F>, f: FileId) -> (r: core::result::Result<Path, FileError>) ensures r is Ok <==> w.path_(f) is Some, r is Ok ==> w.path_(f) == Some(r->Ok_0) { unimplemented!() }
spec fn paths_of<F: CompilerFeat>(w: CompilerWorld<F>, s: Seq<FileId>) -> Seq<Path> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { match w.path_(s.last()) { Some(p) => paths_of(w, s.drop_last()).push(p), None => paths_of(w, s.drop_last()) } }
}
proof fn paths_step<F: CompilerFeat>(w: CompilerWorld<F>, s: Seq<FileId>, n: int) requires 0 <= n < s.len()
    ensures paths_of(w, s.take(n + 1)) == (match w.path_(s[n]) { Some(p) => paths_of(w, s.take(n)).push(p), None => paths_of(w, s.take(n)) })
{ assert(s.take(n + 1).drop_last() =~= s.take(n)); }

// ---- the projects -----------------------------------------------------------------------
impl<F: CompilerFeat> CompiledArtifact<F> {
    fn vx_snap(&self) -> (r: &CompileSnapshot<F>) ensures *r == self.graph.snap_() { self.graph.vx_snap() }
//@fn crates/tinymist-project/src/compiler.rs CompiledArtifact::id C29
//@ret r
    ensures *r == self.graph.snap_().id
//@end
    /// runs the compiler (typst's)
    #[verifier::external_body]
    fn from_graph(graph: Graph<F>, is_html: bool) -> (r: CompiledArtifact<F>) ensures r.graph == graph { unimplemented!() }
    #[verifier::external_body]
    fn warning_cnt(&self) -> (r: usize) ensures r < 0x4000_0000 { unimplemented!() }
    #[verifier::external_body]
    fn error_cnt(&self) -> (r: usize) ensures r < 0x4000_0000 { unimplemented!() }
}
/// the kept snapshot is of the revision it says
spec fn snap_ok<F: CompilerFeat, Ext>(p: ProjectInsState<F, Ext>) -> bool {
    p.snapshot matches Some(g) ==> g.snap_().world.revision@ <= p.verse.revision@ && (g.snap_().world.revision@ == p.verse.revision@ ==> wv(g.snap_().world) == uv(p.verse)) && g.snap_().id.0@ == p.id.0@
}
impl<F: CompilerFeat, Ext> ProjectInsState<F, Ext> {
//@fn crates/tinymist-project/src/compiler.rs ProjectInsState::snapshot C29
//@ret r
    requires snap_ok(*old(self))
    ensures r.snap_().world.revision@ == old(self).verse.revision@, wv(r.snap_().world) == uv(old(self).verse), r.snap_().id.0@ == old(self).id.0@, *final(self) == (ProjectInsState { snapshot: final(self).snapshot, ..*old(self) }), snap_ok(*final(self))
//@end
//@fn crates/tinymist-project/src/compiler.rs ProjectInsState::make_snapshot C29
//@ret r
    ensures r.snap_().world.revision == self.verse.revision, wv(r.snap_().world) == uv(self.verse), r.snap_().id == self.id, r.snap_().success_doc == self.latest_success_doc,
        r.snap_().signal.by_mem_events == self.reason.by_memory_events, r.snap_().signal.by_fs_events == self.reason.by_fs_events, r.snap_().signal.by_entry_update == self.reason.by_entry_update
//@end
//@fn crates/tinymist-project/src/compiler.rs ProjectInsState::may_compile2 C29
//@sig fn may_compile2(&mut self) -> (r: Option<Graph<F>>)
//@ret r
    requires snap_ok(*old(self))
    ensures snap_ok(*final(self)), r is Some <==> any(old(self).reason) && old(self).verse.entry.main is Some,
        r is None ==> *final(self) == *old(self),
        r is Some ==> (r->0).snap_().world.revision@ == old(self).verse.revision@ && wv((r->0).snap_().world) == uv(old(self).verse) && !any(final(self).reason)
            && *final(self) == (ProjectInsState { snapshot: final(self).snapshot, reason: final(self).reason, ..*old(self) })
//@end
//@fn crates/tinymist-project/src/compiler.rs ProjectInsState::may_compile C29
//@sig fn may_compile(&mut self, handler: &Handler, Tracked(w): Tracked<&mut World>) -> (r: Option<CompiledArtifact<F>>)
//@ret r
    requires snap_ok(*old(self))
    ensures snap_ok(*final(self)), r is Some <==> any(old(self).reason) && old(self).verse.entry.main is Some,
        r is None ==> *final(self) == *old(self) && *final(w) == *old(w),
        r is Some ==> (r->0).graph.snap_().world.revision@ == old(self).verse.revision@ && wv((r->0).graph.snap_().world) == uv(old(self).verse) && !any(final(self).reason)
            && *final(self) == (ProjectInsState { snapshot: final(self).snapshot, reason: final(self).reason, ..*old(self) })
            && told_of(*old(w), *final(w), r->0)
//@end
//@fn crates/tinymist-project/src/compiler.rs ProjectInsState::run_compile C29
//@sig fn run_compile(h: Handler, graph: Graph<F>, export_target: ExportTarget, Tracked(w): Tracked<&mut World>) -> (r: CompiledArtifact<F>)
//@ret r
    requires graph.snap_().world.entry.main is Some
    ensures r.graph == graph, told_of(*old(w), *final(w), r)
//@end
//@fn crates/tinymist-project/src/compiler.rs ProjectInsState::process_compile C29
//@option chains
//@ret r
    ensures r == (artifact.graph.snap_().world.revision@ > old(self).committed_revision),
        !r ==> *final(self) == *old(self),
        r ==> *final(self) == (ProjectInsState { committed_revision: final(self).committed_revision, latest_success_doc: if artifact.doc is Some { artifact.doc } else { old(self).latest_success_doc }, deps: final(self).deps, ..*old(self) })
            && final(self).committed_revision == artifact.graph.snap_().world.revision@ && final(self).deps@ == paths_of(artifact.graph.snap_().world, artifact.graph.snap_().world.deps_())
//@loop 0 for
    invariant vx_it0.all() == world.deps_(), 0 <= vx_it0.pos() <= vx_it0.all().len(), deps@ == paths_of(*world, vx_it0.all().take(vx_it0.pos()))
    ensures deps@ == paths_of(*world, world.deps_())
    decreases vx_it0.all().len() - vx_it0.pos()
//@loopstart 0
    proof { if vx_it0.pos() < vx_it0.all().len() { paths_step(*world, vx_it0.all(), vx_it0.pos()); } else { assert(vx_it0.all().take(vx_it0.pos()) =~= world.deps_()); } }
//@end
}
// ---- the compiler -----------------------------------------------------------------------
spec fn changes_of(e: MemoryEvent) -> FileChangeSet { match e { MemoryEvent::Sync(c) => c, MemoryEvent::Update(c) => c } }
spec fn gone(m: Mem, rm: Seq<Path>) -> Mem decreases rm.len() { if rm.len() == 0 { m } else { gone(m, rm.drop_last()).remove(pk(rm.last()@)) } }
spec fn came(m: Mem, ins: Seq<(Path, FileSnapshot)>) -> Mem decreases ins.len() { if ins.len() == 0 { m } else { came(m, ins.drop_last()).insert(pk(ins.last().0@), ins.last().1) } }
/// what the editor holds after the change
#[verifier::opaque]
spec fn mem_after(m: Mem, e: MemoryEvent) -> Mem { came(gone(if e is Sync { Map::<PKey, FileSnapshot>::empty() } else { m }, changes_of(e).removes@), changes_of(e).inserts@) }
type Queue = Seq<(TaggedMemoryEvent, Set<PKey>)>;
/// ... and after the ones on their way
#[verifier::opaque]
spec fn expected(m: Mem, q: Queue) -> Mem decreases q.len() { if q.len() == 0 { m } else { mem_after(expected(m, q.drop_last()), q.last().0.event) } }
proof fn expected0(m: Mem, q: Queue) requires q.len() == 0 ensures expected(m, q) == m { reveal(expected); }
proof fn expected_push(m: Mem, q: Queue, e: (TaggedMemoryEvent, Set<PKey>)) ensures expected(m, q.push(e)) == mem_after(expected(m, q), e.0.event) { reveal(expected); assert(q.push(e).drop_last() =~= q); }
proof fn expected_pop(m: Mem, q: Queue) requires q.len() > 0 ensures expected(m, q) == expected(mem_after(m, q[0].0.event), q.skip(1)) decreases q.len()
{
    reveal(expected);
    if q.len() == 1 { assert(q.skip(1).len() == 0); assert(q.drop_last().len() == 0); expected0(m, q.drop_last()); expected0(mem_after(m, q[0].0.event), q.skip(1)); }
    else { expected_pop(m, q.drop_last()); assert(q.drop_last().skip(1) =~= q.skip(1).drop_last()); assert(q.skip(1).last() == q.last()); }
}
proof fn gone_step(m: Mem, rm: Seq<Path>, n: int) requires 0 <= n < rm.len() ensures gone(m, rm.take(n + 1)) == gone(m, rm.take(n)).remove(pk(rm[n]@)) { assert(rm.take(n + 1).drop_last() =~= rm.take(n)); }
proof fn came_step(m: Mem, ins: Seq<(Path, FileSnapshot)>, n: int) requires 0 <= n < ins.len() ensures came(m, ins.take(n + 1)) == came(m, ins.take(n)).insert(pk(ins[n].0@), ins[n].1) { assert(ins.take(n + 1).drop_last() =~= ins.take(n)); }
/// which files the editor holds, and which it does not hold any more
spec fn less(s: Set<PKey>, rm: Seq<Path>) -> Set<PKey> decreases rm.len() { if rm.len() == 0 { s } else { less(s, rm.drop_last()).remove(pk(rm.last()@)) } }
spec fn more(s: Set<PKey>, rm: Seq<Path>) -> Set<PKey> decreases rm.len() { if rm.len() == 0 { s } else { more(s, rm.drop_last()).insert(pk(rm.last()@)) } }
spec fn firsts(ins: Seq<(Path, FileSnapshot)>) -> Seq<Path> { ins.map_values(|e: (Path, FileSnapshot)| e.0) }
spec fn freed(held: Set<PKey>, e: MemoryEvent) -> Set<PKey> { less(more(if e is Sync { held } else { Set::empty() }, changes_of(e).removes@), firsts(changes_of(e).inserts@)) }
proof fn less_step(s: Set<PKey>, rm: Seq<Path>, n: int) requires 0 <= n < rm.len() ensures less(s, rm.take(n + 1)) == less(s, rm.take(n)).remove(pk(rm[n]@)) { assert(rm.take(n + 1).drop_last() =~= rm.take(n)); }
proof fn more_step(s: Set<PKey>, rm: Seq<Path>, n: int) requires 0 <= n < rm.len() ensures more(s, rm.take(n + 1)) == more(s, rm.take(n)).insert(pk(rm[n]@)) { assert(rm.take(n + 1).drop_last() =~= rm.take(n)); }
proof fn dom_gone(m: Mem, rm: Seq<Path>) ensures gone(m, rm).dom() == less(m.dom(), rm) decreases rm.len() { if rm.len() > 0 { dom_gone(m, rm.drop_last()); } }
proof fn dom_came(m: Mem, ins: Seq<(Path, FileSnapshot)>) ensures came(m, ins).dom() == more(m.dom(), firsts(ins)) decreases ins.len() { if ins.len() > 0 { dom_came(m, ins.drop_last()); assert(firsts(ins).drop_last() =~= firsts(ins.drop_last())); } }

proof fn dom_after(m: Mem, e: MemoryEvent)
    ensures mem_after(m, e).dom() == more(less(if e is Sync { Set::<PKey>::empty() } else { m.dom() }, changes_of(e).removes@), firsts(changes_of(e).inserts@))
{ reveal(mem_after); let m0 = if e is Sync { Map::<PKey, FileSnapshot>::empty() } else { m }; dom_gone(m0, changes_of(e).removes@); dom_came(gone(m0, changes_of(e).removes@), changes_of(e).inserts@); assert(Map::<PKey, FileSnapshot>::empty().dom() == Set::<PKey>::empty()); }

spec fn all<F: CompilerFeat, Ext>(c: ProjectCompiler<F, Ext>) -> Seq<ProjectInsState<F, Ext>> { seq![c.primary] + c.dedicates@ }
/// the first project of that name
spec fn at<F: CompilerFeat, Ext>(s: Seq<ProjectInsState<F, Ext>>, id: Seq<char>) -> int decreases s.len() { if s.len() == 0 || s[0].id.0@ == id { 0 } else { 1 + at(s.skip(1), id) } }
proof fn at_all<F: CompilerFeat, Ext>(p: ProjectInsState<F, Ext>, d: Seq<ProjectInsState<F, Ext>>, id: Seq<char>)
    ensures at(seq![p] + d, id) == if p.id.0@ == id { 0 } else { 1 + at(d, id) }, 0 <= at(d, id) <= d.len(), at(d, id) < d.len() ==> d[at(d, id)].id.0@ == id,
        forall|q: ProjectInsState<F, Ext>, i: int| 0 <= i < d.len() ==> #[trigger] (seq![p] + d.update(i, q)) == (seq![p] + d).update(i + 1, q),
        forall|q: ProjectInsState<F, Ext>| #[trigger] (seq![q] + d) == (seq![p] + d).update(0, q)
    decreases d.len()
{
    assert((seq![p] + d).skip(1) =~= d);
    if d.len() > 0 { at_in(d, id); }
    assert forall|q: ProjectInsState<F, Ext>, i: int| 0 <= i < d.len() implies #[trigger] (seq![p] + d.update(i, q)) == (seq![p] + d).update(i + 1, q) by { assert((seq![p] + d.update(i, q)) =~= (seq![p] + d).update(i + 1, q)); }
    assert forall|q: ProjectInsState<F, Ext>| #[trigger] (seq![q] + d) == (seq![p] + d).update(0, q) by { assert((seq![q] + d) =~= (seq![p] + d).update(0, q)); }
}
proof fn at_in<F: CompilerFeat, Ext>(d: Seq<ProjectInsState<F, Ext>>, id: Seq<char>) ensures 0 <= at(d, id) <= d.len(), at(d, id) < d.len() ==> d[at(d, id)].id.0@ == id decreases d.len()
{ if d.len() > 0 && d[0].id.0@ != id { at_in(d.skip(1), id); } }
#[verifier::external_body]
fn vx_find<'a, F: CompilerFeat, Ext>(v: &'a mut Vec<ProjectInsState<F, Ext>>, id: &ProjectInsId) -> (r: Option<&'a mut ProjectInsState<F, Ext>>)
    ensures r is Some <==> at(old(v)@, id.0@) < old(v)@.len(), r is None ==> final(v)@ == old(v)@, r is Some ==> *(r->0) == old(v)@[at(old(v)@, id.0@)] && final(v)@ == old(v)@.update(at(old(v)@, id.0@), *final(r->0)) { unimplemented!() }
#[verifier::external_body]
fn vx_position<F: CompilerFeat, Ext>(v: &Vec<ProjectInsState<F, Ext>>, id: &ProjectInsId) -> (r: Option<usize>)
    ensures r is Some <==> at(v@, id.0@) < v@.len(), r is Some ==> r->0 == at(v@, id.0@) { unimplemented!() }
/// what nothing but a compilation's result may change
spec fn kept<F: CompilerFeat, Ext>(a: ProjectInsState<F, Ext>, b: ProjectInsState<F, Ext>) -> bool {
    b == (ProjectInsState { verse: b.verse, reason: b.reason, latest_success_doc: b.latest_success_doc, ..a })
}
/// a change of a project shows in its revision, which has a reason to be compiled; no reason is lost
spec fn stepped<F: CompilerFeat, Ext>(a: ProjectInsState<F, Ext>, b: ProjectInsState<F, Ext>) -> bool {
    &&& kept(a, b) && covers(b.reason, a.reason)
    &&& a.verse.revision@ <= b.verse.revision@ <= a.verse.revision@ + 1
    &&& uv(b.verse) != uv(a.verse) ==> b.verse.revision@ > a.verse.revision@
    &&& b.verse.revision@ > a.verse.revision@ ==> any(b.reason)
}
/// the changes on their way are in order, and remembered
spec fn ticks(q: Queue, dirty: int, tick: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).0.logical_tick < (#[trigger] q[j]).0.logical_tick
    &&& forall|i: int| 0 <= i < q.len() ==> 0 < (#[trigger] q[i]).0.logical_tick <= tick
    &&& dirty == if q.len() == 0 { 0 } else { q.last().0.logical_tick as int }
}
spec fn inv<F: CompilerFeat, Ext>(c: ProjectCompiler<F, Ext>, q: Queue) -> bool {
    &&& ticks(q, c.dirty_shadow_logical_tick as int, c.logical_tick as int)
    &&& held(all(c), c.estimated_shadow_files@, q)
    &&& forall|i: int| 0 <= i < all(c).len() ==> snap_ok(#[trigger] all(c)[i])
}
/// once the changes on their way have arrived, all projects hold what the editor holds
#[verifier::opaque]
spec fn held<F: CompilerFeat, Ext>(ps: Seq<ProjectInsState<F, Ext>>, files: Set<PKey>, q: Queue) -> bool {
    &&& ps.len() > 0 && expected(ps[0].verse.vfs.mem(), q).dom() == files
    &&& forall|i: int| 0 <= i < ps.len() ==> expected((#[trigger] ps[i]).verse.vfs.mem(), q) == expected(ps[0].verse.vfs.mem(), q)
}
spec fn follows<F: CompilerFeat, Ext>(ps: Seq<ProjectInsState<F, Ext>>, files: Set<PKey>, q: Queue, i: Interrupt<F>, ps1: Seq<ProjectInsState<F, Ext>>, files1: Set<PKey>, q1: Queue) -> bool {
    &&& ps1.len() == ps.len()
    &&& match i {
        Interrupt::Memory(e) => {
            &&& files1 == more(less(if e is Sync { Set::<PKey>::empty() } else { files }, changes_of(e).removes@), firsts(changes_of(e).inserts@))
            &&& (q.len() == 0 && q1 == q && forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps1[k]).verse.vfs.mem() == mem_after(ps[k].verse.vfs.mem(), e))
                || (ps1 == ps && q1.len() == q.len() + 1 && q1.drop_last() == q && q1.last().0.event == e)
        }
        _ => {
            &&& files1 == files
            &&& returned(i) matches Some(t) ==> q1 == q.skip(1) && forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps1[k]).verse.vfs.mem() == mem_after(ps[k].verse.vfs.mem(), t.event)
            &&& returned(i) is None ==> q1 == q && forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps1[k]).verse.vfs.mem() == ps[k].verse.vfs.mem()
        }
    }
}
/// nor does it matter whether a project is removed, or one with the files of the primary one is added
proof fn held_without<F: CompilerFeat, Ext>(p: ProjectInsState<F, Ext>, d: Seq<ProjectInsState<F, Ext>>, files: Set<PKey>, q: Queue)
    requires held(seq![p] + d, files, q)
    ensures forall|k: int| 0 <= k < d.len() ==> #[trigger] held(seq![p] + d.remove(k), files, q)
{
    reveal(held);
    let ps = seq![p] + d;
    assert forall|k: int| 0 <= k < d.len() implies #[trigger] held(seq![p] + d.remove(k), files, q) by {
        let pr = seq![p] + d.remove(k);
        assert(pr[0] == ps[0]);
        assert forall|i: int| 0 <= i < pr.len() implies expected((#[trigger] pr[i]).verse.vfs.mem(), q) == expected(pr[0].verse.vfs.mem(), q) by { assert(pr[i] == ps[if i <= k { i } else { i + 1 }]); }
    }
}
proof fn held_with<F: CompilerFeat, Ext>(p: ProjectInsState<F, Ext>, files: Set<PKey>, q: Queue)
    ensures forall|d: Seq<ProjectInsState<F, Ext>>, n: ProjectInsState<F, Ext>| held(seq![p] + d, files, q) && n.verse.vfs.mem() == p.verse.vfs.mem() ==> #[trigger] held(seq![p] + d.push(n), files, q)
{
    reveal(held);
    assert forall|d: Seq<ProjectInsState<F, Ext>>, n: ProjectInsState<F, Ext>| held(seq![p] + d, files, q) && n.verse.vfs.mem() == p.verse.vfs.mem() implies #[trigger] held(seq![p] + d.push(n), files, q) by {
        let ps = seq![p] + d;
        let pr = seq![p] + d.push(n);
        assert(pr[0] == ps[0]);
        assert forall|i: int| 0 <= i < pr.len() implies expected((#[trigger] pr[i]).verse.vfs.mem(), q) == expected(pr[0].verse.vfs.mem(), q) by { if i <= d.len() { assert(pr[i] == ps[i]); } else { assert(pr[i] == n); } }
    }
}
proof fn still_held<F: CompilerFeat, Ext>(ps: Seq<ProjectInsState<F, Ext>>, files: Set<PKey>, q: Queue, i: Interrupt<F>)
    requires held(ps, files, q), returned(i) matches Some(t) ==> q.len() > 0 && q[0].0 == t
    ensures forall|ps1: Seq<ProjectInsState<F, Ext>>, files1: Set<PKey>, q1: Queue| follows(ps, files, q, i, ps1, files1, q1) ==> #[trigger] held(ps1, files1, q1)
{
    assert forall|ps1: Seq<ProjectInsState<F, Ext>>, files1: Set<PKey>, q1: Queue| follows(ps, files, q, i, ps1, files1, q1) implies #[trigger] held(ps1, files1, q1) by { held_next(ps, files, q, i, ps1, files1, q1); }
}
proof fn held_next<F: CompilerFeat, Ext>(ps: Seq<ProjectInsState<F, Ext>>, files: Set<PKey>, q: Queue, i: Interrupt<F>, ps1: Seq<ProjectInsState<F, Ext>>, files1: Set<PKey>, q1: Queue)
    requires held(ps, files, q), returned(i) matches Some(t) ==> q.len() > 0 && q[0].0 == t, follows(ps, files, q, i, ps1, files1, q1)
    ensures held(ps1, files1, q1)
{
    reveal(held);
    let m0 = ps[0].verse.vfs.mem();
    match i {
        Interrupt::Memory(e) => {
            if q1 == q && q.len() == 0 {
                assert forall|k: int| 0 <= k < ps.len() implies expected((#[trigger] ps1[k]).verse.vfs.mem(), q) == mem_after(m0, e) by {
                    assert(ps[k] == ps[k]); expected0(ps[k].verse.vfs.mem(), q); expected0(m0, q); expected0(ps1[k].verse.vfs.mem(), q);
                }
                expected0(m0, q); dom_after(m0, e);
                assert(expected(ps1[0].verse.vfs.mem(), q) == mem_after(m0, e));
            } else {
                assert(q1 =~= q.push(q1.last()));
                assert forall|k: int| 0 <= k < ps.len() implies expected((#[trigger] ps1[k]).verse.vfs.mem(), q1) == mem_after(expected(m0, q), e) by { expected_push(ps[k].verse.vfs.mem(), q, q1.last()); }
                assert(expected(ps1[0].verse.vfs.mem(), q1) == mem_after(expected(m0, q), e));
                dom_after(expected(m0, q), e);
            }
        }
        _ => {
            if let Some(t) = returned(i) {
                assert forall|k: int| 0 <= k < ps.len() implies expected((#[trigger] ps1[k]).verse.vfs.mem(), q1) == expected(m0, q) by { assert(ps[k] == ps[k]); expected_pop(ps[k].verse.vfs.mem(), q); }
            } else {
                assert forall|k: int| 0 <= k < ps.len() implies expected((#[trigger] ps1[k]).verse.vfs.mem(), q1) == expected(m0, q) by { assert(ps[k] == ps[k]); }
            }
            assert(expected(ps1[0].verse.vfs.mem(), q1) == expected(m0, q));
        }
    }
}
spec fn room<F: CompilerFeat, Ext>(c: ProjectCompiler<F, Ext>) -> bool {
    c.logical_tick < usize::MAX && c.removed_revision < usize::MAX && c.dedicates@.len() < usize::MAX && forall|i: int| 0 <= i < all(c).len() ==> (#[trigger] all(c)[i]).verse.revision@ < usize::MAX
}
/// the event the watcher returns
spec fn returned<F: CompilerFeat>(i: Interrupt<F>) -> Option<TaggedMemoryEvent> {
    match i { Interrupt::Fs(FilesystemEvent::UpstreamUpdate { changeset, upstream_event: Some(e) }) => e.opaque.tag(), _ => None }
}
spec fn left<F: CompilerFeat>(i: Interrupt<F>, q: Queue) -> Queue { if returned(i) is Some { q.skip(1) } else { q } }
spec fn rm_of<F: CompilerFeat>(i: Interrupt<F>) -> Seq<Path> { match i { Interrupt::Memory(e) => changes_of(e).removes@, _ => Seq::empty() } }
spec fn fs_of<F: CompilerFeat>(i: Interrupt<F>) -> Seq<Path> { match i { Interrupt::Memory(e) => firsts(changes_of(e).inserts@), _ => Seq::empty() } }
spec fn syncs<F: CompilerFeat>(i: Interrupt<F>) -> bool { match i { Interrupt::Memory(e) => e is Sync, _ => false } }
spec fn told_files<F: CompilerFeat>(i: Interrupt<F>, c: FileChangeSet) -> bool { match i { Interrupt::Fs(FilesystemEvent::Update(d)) => c == d, Interrupt::Fs(FilesystemEvent::UpstreamUpdate { changeset, upstream_event }) => c == changeset, _ => true } }
/// what an interrupt does
spec fn done<F: CompilerFeat, Ext>(c0: ProjectCompiler<F, Ext>, c1: ProjectCompiler<F, Ext>, w0: World, w1: World, i: Interrupt<F>) -> bool {
    let p0 = all(c0);
    let p1 = all(c1);
    match i {
        Interrupt::Compile(id) => {
            let k = at(p0, id.0@);
            p1.len() == p0.len() && w1 == w0 && rest(p0, p1, k) && (k < p0.len() ==> stepped(p0[k], p1[k]) && p1[k].reason.by_entry_update && p1[k].verse.revision@ > p0[k].verse.revision@ && uv(p1[k].verse) == uv(p0[k].verse) && p1[k].latest_success_doc == p0[k].latest_success_doc)
        }
        Interrupt::Settle(id) => removed(c0, c1, id.0@),
        Interrupt::Compiled(a) => {
            let s = a.graph.snap_();
            let k = at(p0, s.id.0@);
            let new = k < p0.len() && s.world.revision@ > p0[k].committed_revision;
            p1.len() == p0.len() && rest(p0, p1, k) && (k < p0.len() && !new ==> p1[k] == p0[k]) && (!new ==> w1 == w0 && c1.deps == c0.deps)
                && (new ==> p1[k] == (ProjectInsState { committed_revision: p1[k].committed_revision, latest_success_doc: if a.doc is Some { a.doc } else { p0[k].latest_success_doc }, deps: p1[k].deps, ..p0[k] })
                    && p1[k].committed_revision == s.world.revision@ && p1[k].deps@ == paths_of(s.world, s.world.deps_())
                    && c1.deps.project_deps@ == c0.deps.project_deps@.insert(s.id.0@, p1[k].deps) && w1 == (World { deps: Some(c1.deps), ..w0 }))
        }
        Interrupt::ChangeTask(id, ch) => {
            let k = at(p0, id.0@);
            p1.len() == p0.len() && rest(p0, p1, k) && w1.q == w0.q && (k < p0.len() ==> stepped(p0[k], p1[k]) && p1[k].reason.by_entry_update
                && uv(p1[k].verse) == (UV { entry: if ch.entry is Some { ch.entry->0 } else { p0[k].verse.entry }, inputs: if ch.inputs is Some { ch.inputs->0 } else { p0[k].verse.inputs }, ..uv(p0[k].verse) })
                && (ch.entry is Some || ch.inputs is Some ==> p1[k].verse.revision@ > p0[k].verse.revision@)
                && p1[k].latest_success_doc == if ch.entry is Some { None } else { p0[k].latest_success_doc })
        }
        Interrupt::Font(f) => {
            p1.len() == p0.len() && w1 == w0 && forall|k: int| 0 <= k < p0.len() ==> stepped(p0[k], #[trigger] p1[k]) && p1[k].verse.font_resolver == f && p1[k].verse.vfs.mem() == p0[k].verse.vfs.mem() && p1[k].latest_success_doc == p0[k].latest_success_doc
        }
        Interrupt::Memory(e) => {
            let now = w0.q.len() == 0 && freed(c0.estimated_shadow_files@, e) == Set::<PKey>::empty();
            p1.len() == p0.len() && (now ==> w1 == w0 && forall|k: int| 0 <= k < p0.len() ==> stepped(p0[k], #[trigger] p1[k]) && p1[k].verse.vfs.mem() == mem_after(p0[k].verse.vfs.mem(), e) && p1[k].latest_success_doc == p0[k].latest_success_doc)
                && (!now ==> p1 == p0 && w1.q.len() == w0.q.len() + 1 && w1.q.drop_last() =~= w0.q && w1.q.last().0.event == e && w1.q.last().1 == freed(c0.estimated_shadow_files@, e))
        }
        Interrupt::Fs(e) => {
            let c = match e { FilesystemEvent::Update(c) => c, FilesystemEvent::UpstreamUpdate { changeset, upstream_event } => changeset };
            p1.len() == p0.len() && w1 == w0 && forall|k: int| 0 <= k < p0.len() ==> stepped(p0[k], #[trigger] p1[k]) && p1[k].verse.vfs.log() == p0[k].verse.vfs.log().push(c) && p1[k].latest_success_doc == p0[k].latest_success_doc
                && p1[k].verse.vfs.mem() == (if returned(i) is Some { mem_after(p0[k].verse.vfs.mem(), returned(i)->0.event) } else { p0[k].verse.vfs.mem() })
        }
    }
}
spec fn rest<F: CompilerFeat, Ext>(p0: Seq<ProjectInsState<F, Ext>>, p1: Seq<ProjectInsState<F, Ext>>, k: int) -> bool { forall|j: int| 0 <= j < p0.len() && j != k ==> #[trigger] p1[j] == p0[j] }
/// the project is not there any more, and its revisions are not used again
spec fn removed<F: CompilerFeat, Ext>(c0: ProjectCompiler<F, Ext>, c1: ProjectCompiler<F, Ext>, id: Seq<char>) -> bool {
    let k = at(c0.dedicates@, id);
    &&& c1.primary == c0.primary && c1.removed_revision >= c0.removed_revision
    &&& k < c0.dedicates@.len() ==> c1.dedicates@ == c0.dedicates@.remove(k) && c1.removed_revision >= c0.dedicates@[k].verse.revision@ && c1.deps.project_deps@ == c0.deps.project_deps@.remove(id)
    &&& k == c0.dedicates@.len() ==> c1.dedicates@ == c0.dedicates@ && c1.deps == c0.deps
}
/// a new project of that name, with the files and settings of the primary one; what is still computed for the old one is none of its results
spec fn restarted<F: CompilerFeat, Ext>(c0: ProjectCompiler<F, Ext>, c1: ProjectCompiler<F, Ext>, id: Seq<char>, entry: EntryState) -> bool {
    let k = at(c0.dedicates@, id);
    let p = c1.dedicates@.last();
    &&& c1.dedicates@.len() > 0 && c1.dedicates@.drop_last() =~= if k < c0.dedicates@.len() { c0.dedicates@.remove(k) } else { c0.dedicates@ }
    &&& p.id.0@ == id && uv(p.verse) == (UV { entry: entry, ..uv(c0.primary.verse) }) && p.reason.by_entry_update && p.latest_success_doc is None
    &&& p.committed_revision < p.verse.revision@ && p.committed_revision >= c0.removed_revision && (k < c0.dedicates@.len() ==> p.committed_revision >= c0.dedicates@[k].verse.revision@)
    &&& c1.removed_revision >= c0.removed_revision
}
spec fn untouched<F: CompilerFeat, Ext>(a: ProjectCompiler<F, Ext>, b: ProjectCompiler<F, Ext>) -> bool {
    b.handler == a.handler && b.export_target == a.export_target && b.dep_tx == a.dep_tx && b.enable_watch == a.enable_watch
}
impl<F: CompilerFeat, Ext: VxDefault> ProjectCompiler<F, Ext> {
//@fn crates/tinymist-project/src/compiler.rs ProjectCompiler::create_project C29
//@ret r
    ensures r.id == id, r.verse == verse, !any(r.reason), r.snapshot is None, r.latest_success_doc is None, r.committed_revision == 0, r.deps@.len() == 0, r.handler == handler, r.export_target == export_target
//@end
//@fn crates/tinymist-project/src/compiler.rs ProjectCompiler::new C29
//@ret r
    requires verse.vfs.mem() == Map::<PKey, FileSnapshot>::empty()
    ensures inv(r, Seq::empty()), r.dedicates@.len() == 0, r.primary.verse == verse, !any(r.primary.reason), r.primary.committed_revision == 0, r.primary.latest_success_doc is None, r.removed_revision == 0
//@entry
    proof { assert forall|p: ProjectInsState<F, Ext>, d: Seq<ProjectInsState<F, Ext>>| p.verse.vfs.mem() == Map::<PKey, FileSnapshot>::empty() && d.len() == 0 implies #[trigger] held(seq![p] + d, Set::<PKey>::empty(), Seq::empty()) by { reveal(held); expected0(p.verse.vfs.mem(), Seq::empty()); } }
//@end
//@fn crates/tinymist-project/src/compiler.rs ProjectCompiler::find_project C29
//@sig fn find_project<'a>(primary: &'a mut ProjectInsState<F, Ext>, dedicates: &'a mut Vec<ProjectInsState<F, Ext>>, id: &ProjectInsId) -> (r: Option<&'a mut ProjectInsState<F, Ext>>)
    ensures ({ let s = seq![*old(primary)] + old(dedicates)@; let k = at(s, id.0@);
        (r is Some <==> k < s.len()) && (r is None ==> seq![*final(primary)] + final(dedicates)@ == s) && (r is Some ==> *(r->0) == s[k] && s[k].id.0@ == id.0@ && 0 <= k && seq![*final(primary)] + final(dedicates)@ == s.update(k, *final(r->0))) })
//@entry
    proof { at_all(*primary, dedicates@, id.0@); }
//@end
//@fn crates/tinymist-project/src/compiler.rs ProjectCompiler::remove_dedicates C29
//@world Tracked(w): Tracked<&mut World>
    requires inv(*old(self), old(w).q)
    ensures removed(*old(self), *final(self), id.0@), untouched(*old(self), *final(self)), final(w).q == old(w).q, inv(*final(self), final(w).q),
        final(self).logical_tick == old(self).logical_tick, final(self).estimated_shadow_files == old(self).estimated_shadow_files, room(*old(self)) ==> final(self).removed_revision < usize::MAX,
        at(old(self).dedicates@, id.0@) < old(self).dedicates@.len() ==> final(w).deps == Some(final(self).deps) && final(w).said == old(w).said.push(Said::Removed(id.0@)),
        forall|i: int| 0 <= i < final(self).dedicates@.len() ==> exists|j: int| 0 <= j < old(self).dedicates@.len() && old(self).dedicates@[j] == #[trigger] final(self).dedicates@[i]
//@entry
    let ghost d0 = self.dedicates@;
    proof { at_in(d0, id.0@); held_without(self.primary, d0, self.estimated_shadow_files@, w.q); if room(*self) && at(d0, id.0@) < d0.len() { assert(all(*self)[at(d0, id.0@) + 1] == d0[at(d0, id.0@)]); assert(d0[at(d0, id.0@)].verse.revision@ < usize::MAX); } assert(forall|i: int| 0 <= i < d0.len() ==> #[trigger] all(*self)[i + 1] == d0[i]); assert forall|p: ProjectInsState<F, Ext>, k: int, i: int| 0 <= k < d0.len() && 0 <= i < d0.len() implies #[trigger] (seq![p] + d0.remove(k))[i] == (seq![p] + d0)[if i <= k { i } else { i + 1 }] by {} }
//@end
//@fn crates/tinymist-project/src/compiler.rs ProjectCompiler::restart_dedicate C29
//@world Tracked(w): Tracked<&mut World>
//@ret r
    requires inv(*old(self), old(w).q), room(*old(self))
    ensures r is Ok, (r->Ok_0).0@ == group@, inv(*final(self), final(w).q), final(w).q == old(w).q, untouched(*old(self), *final(self)), final(self).primary == old(self).primary,
        restarted(*old(self), *final(self), group@, entry)
//@entry
    let ghost d0 = self.dedicates@;
    proof { at_in(d0, group@); held_with(self.primary, self.estimated_shadow_files@, w.q); assert forall|p: ProjectInsState<F, Ext>, n: ProjectInsState<F, Ext>, d: Seq<ProjectInsState<F, Ext>>, i: int| 0 <= i <= d.len() + 1 implies #[trigger] (seq![p] + d.push(n))[i] == (if i <= d.len() { (seq![p] + d)[i] } else { n }) by {} }
//@end
//@fn crates/tinymist-project/src/compiler.rs ProjectCompiler::apply_memory_changes C29
    ensures final(vfs).mem() == mem_after(old(vfs).mem(), event), final(vfs).log() == old(vfs).log(), moved(*old(vfs), *final(vfs))
//@entry
    let ghost v0 = *vfs;
    let ghost m0 = if event is Sync { Map::<PKey, FileSnapshot>::empty() } else { vfs.mem() };
    let ghost rm = changes_of(event).removes@;
    let ghost ins = changes_of(event).inserts@;
    proof { reveal(mem_after); assert(rm.take(0).len() == 0 && rm.take(rm.len() as int) =~= rm); assert(ins.take(0).len() == 0 && ins.take(ins.len() as int) =~= ins); }
//@loop 0 for
    invariant moved(v0, *vfs), vfs.log() == v0.log(), vx_it0.all() == rm, 0 <= vx_it0.pos() <= rm.len(), vfs.mem() == gone(m0, rm.take(vx_it0.pos())), rm.take(rm.len() as int) == rm
    ensures vfs.mem() == gone(m0, rm)
    decreases vx_it0.all().len() - vx_it0.pos()
//@loopstart 0
    proof { if vx_it0.pos() < rm.len() { gone_step(m0, rm, vx_it0.pos()); } }
//@loop 1 for
    invariant moved(v0, *vfs), vfs.log() == v0.log(), vx_it1.all() == ins, 0 <= vx_it1.pos() <= ins.len(), vfs.mem() == came(gone(m0, rm), ins.take(vx_it1.pos())), ins.take(ins.len() as int) == ins
    ensures vfs.mem() == came(gone(m0, rm), ins)
    decreases vx_it1.all().len() - vx_it1.pos()
//@loopstart 1
    proof { if vx_it1.pos() < ins.len() { came_step(gone(m0, rm), ins, vx_it1.pos()); } }
//@loop 2 for
    invariant moved(v0, *vfs), vfs.log() == v0.log(), vx_it2.all() == rm, 0 <= vx_it2.pos() <= rm.len(), vfs.mem() == gone(m0, rm.take(vx_it2.pos())), rm.take(rm.len() as int) == rm
    ensures vfs.mem() == gone(m0, rm)
    decreases vx_it2.all().len() - vx_it2.pos()
//@loopstart 2
    proof { if vx_it2.pos() < rm.len() { gone_step(m0, rm, vx_it2.pos()); } }
//@loop 3 for
    invariant moved(v0, *vfs), vfs.log() == v0.log(), vx_it3.all() == ins, 0 <= vx_it3.pos() <= ins.len(), vfs.mem() == came(gone(m0, rm), ins.take(vx_it3.pos())), ins.take(ins.len() as int) == ins
    ensures vfs.mem() == came(gone(m0, rm), ins)
    decreases vx_it3.all().len() - vx_it3.pos()
//@loopstart 3
    proof { if vx_it3.pos() < ins.len() { came_step(gone(m0, rm), ins, vx_it3.pos()); } }
//@end
//@fn crates/tinymist-project/src/compiler.rs ProjectCompiler::apply_delayed_memory_changes C29
//@ret r
    ensures ({ let t = match *event { Some(e) => e.opaque.tag(), None => None };
        (r is None <==> *event is Some && t is None) && final(verse).log() == old(verse).log() && moved(*old(verse), *final(verse))
        && final(verse).mem() == (if t is Some { mem_after(old(verse).mem(), t->0.event) } else { old(verse).mem() })
        && *final(dirty_shadow_logical_tick) == (if t is Some && t->0.logical_tick == *old(dirty_shadow_logical_tick) { 0 } else { *old(dirty_shadow_logical_tick) }) })
//@end
//@fn crates/tinymist-project/src/compiler.rs ProjectCompiler::projects C29
//@sig fn projects(&mut self) -> (r: VxProjs<'_, F, Ext>)
    ensures r.pos() == 0, r.cur() == all(*old(self)), r.end() == all(*final(self)), *final(self) == (ProjectCompiler { primary: final(self).primary, dedicates: final(self).dedicates, ..*old(self) })
//@end
//@fn crates/tinymist-project/src/compiler.rs ProjectCompiler::process_inner C29
//@option chains
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::rlimit(200)] #[verifier::spinoff_prover]
//@world Tracked(w): Tracked<&mut World>
    requires inv(*old(self), old(w).q), room(*old(self)), returned(intr) matches Some(t) ==> old(w).q.len() > 0 && old(w).q[0].0 == t
    ensures inv(*final(self), left(intr, final(w).q)), done(*old(self), *final(self), *old(w), *final(w), intr), untouched(*old(self), *final(self)),
        final(self).removed_revision >= old(self).removed_revision
//@entry
    let ghost ps0 = all(*self);
    let ghost w0 = *w;
    let ghost i0 = intr;
    let ghost rm = rm_of(i0);
    let ghost fs = fs_of(i0);
    let ghost h0 = if syncs(i0) { Set::<PKey>::empty() } else { self.estimated_shadow_files@ };
    let ghost f0 = if syncs(i0) { self.estimated_shadow_files@ } else { Set::<PKey>::empty() };
    proof { assert(rm.take(0) =~= Seq::empty()); assert(fs.take(0) =~= Seq::empty()); still_held(ps0, self.estimated_shadow_files@, w.q, i0); assert forall|s: Queue, x: (TaggedMemoryEvent, Set<PKey>)| #[trigger] s.push(x).drop_last() == s by { assert(s.push(x).drop_last() =~= s); } }
//@loopinit 0
    let ghost e0 = vx_it0.end();
//@loop 0 for
    invariant *w == w0, 0 <= vx_it0.pos() <= ps0.len(), vx_it0.cur().len() == ps0.len(), vx_it0.end() == e0,
        forall|k: int| 0 <= k < vx_it0.pos() ==> stepped(ps0[k], #[trigger] vx_it0.cur()[k]) && snap_ok(vx_it0.cur()[k]) && vx_it0.cur()[k].verse.font_resolver == fonts && vx_it0.cur()[k].verse.vfs.mem() == ps0[k].verse.vfs.mem() && vx_it0.cur()[k].latest_success_doc == ps0[k].latest_success_doc,
        forall|k: int| vx_it0.pos() <= k < ps0.len() ==> #[trigger] vx_it0.cur()[k] == ps0[k],
    ensures vx_it0.pos() == ps0.len(), vx_it0.cur() == e0
    decreases ps0.len() - vx_it0.pos()
//@loop 1 for
    invariant 0 <= vx_it1.pos() <= vx_it1.all().len(), vx_it1.all().len() == rm.len(), forall|i: int| 0 <= i < rm.len() ==> *(#[trigger] vx_it1.all()[i]) == rm[i],
        self.estimated_shadow_files@ == less(h0, rm.take(vx_it1.pos())), files@ == more(f0, rm.take(vx_it1.pos()))
    ensures self.estimated_shadow_files@ == less(h0, rm), files@ == more(f0, rm)
    decreases vx_it1.all().len() - vx_it1.pos()
//@loopstart 1
    proof { if vx_it1.pos() < rm.len() { less_step(h0, rm, vx_it1.pos()); more_step(f0, rm, vx_it1.pos()); } else { assert(rm.take(vx_it1.pos()) =~= rm); } }
//@loop 2 for
    invariant 0 <= vx_it2.pos() <= vx_it2.all().len(), vx_it2.all().len() == fs.len(), forall|i: int| 0 <= i < fs.len() ==> (#[trigger] vx_it2.all()[i]).0 == fs[i],
        self.estimated_shadow_files@ == more(less(h0, rm), fs.take(vx_it2.pos())), files@ == less(more(f0, rm), fs.take(vx_it2.pos()))
    ensures self.estimated_shadow_files@ == more(less(h0, rm), fs), files@ == less(more(f0, rm), fs)
    decreases vx_it2.all().len() - vx_it2.pos()
//@loopstart 2
    proof { if vx_it2.pos() < fs.len() { less_step(more(f0, rm), fs, vx_it2.pos()); more_step(less(h0, rm), fs, vx_it2.pos()); } else { assert(fs.take(vx_it2.pos()) =~= fs); } }
//@loopinit 3
    let ghost e3 = vx_it3.end();
//@loop 3 for
    invariant *w == w0, 0 <= vx_it3.pos() <= ps0.len(), vx_it3.cur().len() == ps0.len(), vx_it3.end() == e3, vx_it3.left() == ps0.len() - vx_it3.pos(), Interrupt::<F>::Memory(vx_it3.what()) == i0,
        forall|k: int| 0 <= k < vx_it3.pos() ==> stepped(ps0[k], #[trigger] vx_it3.cur()[k]) && snap_ok(vx_it3.cur()[k]) && vx_it3.cur()[k].verse.vfs.mem() == mem_after(ps0[k].verse.vfs.mem(), vx_it3.what()) && vx_it3.cur()[k].latest_success_doc == ps0[k].latest_success_doc,
        forall|k: int| vx_it3.pos() <= k < ps0.len() ==> #[trigger] vx_it3.cur()[k] == ps0[k],
    ensures vx_it3.pos() == ps0.len(), vx_it3.cur() == e3
    decreases ps0.len() - vx_it3.pos()
//@loopinit 4
    let ghost e4 = vx_it4.end();
    let ghost d4 = *dirty_tick;
    let ghost t4 = returned(i0);
//@loop 4 for
    invariant *w == w0, 0 <= vx_it4.pos() <= ps0.len(), vx_it4.cur().len() == ps0.len(), vx_it4.end() == e4, vx_it4.left() == ps0.len() - vx_it4.pos(), told_files(i0, vx_it4.what()),
        *dirty_tick == if vx_it4.pos() > 0 && t4 is Some && t4->0.logical_tick == d4 { 0 } else { d4 },
        forall|k: int| 0 <= k < vx_it4.pos() ==> stepped(ps0[k], #[trigger] vx_it4.cur()[k]) && snap_ok(vx_it4.cur()[k]) && vx_it4.cur()[k].verse.vfs.mem() == (if t4 is Some { mem_after(ps0[k].verse.vfs.mem(), t4->0.event) } else { ps0[k].verse.vfs.mem() })
            && vx_it4.cur()[k].verse.vfs.log() == ps0[k].verse.vfs.log().push(vx_it4.what()) && vx_it4.cur()[k].latest_success_doc == ps0[k].latest_success_doc,
        forall|k: int| vx_it4.pos() <= k < ps0.len() ==> #[trigger] vx_it4.cur()[k] == ps0[k],
    ensures vx_it4.pos() == ps0.len(), vx_it4.cur() == e4, *dirty_tick == if t4 is Some && t4->0.logical_tick == d4 { 0 } else { d4 }
    decreases ps0.len() - vx_it4.pos()
//@end
}
/// the handler is told that the revision is compiled, how it went, and the result
spec fn told_of<F: CompilerFeat>(w0: World, w1: World, a: CompiledArtifact<F>) -> bool {
    let s = a.graph.snap_();
    let n = w0.said.len() as int;
    &&& w1.q == w0.q && w1.deps == w0.deps && w1.said.len() == n + 3 && w1.said.take(n) =~= w0.said
    &&& w1.said[n] == Said::Status(s.id.0@, s.world.revision@, CompileStatusEnum::Compiling)
    &&& w1.said[n + 1] matches Said::Status(i, r, st) && i == s.id.0@ && r == s.world.revision@ && (st is CompileSuccess <==> a.doc is Some) && (st is CompileError <==> a.doc is None)
    &&& w1.said[n + 2] == Said::Done(s.id.0@, s.world.revision@, a.doc is Some)
}
#[verifier::external_body]
struct Instant { x: u8 }
impl Instant { #[verifier::external_body] fn vx_elapsed(&self) -> Duration { unimplemented!() } }
#[verifier::external_body]
fn vx_now() -> Instant { unimplemented!() }
}
fn main() {}
