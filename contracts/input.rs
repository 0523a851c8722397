// Unit: the documents open in the editor (C28).
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unreachable_code, unused_parens, unused_braces, path_statements, non_snake_case, unreachable_patterns)]
//@option chains map_option keep_closures
//@rw type ImmutPath => Path
//@rw type PathBuf => Path
//@rw type Arc<Path> => Path
//@rw type FileResult<$t> => core::result::Result<$t, FileError>
//@rw type Result<$t> => core::result::Result<$t, VxErr>
//@rw type LspResult<$t> => core::result::Result<$t, LspError>
//@rw expr FileResult::Ok($x) => vx_ok($x)
//@rw expr $x.into() => vx_into($x)
//@rw expr $x.as_path() => &$x
//@rw expr $x.to_owned() => vx_owned($x)
//@rw expr $x.to_string() => vx_owned($x)
//@rw expr $x.as_deref() => $x.as_ref()
//@rw expr $x.is_some_and($f) => vx_some_and($x, $f)
//@rw expr rayon::spawn($x) => ()
//@macro error_once => vx_err()
//@macro anyhow::anyhow => vx_err()
//@macro anyhow => vx_err()
//@known project stop_all
//@include location_core.rs
//@include coll.rs
struct PKey { x: int }
uninterp spec fn pk(t: Seq<char>) -> PKey;
/// a path; two are the same if their components are (std's)
#[verifier::external_body]
struct Path { x: u8 }
impl View for Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Path {
    #[verifier::external_body]
    fn is_absolute(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn starts_with(&self, p: &str) -> bool { unimplemented!() }
}
#[verifier::external_body]
struct VxErr { x: u8 }
#[verifier::external_body]
struct LspError { x: u8 }
fn invalid_params(e: VxErr) -> LspError { vx_lsp_err() }
#[verifier::external_body]
fn vx_lsp_err() -> LspError { unimplemented!() }
#[verifier::external_body]
fn vx_err() -> VxErr { unimplemented!() }
enum FileError { AccessDenied, IsDirectory, InvalidUtf8, Other(u8) }
/// a text in bytes
#[verifier::external_body]
struct Bytes { x: u8 }
impl Bytes {
    uninterp spec fn chars(&self) -> Seq<char>;
    #[verifier::external_body]
    fn from_string<S: VxStr>(s: S) -> (r: Bytes) ensures r.chars() == s.chars_() { unimplemented!() }
}
fn vx_ok(b: Bytes) -> (r: Result<Bytes, FileError>) ensures r == Ok::<Bytes, FileError>(b) { Ok(b) }
trait VxStr { spec fn chars_(&self) -> Seq<char>; }
impl VxStr for str { spec fn chars_(&self) -> Seq<char> { self@ } }
impl VxStr for String { spec fn chars_(&self) -> Seq<char> { self@ } }
impl<'a, T: VxStr + ?Sized> VxStr for &'a T { spec fn chars_(&self) -> Seq<char> { (**self).chars_() } }
#[verifier::external_body]
fn vx_owned<S: VxStr>(s: S) -> (r: String) ensures r@ == s.chars_() { unimplemented!() }
impl VxDup for Path {}
impl VxDup for Source {}
impl VxDup for FileChangeSet {}
impl VxDup for ProjectInsId {}
impl<T: VxDup> VxDup for Option<T> {}
trait VxKey { type K; spec fn key(&self) -> Self::K; }
impl VxKey for Path { type K = PKey; spec fn key(&self) -> PKey { pk(self@) } }
impl<'a, T: VxKey> VxKey for &'a T { type K = T::K; spec fn key(&self) -> T::K { (**self).key() } }
impl<T: VxKey> VxKey for Option<T> { type K = Option<T::K>; spec fn key(&self) -> Option<T::K> { match *self { Some(x) => Some(x.key()), None => None } } }
#[verifier::external_body]
fn vx_eq<A: VxKey, B: VxKey<K = A::K>>(a: &A, b: &B) -> (r: bool) ensures r == (a.key() == b.key()) { unimplemented!() }
#[verifier::external_body]
fn vx_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { unimplemented!() }
trait VxInto { type O; spec fn conv(self, o: Self::O) -> bool; }
impl VxInto for Result<Bytes, FileError> { type O = FileSnapshot; spec fn conv(self, o: FileSnapshot) -> bool { shows(o) == (match self { Ok(b) => Some(b.chars()), Err(_) => None }) } }
impl<'a> VxInto for &'a Path { type O = Path; spec fn conv(self, o: Path) -> bool { *self == o } }
impl VxInto for Path { type O = Path; spec fn conv(self, o: Path) -> bool { self == o } }
#[verifier::external_body]
fn vx_into<T: VxInto>(t: T) -> (r: T::O) ensures t.conv(r) { unimplemented!() }
impl Source {
    #[verifier::external_body]
    fn detached<S: VxStr>(s: S) -> (r: Source) ensures r.text_() == s.chars_() { unimplemented!() }
    /// panics outside the text or within a character
    #[verifier::external_body]
    fn edit<S: VxStr + ?Sized>(&mut self, r: Range<usize>, with: &S) -> (o: Range<usize>)
        requires r.start <= r.end, is_place(old(self).text_(), r.start as int), is_place(old(self).text_(), r.end as int)
        ensures final(self).text_() == old(self).text_().take(place(old(self).text_(), r.start as int)) + with.chars_() + old(self).text_().skip(place(old(self).text_(), r.end as int)) { unimplemented!() }
    #[verifier::external_body]
    fn replace<S: VxStr + ?Sized>(&mut self, with: &S) -> (o: Range<usize>) ensures final(self).text_() == with.chars_() { unimplemented!() }
}
/// std's map
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct HashMap<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K: VxKey, V> HashMap<K, V> {
    uninterp spec fn view(&self) -> Map<K::K, V>;
    #[verifier::external_body]
    fn get<Q: VxKey<K = K::K> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r is Some <==> self@.dom().contains(k.key()), r is Some ==> *(r->0) == self@[k.key()] { unimplemented!() }
    #[verifier::external_body]
    fn contains_key<Q: VxKey<K = K::K> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k.key()) { unimplemented!() }
    #[verifier::external_body]
    fn get_mut<Q: VxKey<K = K::K> + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures r is Some <==> old(self)@.dom().contains(k.key()),
            r is Some ==> *(r->0) == old(self)@[k.key()] && final(self)@ == old(self)@.insert(k.key(), *final(r->0)),
            r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.key(), v) { unimplemented!() }
    #[verifier::external_body]
    fn remove<Q: VxKey<K = K::K> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.key()), r is Some <==> old(self)@.dom().contains(k.key()) { unimplemented!() }
    #[verifier::external_body]
    fn iter(&self) -> (r: VxIt<(&K, &V)>) ensures r.pos() == 0, lists(r.all(), self@) { unimplemented!() }
}
/// every entry of a map once, in some order
spec fn lists<K: VxKey, V>(s: Seq<(&K, &V)>, m: Map<K::K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0.key()) && m[s[i].0.key()] == *s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.key() != (#[trigger] s[j]).0.key()
    &&& forall|k: K::K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.key() == k
}
//@type crates/tinymist-vfs/src/snapshot.rs FileSnapshot
//@type crates/tinymist-vfs/src/snapshot.rs FileChangeSet
//@type crates/tinymist-vfs/src/notify.rs MemoryEvent
/// the text of a snapshot
spec fn shows(s: FileSnapshot) -> Option<Seq<char>> { match s.0 { Ok(b) => Some(b.chars()), Err(_) => None } }
impl FileChangeSet {
//@fn crates/tinymist-vfs/src/snapshot.rs FileChangeSet::new_removes C28
//@ret r
    ensures r.removes == removes, r.inserts@.len() == 0
//@end
//@fn crates/tinymist-vfs/src/snapshot.rs FileChangeSet::new_inserts C28
//@ret r
    ensures r.inserts == inserts, r.removes@.len() == 0
//@end
}
#[verifier::external_body]
struct ProjectInsId { x: u8 }
#[verifier::external_body]
struct TaskInputs { x: u8 }
enum Interrupt { Memory(MemoryEvent), ChangeTask(ProjectInsId, TaskInputs), Other }
type Mem = Map<PKey, Option<Seq<char>>>;
spec fn gone(m: Mem, rm: Seq<Path>) -> Mem decreases rm.len() { if rm.len() == 0 { m } else { gone(m, rm.drop_last()).remove(pk(rm.last()@)) } }
spec fn came(m: Mem, ins: Seq<(Path, FileSnapshot)>) -> Mem decreases ins.len() { if ins.len() == 0 { m } else { came(m, ins.drop_last()).insert(pk(ins.last().0@), shows(ins.last().1)) } }
/// what the compiler was told to read instead of the files
spec fn told(log: Seq<Interrupt>) -> Mem decreases log.len() {
    if log.len() == 0 { Map::empty() } else {
        match log.last() {
            Interrupt::Memory(MemoryEvent::Update(c)) => came(gone(told(log.drop_last()), c.removes@), c.inserts@),
            Interrupt::Memory(MemoryEvent::Sync(c)) => came(gone(Map::empty(), c.removes@), c.inserts@),
            _ => told(log.drop_last()),
        }
    }
}
proof fn told_push(log: Seq<Interrupt>, i: Interrupt)
    ensures told(log.push(i)) == (match i {
            Interrupt::Memory(MemoryEvent::Update(c)) => came(gone(told(log), c.removes@), c.inserts@),
            Interrupt::Memory(MemoryEvent::Sync(c)) => came(gone(Map::empty(), c.removes@), c.inserts@),
            _ => told(log),
        })
{ assert(log.push(i).drop_last() =~= log); }
broadcast proof fn told_pushed(log: Seq<Interrupt>, i: Interrupt)
    ensures #[trigger] told(log.push(i)) == (match i {
            Interrupt::Memory(MemoryEvent::Update(c)) => came(gone(told(log), c.removes@), c.inserts@),
            Interrupt::Memory(MemoryEvent::Sync(c)) => came(gone(Map::empty(), c.removes@), c.inserts@),
            _ => told(log),
        })
{ told_push(log, i); }
broadcast proof fn gone0(m: Mem, rm: Seq<Path>) requires rm.len() == 0 ensures #[trigger] gone(m, rm) == m {}
broadcast proof fn came0(m: Mem, ins: Seq<(Path, FileSnapshot)>) requires ins.len() == 0 ensures #[trigger] came(m, ins) == m {}
broadcast proof fn gone1(m: Mem, rm: Seq<Path>) requires rm.len() == 1 ensures #[trigger] gone(m, rm) == m.remove(pk(rm[0]@)) { assert(rm.drop_last().len() == 0); reveal_with_fuel(gone, 2); }
broadcast proof fn came1(m: Mem, ins: Seq<(Path, FileSnapshot)>) requires ins.len() == 1 ensures #[trigger] came(m, ins) == m.insert(pk(ins[0].0@), shows(ins[0].1)) { assert(ins.drop_last().len() == 0); reveal_with_fuel(came, 2); }
/// the project: it gets the events in the order they are sent
#[verifier::external_body]
struct ProjectState { x: u8 }
impl ProjectState {
    uninterp spec fn log(&self) -> Seq<Interrupt>;
    #[verifier::external_body]
    fn interrupt(&mut self, i: Interrupt) ensures final(self).log() == old(self).log().push(i) { unimplemented!() }
    #[verifier::external_body]
    fn primary_id(&self) -> &ProjectInsId { unimplemented!() }
    #[verifier::external_body]
    fn stop(&mut self) { unimplemented!() }
}
struct TextDocumentContentChangeEvent { range: Option<LspRange>, range_length: Option<u32>, text: String }
type Change = TextDocumentContentChangeEvent;
/// the place a position of the client names
spec fn names(t: Seq<char>, p: LspPosition, e: PositionEncoding, i: int) -> bool {
    if p.line >= lines(t).len() { i == t.len() } else {
        let b = lines(t)[p.line as int]; let end = line_end(t, p.line as int);
        b <= i <= end && (units(t, b, i, e) == p.character || (p.character >= units(t, b, end, e) && i == end))
    }
}
spec fn spot(t: Seq<char>, p: LspPosition, e: PositionEncoding) -> int { choose|i: int| names(t, p, e, i) }
/// the document after one change
spec fn edit1(t: Seq<char>, c: Change, e: PositionEncoding) -> Seq<char> {
    match c.range { None => c.text@, Some(r) => t.take(spot(t, r.start, e)) + c.text@ + t.skip(spot(t, r.end, e)) }
}
/// a change a client may send: it names places, in order
spec fn fits1(t: Seq<char>, c: Change, e: PositionEncoding) -> bool {
    c.range is Some ==> small(t) && (exists|i: int| names(t, (c.range->0).start, e, i)) && (exists|i: int| names(t, (c.range->0).end, e, i)) && spot(t, (c.range->0).start, e) <= spot(t, (c.range->0).end, e)
}
/// the document after the first n changes
#[verifier::opaque]
spec fn edited(t: Seq<char>, ch: Seq<Change>, n: int, e: PositionEncoding) -> Seq<char> decreases n { if n <= 0 { t } else { edit1(edited(t, ch, n - 1, e), ch[n - 1], e) } }
spec fn fits(t: Seq<char>, ch: Seq<Change>, e: PositionEncoding) -> bool { forall|n: int| 0 <= n < ch.len() ==> fits1(#[trigger] edited(t, ch, n, e), ch[n], e) }
proof fn edited_step(t: Seq<char>, ch: Seq<Change>, n: int, e: PositionEncoding)
    ensures edited(t, ch, 0, e) == t, n > 0 ==> edited(t, ch, n, e) == edit1(edited(t, ch, n - 1, e), ch[n - 1], e)
{ reveal_with_fuel(edited, 2); }
broadcast proof fn named(t: Seq<char>, p: LspPosition, e: PositionEncoding, r: Option<usize>)
    requires small(t), #[trigger] means(t, p, e, r), exists|i: int| names(t, p, e, i)
    ensures r is Some, is_place(t, r->0 as int), place(t, r->0 as int) == spot(t, p, e), 0 <= spot(t, p, e) <= t.len(), r->0 == off8(t, spot(t, p, e))
{
    let i = spot(t, p, e);
    assert(names(t, p, e, i));
    reveal(means); lines_ok(t); offsets(t);
    if p.line < lines(t).len() { line_facts(t, p.line as int); }
    place_of(t, i);
}
proof fn ordered(t: Seq<char>, c: Change, e: PositionEncoding)
    requires fits1(t, c, e)
    ensures c.range is Some ==> off8(t, spot(t, (c.range->0).start, e)) <= off8(t, spot(t, (c.range->0).end, e))
{
    if c.range is Some {
        let a = (c.range->0).start; let b = (c.range->0).end; let i = spot(t, a, e); let j = spot(t, b, e);
        assert(names(t, a, e, i)); assert(names(t, b, e, j));
        lines_ok(t);
        if a.line < lines(t).len() { line_facts(t, a.line as int); }
        if b.line < lines(t).len() { line_facts(t, b.line as int); }
        same_off(t, i, j);
    }
}
struct ConstConfig { position_encoding: PositionEncoding }
#[verifier::external_body]
struct EntryResolver { x: u8 }
impl EntryResolver {
    #[verifier::external_body]
    fn resolve_default(&self) -> Option<Path> { unimplemented!() }
}
struct Config { has_default_entry_path: bool, const_config: ConstConfig }
#[verifier::external_body]
struct VxClient { x: u8 }
impl VxDup for VxClient {}
/// the server, as far as documents go
struct ServerState {
    pinning_by_user: bool,
    pinning_by_preview: bool,
    pinning_by_browsing_preview: bool,
    focusing: Option<Path>,
    implicit_position: Option<LspPosition>,
    ever_focusing_by_activities: bool,
    ever_manual_focusing: bool,
    config: Config,
    memory_changes: HashMap<Path, Source>,
    project: ProjectState,
    client: VxClient,
    editor_tx: VxClient,
}
/// the documents the server holds
spec fn docs(s: ServerState) -> Map<PKey, Seq<char>> { s.memory_changes@.map_values(|x: Source| x.text_()) }
/// the compiler reads what the server holds
spec fn told_all(s: ServerState) -> bool { told(s.project.log()) == docs(s).map_values(|t: Seq<char>| Some(t)) }
/// entries of a map, as changes
spec fn copies(out: Seq<(Path, FileSnapshot)>, all: Seq<(&Path, &Source)>, n: int) -> bool {
    out.len() == n && forall|i: int| 0 <= i < n ==> pk((#[trigger] out[i]).0@) == pk(all[i].0@) && shows(out[i].1) == Some(all[i].1.text_())
}
proof fn came_all(out: Seq<(Path, FileSnapshot)>)
    requires forall|i: int, j: int| 0 <= i < j < out.len() ==> pk((#[trigger] out[i]).0@) != pk((#[trigger] out[j]).0@)
    ensures forall|i: int| 0 <= i < out.len() ==> came(Map::empty(), out).dom().contains(pk((#[trigger] out[i]).0@)) && came(Map::empty(), out)[pk(out[i].0@)] == shows(out[i].1),
        forall|k: PKey| #[trigger] came(Map::empty(), out).dom().contains(k) ==> exists|i: int| 0 <= i < out.len() && pk((#[trigger] out[i]).0@) == k
    decreases out.len()
{
    if out.len() > 0 {
        let d = out.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies pk((#[trigger] d[i]).0@) != pk((#[trigger] d[j]).0@) by { assert(d[i] == out[i] && d[j] == out[j]); }
        came_all(d);
        let c = came(Map::empty(), d);
        assert(came(Map::empty(), out) == c.insert(pk(out.last().0@), shows(out.last().1)));
        assert forall|i: int| 0 <= i < out.len() implies came(Map::empty(), out).dom().contains(pk((#[trigger] out[i]).0@)) && came(Map::empty(), out)[pk(out[i].0@)] == shows(out[i].1) by {
            if i < d.len() { assert(d[i] == out[i]); assert(pk(out[i].0@) != pk(out[out.len() - 1].0@)); }
        }
        assert forall|k: PKey| #[trigger] came(Map::empty(), out).dom().contains(k) implies exists|i: int| 0 <= i < out.len() && pk((#[trigger] out[i]).0@) == k by {
            if k == pk(out.last().0@) { assert(out[out.len() - 1].0 == out.last().0); }
            else { assert(c.dom().contains(k)); let i = choose|i: int| 0 <= i < d.len() && pk((#[trigger] d[i]).0@) == k; assert(out[i] == d[i]); }
        }
    }
}
broadcast proof fn copied(out: Seq<(Path, FileSnapshot)>, all: Seq<(&Path, &Source)>, m: Map<PKey, Source>, n: int)
    requires #[trigger] lists(all, m), #[trigger] copies(out, all, n), n == all.len()
    ensures came(Map::empty(), out) == m.map_values(|x: Source| x.text_()).map_values(|t: Seq<char>| Some(t))
{
    assert forall|i: int, j: int| 0 <= i < j < out.len() implies pk((#[trigger] out[i]).0@) != pk((#[trigger] out[j]).0@) by { assert(all[i].0.key() != all[j].0.key()); }
    came_all(out);
    let c = came(Map::empty(), out); let w = m.map_values(|x: Source| x.text_()).map_values(|t: Seq<char>| Some(t));
    assert forall|k: PKey| c.dom().contains(k) <==> w.dom().contains(k) by {
        if c.dom().contains(k) { let i = choose|i: int| 0 <= i < out.len() && pk((#[trigger] out[i]).0@) == k; assert(all[i].0.key() == k); }
        if w.dom().contains(k) { assert(m.dom().contains(k)); let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0.key() == k; assert(pk(out[i].0@) == k); }
    }
    assert forall|k: PKey| c.dom().contains(k) implies c[k] == w[k] by {
        let i = choose|i: int| 0 <= i < out.len() && pk((#[trigger] out[i]).0@) == k; assert(all[i].0.key() == k); assert(m[k] == *all[i].1);
    }
    assert(c =~= w);
}
/// nothing happened to the documents
spec fn unmoved(a: ServerState, b: ServerState) -> bool { a.memory_changes == b.memory_changes && told(a.project.log()) == told(b.project.log()) && a.config == b.config }
broadcast proof fn mapped_insert<K, V, W>(m: Map<K, V>, f: spec_fn(V) -> W, k: K, v: V)
    ensures #[trigger] m.insert(k, v).map_values(f) == m.map_values(f).insert(k, f(v))
{ assert(m.insert(k, v).map_values(f) =~= m.map_values(f).insert(k, f(v))); }
broadcast proof fn mapped_remove<K, V, W>(m: Map<K, V>, f: spec_fn(V) -> W, k: K)
    ensures #[trigger] m.remove(k).map_values(f) == m.map_values(f).remove(k)
{ assert(m.remove(k).map_values(f) =~= m.map_values(f).remove(k)); }
broadcast proof fn vx_skip0<T>(s: Seq<T>, n: int) requires n == 0 ensures #[trigger] s.skip(n) == s { assert(s.skip(0) =~= s); }
broadcast group doc_facts { vx_skip0,  told_pushed, gone0, gone1, came0, came1, mapped_insert, mapped_remove, named }
#[verifier::external_body]
struct Url { x: u8 }
/// the path a uri names (C12)
uninterp spec fn file_of(u: Url) -> Seq<char>;
#[verifier::external_body]
fn as_path_(u: Url) -> (r: Path) ensures r@ == file_of(u) { unimplemented!() }
/// a new project was told nothing yet
#[verifier::external_body]
fn vx_new_project() -> (r: ProjectState) ensures r.log().len() == 0 { unimplemented!() }
struct TextDocumentItem { uri: Url, text: String }
struct TextDocumentIdentifier { uri: Url }
struct DidOpenTextDocumentParams { text_document: TextDocumentItem }
struct DidCloseTextDocumentParams { text_document: TextDocumentIdentifier }
struct DidChangeTextDocumentParams { text_document: TextDocumentIdentifier, content_changes: Vec<Change> }
impl ServerState {
    fn const_config(&self) -> (r: &ConstConfig) ensures *r == self.config.const_config { &self.config.const_config }
    #[verifier::external_body]
    fn entry_resolver(&self) -> &EntryResolver { unimplemented!() }
    #[verifier::external_body]
    fn resolve_task_or(&mut self, p: Option<Path>) -> (r: TaskInputs) ensures unmoved(*old(self), *final(self)) { unimplemented!() }
//@fn crates/tinymist/src/input.rs ServerState::update_sources C28
//@ret r
    ensures r is Ok, final(self).project.log() == old(self).project.log().push(Interrupt::Memory(MemoryEvent::Update(files))),
        final(self).memory_changes == old(self).memory_changes, final(self).config == old(self).config
//@end
//@fn crates/tinymist/src/input.rs ServerState::create_source C28
//@ret r
    requires told_all(*old(self))
    ensures r is Ok, docs(*final(self)) == docs(*old(self)).insert(pk(path@), content@), told_all(*final(self)), final(self).config == old(self).config
//@entry
    broadcast use doc_facts;
    let ghost s0 = *self;
//@end
//@fn crates/tinymist/src/input.rs ServerState::remove_source C28
//@ret r
    requires told_all(*old(self))
    ensures r is Ok, docs(*final(self)) == docs(*old(self)).remove(pk(path@)), told_all(*final(self)), final(self).config == old(self).config
//@entry
    broadcast use doc_facts;
    let ghost s0 = *self;
//@end
//@fn crates/tinymist/src/input.rs ServerState::edit_source C28
//@ret r
    requires told_all(*old(self)), docs(*old(self)).dom().contains(pk(path@)) ==> fits(docs(*old(self))[pk(path@)], content@, position_encoding)
    ensures told_all(*final(self)), final(self).config == old(self).config,
        docs(*old(self)).dom().contains(pk(path@)) ==> r is Ok && docs(*final(self)) == docs(*old(self)).insert(pk(path@), edited(docs(*old(self))[pk(path@)], content@, content@.len() as int, position_encoding)),
        !docs(*old(self)).dom().contains(pk(path@)) ==> r is Err && docs(*final(self)) == docs(*old(self))
//@entry
    broadcast use doc_facts;
    let ghost s0 = *self;
    let ghost ch = content@;
    let ghost t0 = docs(*self)[pk(path@)];
    proof { edited_step(t0, ch, 0, position_encoding); }
//@loop 0 for
    invariant vx_it0.all() == ch, 0 <= vx_it0.pos() <= ch.len(), source.text_() == edited(t0, ch, vx_it0.pos(), position_encoding), fits(t0, ch, position_encoding)
    ensures vx_it0.pos() == ch.len()
    decreases vx_it0.all().len() - vx_it0.pos()
//@loopstart 0
    let ghost n = vx_it0.pos();
    broadcast use doc_facts;
    proof { edited_step(t0, ch, n + 1, position_encoding); if n < ch.len() { ordered(edited(t0, ch, n, position_encoding), ch[n], position_encoding); } }
//@end
//@fn crates/tinymist/src/input.rs ServerState::query_source C28
//@ret r
    requires forall|s: Source| f.requires((s,))
    ensures !docs(*self).dom().contains(pk(path@)) ==> r is Err,
        docs(*self).dom().contains(pk(path@)) ==> exists|s: Source| s.text_() == docs(*self)[pk(path@)] && #[trigger] f.ensures((s,), r)
//@end
//@fn crates/tinymist/src/input.rs ServerState::change_main_file C28
//@ret r
    ensures unmoved(*old(self), *final(self))
//@entry
    broadcast use doc_facts;
//@end
//@fn crates/tinymist/src/input.rs ServerState::pin_main_file C28
//@option map_result
//@ret r
    ensures unmoved(*old(self), *final(self))
//@end
//@fn crates/tinymist/src/input.rs ServerState::focus_main_file C28
//@rw expr $x != $y => !vx_eq(&$x, &$y)
//@rw expr $x == $y => vx_eq(&$x, &$y)
//@ret r
    ensures unmoved(*old(self), *final(self))
//@end
//@fn crates/tinymist/src/input.rs ServerState::implicit_focus_entry C28
    requires new_entry.requires(())
    ensures unmoved(*old(self), *final(self))
//@end
//@fn crates/tinymist/src/lsp.rs ServerState::did_open C28
//@ret r
    requires told_all(*old(self))
    ensures r is Ok, docs(*final(self)) == docs(*old(self)).insert(pk(file_of(params.text_document.uri)), params.text_document.text@), told_all(*final(self))
//@end
//@fn crates/tinymist/src/lsp.rs ServerState::did_close C28
//@ret r
    requires told_all(*old(self))
    ensures r is Ok, docs(*final(self)) == docs(*old(self)).remove(pk(file_of(params.text_document.uri))), told_all(*final(self))
//@end
//@fn crates/tinymist/src/lsp.rs ServerState::did_change C28
//@ret r
    requires told_all(*old(self)), docs(*old(self)).dom().contains(pk(file_of(params.text_document.uri))) ==> fits(docs(*old(self))[pk(file_of(params.text_document.uri))], params.content_changes@, old(self).config.const_config.position_encoding)
    ensures told_all(*final(self)),
        docs(*old(self)).dom().contains(pk(file_of(params.text_document.uri))) ==> r is Ok && docs(*final(self)) == docs(*old(self)).insert(pk(file_of(params.text_document.uri)), edited(docs(*old(self))[pk(file_of(params.text_document.uri))], params.content_changes@, params.content_changes@.len() as int, old(self).config.const_config.position_encoding)),
        !docs(*old(self)).dom().contains(pk(file_of(params.text_document.uri))) ==> r is Err && docs(*final(self)) == docs(*old(self))
//@end
//@fn crates/tinymist/src/project.rs ServerState::reload_projects C28
//@rw expr self.preview.stop_all() => ()
//@rw expr Self::project($x_list) => vx_new_project()
//@ret r
    requires told_all(*old(self))
    ensures r is Ok, told_all(*final(self)), docs(*final(self)) == docs(*old(self))
//@entry
    broadcast use doc_facts;
    let ghost m0 = self.memory_changes@;
//@loop 0 for
    invariant lists(vx_it0.all(), m0), self.memory_changes@ == m0, 0 <= vx_it0.pos() <= vx_it0.all().len(), copies(vx_out0@, vx_it0.all(), vx_it0.pos()),
        told_all(*old(self)), m0 == old(self).memory_changes@, self.project.log().len() == 0
    ensures came(Map::empty(), vx_out0@) == m0.map_values(|x: Source| x.text_()).map_values(|t: Seq<char>| Some(t))
    decreases vx_it0.all().len() - vx_it0.pos()
//@loopstart 0
    broadcast use copied;
//@end
}
/// the shadows a view of the files has (C23, C30)
#[verifier::external_body]
struct RevisingVfs { x: u8 }
impl RevisingVfs {
    uninterp spec fn view(&self) -> Mem;
    #[verifier::external_body]
    fn map_shadow(&mut self, p: &Path, s: FileSnapshot) -> (r: Result<(), FileError>) ensures final(self)@ == old(self)@.insert(pk(p@), shows(s)) { unimplemented!() }
    #[verifier::external_body]
    fn unmap_shadow(&mut self, p: &Path) -> (r: Result<(), FileError>) ensures final(self)@ == old(self)@.remove(pk(p@)) { unimplemented!() }
    #[verifier::external_body]
    fn reset_shadow(&mut self) ensures final(self)@ == Map::<PKey, Option<Seq<char>>>::empty() { unimplemented!() }
}
spec fn changes_of(e: MemoryEvent) -> FileChangeSet { match e { MemoryEvent::Sync(c) => c, MemoryEvent::Update(c) => c } }
proof fn gone_step(m: Mem, rm: Seq<Path>, n: int) requires 0 <= n < rm.len() ensures gone(m, rm.take(n + 1)) == gone(m, rm.take(n)).remove(pk(rm[n]@)) { assert(rm.take(n + 1).drop_last() =~= rm.take(n)); }
proof fn came_step(m: Mem, ins: Seq<(Path, FileSnapshot)>, n: int) requires 0 <= n < ins.len() ensures came(m, ins.take(n + 1)) == came(m, ins.take(n)).insert(pk(ins[n].0@), shows(ins[n].1)) { assert(ins.take(n + 1).drop_last() =~= ins.take(n)); }
struct ProjectCompiler { x: u8 }
impl ProjectCompiler {
//@fn crates/tinymist-project/src/compiler.rs ProjectCompiler::apply_memory_changes C28
//@rw type RevisingVfs<'_, F::AccessModel> => RevisingVfs
    ensures final(vfs)@ == came(gone(if event is Sync { Map::<PKey, Option<Seq<char>>>::empty() } else { old(vfs)@ }, changes_of(event).removes@), changes_of(event).inserts@)
//@entry
    let ghost m0 = if event is Sync { Map::<PKey, Option<Seq<char>>>::empty() } else { vfs@ };
    let ghost rm = changes_of(event).removes@;
    let ghost ins = changes_of(event).inserts@;
    proof { assert(rm.take(0).len() == 0 && rm.take(rm.len() as int) =~= rm); assert(ins.take(0).len() == 0 && ins.take(ins.len() as int) =~= ins); }
//@loop 0 for
    invariant vx_it0.all() == rm, 0 <= vx_it0.pos() <= rm.len(), vfs@ == gone(m0, rm.take(vx_it0.pos())), rm.take(rm.len() as int) == rm
    ensures vfs@ == gone(m0, rm)
    decreases vx_it0.all().len() - vx_it0.pos()
//@loopstart 0
    proof { if vx_it0.pos() < rm.len() { gone_step(m0, rm, vx_it0.pos()); } }
//@loop 1 for
    invariant vx_it1.all() == ins, 0 <= vx_it1.pos() <= ins.len(), vfs@ == came(gone(m0, rm), ins.take(vx_it1.pos())), ins.take(ins.len() as int) == ins
    ensures vfs@ == came(gone(m0, rm), ins)
    decreases vx_it1.all().len() - vx_it1.pos()
//@loopstart 1
    proof { if vx_it1.pos() < ins.len() { came_step(gone(m0, rm), ins, vx_it1.pos()); } }
//@loop 2 for
    invariant vx_it2.all() == rm, 0 <= vx_it2.pos() <= rm.len(), vfs@ == gone(m0, rm.take(vx_it2.pos())), rm.take(rm.len() as int) == rm
    ensures vfs@ == gone(m0, rm)
    decreases vx_it2.all().len() - vx_it2.pos()
//@loopstart 2
    proof { if vx_it2.pos() < rm.len() { gone_step(m0, rm, vx_it2.pos()); } }
//@loop 3 for
    invariant vx_it3.all() == ins, 0 <= vx_it3.pos() <= ins.len(), vfs@ == came(gone(m0, rm), ins.take(vx_it3.pos())), ins.take(ins.len() as int) == ins
    ensures vfs@ == came(gone(m0, rm), ins)
    decreases vx_it3.all().len() - vx_it3.pos()
//@loopstart 3
    proof { if vx_it3.pos() < ins.len() { came_step(gone(m0, rm), ins, vx_it3.pos()); } }
//@end
}
}
fn main() {}
