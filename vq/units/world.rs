// ---- what the program reads and writes
#[derive(Copy, Clone)]
pub struct PathArg { pub id: u64 }
#[derive(Copy, Clone)]
pub struct FileRef { pub id: u64 }
#[derive(Copy, Clone)]
pub struct Doc { }
#[derive(Copy, Clone)]
pub struct Buf { }
#[derive(Copy, Clone)]
pub struct HtmlOps { pub id: u64 }
pub fn FileRef_uninit() -> (r: FileRef) { FileRef { id: 0 } }
pub fn HtmlOps_uninit() -> (r: HtmlOps) { HtmlOps { id: 0 } }
pub fn PathArg_uninit() -> (r: PathArg) { PathArg { id: 0 } }
// read: the document has been read to its end; errors: the number of errors reported then, text: the document made of it;
// opened: the files opened to be written, stored: the files that have been written completely; pages: documents written completely as html
pub struct World { pub read: bool, pub unparsed: bool, pub errors: int, pub text: Seq<i8>, pub opened: Seq<PathArg>, pub stored: Seq<(PathArg, Seq<i8>)>, pub html: Seq<Seq<i8>>, pub pages: Seq<(Seq<i8>, HtmlOps)> }
pub struct Heap_world { pub w: Ghost<World> }
pub uninterp spec fn s_path_empty(p: PathArg) -> bool;
#[verifier::external_body]
pub fn path_is_empty(p: PathArg) -> (r: bool) ensures r == s_path_empty(p) { unimplemented!() }
pub uninterp spec fn s_path_parent(p: PathArg) -> PathArg;
#[verifier::external_body]
pub fn path_parent(p: PathArg) -> (r: PathArg) ensures r == s_path_parent(p) { unimplemented!() }
#[verifier::external_body]
pub fn path_exists(p: PathArg) -> (r: bool) { unimplemented!() }
#[verifier::external_body]
pub fn create_dirs(p: PathArg) -> (r: Result<(), Exn>) { unimplemented!() }
// a file that is being written
pub struct OutFile { pub path: PathArg, pub bad: bool, pub text: Ghost<Seq<i8>> }
#[verifier::external_body]
pub fn of_open(p: PathArg, w: &mut Heap_world) -> (r: OutFile)
    ensures r.path == p, r.text@ == Seq::<i8>::empty(), final(w).w@ == (World { opened: old(w).w@.opened.push(p), ..old(w).w@ })
{ unimplemented!() }
pub fn of_fail(f: &OutFile) -> (r: bool) ensures r == f.bad { f.bad }
#[verifier::external_body]
pub fn of_write(f: &mut OutFile, t: &[i8]) ensures final(f).path == old(f).path, final(f).text@ == old(f).text@ + t@, old(f).bad ==> final(f).bad { unimplemented!() }
// what has been written is in the file only when it is flushed
#[verifier::external_body]
pub fn of_close(f: &mut OutFile, w: &mut Heap_world)
    ensures final(f).path == old(f).path, final(f).text@ == old(f).text@, old(f).bad ==> final(f).bad,
        final(w).w@ == (if final(f).bad { old(w).w@ } else { World { stored: old(w).w@.stored.push((old(f).path, old(f).text@)), ..old(w).w@ } })
{ unimplemented!() }
#[verifier::external_body]
pub fn write_deps(p: PathArg, w: &mut Heap_world) -> (r: Result<(), Exn>) ensures final(w).w@ == (World { opened: old(w).w@.opened.push(p), ..old(w).w@ }) { unimplemented!() }
// the document
#[verifier::external_body]
pub fn document_text(w: &mut Heap_world) -> (r: Vec<i8>) ensures r@ == old(w).w@.text, final(w).w@ == old(w).w@ { unimplemented!() }
pub uninterp spec fn s_pretty(t: Seq<i8>, indent: int, width: int) -> Seq<i8>;
#[verifier::external_body]
pub fn post_process(t: &[i8], indent: i32, width: i32) -> (r: Result<Vec<i8>, Exn>)
    ensures r.is_ok() ==> r->Ok_0@ == s_pretty(t@, indent as int, width as int), r.is_err() ==> r->Err_0.kind == EXN_post_process_failure
{ unimplemented!() }
#[verifier::external_body]
pub fn write_html(t: &[i8], o: HtmlOps, w: &mut Heap_world) -> (r: i32)
    ensures final(w).w@ == (World { html: old(w).w@.html.push(t@), pages: if r == 0 { old(w).w@.pages.push((t@, o)) } else { old(w).w@.pages }, ..old(w).w@ })
{ unimplemented!() }
