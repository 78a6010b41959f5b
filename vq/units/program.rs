#[derive(Copy, Clone)]
pub struct Val { }
#[verifier::external_body]
pub fn state_new(p: PathArg, w: &mut Heap_world) -> (r: state) ensures r.error_count == 0, final(w).w@ == (World { read: false, unparsed: false, errors: 0, ..old(w).w@ }) { unimplemented!() }
#[verifier::external_body]
pub fn preset_defines<'a>() -> (r: Vec<&'a [i8]>) { unimplemented!() }
#[verifier::external_body]
pub fn load_file(p: PathArg) -> (r: Result<FileRef, Exn>) { unimplemented!() }
pub uninterp spec fn s_source(f: FileRef) -> Seq<i8>;
#[verifier::external_body]
pub fn file_source<'a>(f: FileRef) -> (r: &'a [i8]) ensures r@ == s_source(f) { unimplemented!() }
#[derive(Copy, Clone)]
pub struct ParseInfo<'a> { pub full: bool, pub hit: bool, pub stop: It<'a> }
// errors that are found are counted; texts have been parsed when they were parsed to their end, but for the information about the document
pub open spec fn with_errors(a: World, n: int, read: bool, unparsed: bool, t: Seq<i8>) -> World { World { errors: a.errors + n, read: a.read || read, unparsed: a.unparsed || unparsed, text: t, ..a } }
#[verifier::external_body]
pub fn run_document<'a>(s: &mut state, t: &'a [i8], rule: i32, w: &mut Heap_world) -> (r: ParseInfo<'a>)
    ensures old(s).error_count <= final(s).error_count < i32::MAX - 1, final(w).w@ == with_errors(old(w).w@, final(s).error_count - old(s).error_count, rule == 2, rule != 0 && !r.full, final(w).w@.text),
        rule == 0 ==> r.hit,
        r.stop.s@ == t@, 0 <= r.stop.i <= t@.len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn document_pre(s: &mut state, w: &mut Heap_world) -> (r: Result<Vec<i8>, Exn>)
    ensures old(s).error_count <= final(s).error_count < i32::MAX - 1, final(w).w@ == with_errors(old(w).w@, final(s).error_count - old(s).error_count, false, false, final(w).w@.text),
{ unimplemented!() }
#[verifier::external_body]
pub fn document_post(s: &mut state, w: &mut Heap_world) -> (r: Result<(), Exn>)
    ensures old(s).error_count <= final(s).error_count < i32::MAX - 1, final(w).w@ == with_errors(old(w).w@, final(s).error_count - old(s).error_count, false, false, final(w).w@.text),
{ unimplemented!() }
// ---- the specification
pub open spec fn final_text(w: World, o: parse_document_options) -> Seq<i8> { if o.pretty_print { s_pretty(w.text, o.indent as int, o.linewidth as int) } else { w.text } }
pub open spec fn all_written(w: World, o: parse_document_options) -> bool {
    if o.format == 1 { w.pages.len() > 0 && w.pages.last() == (final_text(w, o), o.html_ops) } else { w.stored.len() > 0 && w.stored.last() == (o.output_path, final_text(w, o)) }
}
// nothing was written but the lists of dependencies
pub open spec fn only_side_files(a: World, b: World, o: parse_document_options) -> bool {
    b.html == a.html && b.pages == a.pages && b.stored == a.stored && a.opened.len() <= b.opened.len() && b.opened.subrange(0, a.opened.len() as int) == a.opened
    && forall|i: int| a.opened.len() <= i < b.opened.len() ==> #[trigger] b.opened[i] == o.deps_out || b.opened[i] == o.locations_out
}
// every error has been counted
pub open spec fn counted(w: World, n: int) -> bool { n >= 0 && (w.errors > 0 || w.unparsed ==> n > 0) && w.errors >= 0 }
// only the reading of documents
pub open spec fn only_read(a: World, b: World) -> bool { b == (World { read: b.read, unparsed: b.unparsed, errors: b.errors, text: b.text, ..a }) }
pub open spec fn read_well(w: World) -> bool { w.read && w.errors == 0 && !w.unparsed }
pub proof fn lists()
    ensures forall|s: Seq<i8>| #[trigger] s.subrange(0, s.len() as int) =~= s, forall|s: Seq<PathArg>| #[trigger] s.subrange(0, s.len() as int) =~= s, forall|s: Seq<PathArg>, p: PathArg, n: int| 0 <= n <= s.len() ==> #[trigger] s.push(p).subrange(0, n) =~= s.subrange(0, n),
{}
