// ---- the rest of the state
#[derive(Copy, Clone)]
pub struct PathArg { pub id: u64 }
// a table of macros, by name
#[verifier::external_body]
pub struct Macros { m: Vec<(Vec<i8>, Vec<i8>)> }
impl View for Macros { type V = Map<Seq<i8>, Seq<i8>>; uninterp spec fn view(&self) -> Map<Seq<i8>, Seq<i8>>; }
#[verifier::external_body]
pub fn macros_new() -> (r: Macros) ensures r@ == Map::<Seq<i8>, Seq<i8>>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn Macros_clone(x: &Macros) -> (r: Macros) ensures r@ == x@ { unimplemented!() }
// a stack of texts, the last of which is being written
pub struct Collector { pub v: Vec<Vec<i8>> }
impl View for Collector { type V = Seq<Seq<i8>>; open spec fn view(&self) -> Seq<Seq<i8>> { self.v@.map_values(|x: Vec<i8>| x@) } }
// what has been parsed so far, and what is saved of it
pub struct Vals { pub depth: Ghost<int> }
// the document, and a record of the texts that have been parsed
pub struct Doc { pub id: u64, pub level: i32, pub log: Ghost<Seq<Snap>> }
// how the grammar was entered
pub struct Snap { pub rule: int, pub text: Seq<i8>, pub cx: Cx }
// what a text means depends on this
pub struct Cx {
    pub imported: bool, pub file: FileRef, pub path: quickbook_path, pub base: PathArg, pub mode: source_mode_info, pub macros: Map<Seq<i8>, Seq<i8>>,
    pub depth: int, pub min_level: int, pub version: int, pub tagged: Seq<source_mode_info>, pub parent: usize, pub hs: Seq<template_scope>, pub ss: Seq<template_symbol>,
    pub out: Seq<Seq<i8>>, pub phrase: Seq<Seq<i8>>, pub in_list: bool, pub lists: Seq<bool>, pub values: int,
}
pub open spec fn cx(s: state, hs: Seq<template_scope>, ss: Seq<template_symbol>) -> Cx {
    Cx { imported: s.imported, file: s.current_file, path: s.current_path, base: s.xinclude_base, mode: s.source_mode, macros: s.macro_@, depth: s.template_depth as int,
         min_level: s.min_section_level as int, version: s.qbk_version_n as int, tagged: s.tagged_source_mode_stack@, parent: s.templates.parent_1_4, hs: hs, ss: ss,
         out: s.out@, phrase: s.phrase@, in_list: s.in_list, lists: s.in_list_save@, values: s.values.depth@ }
}
pub fn Macros_uninit() -> (r: Macros) { macros_new() }
pub fn Collector_uninit() -> (r: Collector) { Collector { v: Vec::new() } }
pub fn Vals_uninit() -> (r: Vals) { Vals { depth: Ghost(0int) } }
pub fn Doc_uninit() -> (r: Doc) { Doc { id: 0, level: 0, log: Ghost(Seq::empty()) } }
pub fn PathArg_uninit() -> (r: PathArg) { PathArg { id: 0 } }
pub fn FileRef_uninit() -> (r: FileRef) { FileRef { id: 0 } }
pub open spec fn only_errors(a: state, b: state) -> bool { b == (state { error_count: b.error_count, ..a }) }
// ---- text that is written: the text that is being collected has changed, and the anchors that wait for a place
pub open spec fn texts(a: state, b: state) -> bool {
    b == (state { out: b.out, phrase: b.phrase, anchors: b.anchors, source_mode_next: b.source_mode_next, ..a })
}
