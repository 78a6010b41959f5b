// ---------------------------------------------------------------- files, documents and sections
pub spec const SMALL: int = 0x100_0000_0000;
pub open spec fn cat_explicit() -> int { 6 }

// an opaque quickbook value: only these three questions are asked
#[verifier::external_body]
pub struct Value { x: usize }
pub uninterp spec fn value_checks(v: Value) -> bool;
pub uninterp spec fn value_empty(v: Value) -> bool;
pub uninterp spec fn value_text(v: Value) -> Seq<i8>;
#[verifier::external_body]
pub fn value_check_(v: &Value) -> (r: bool) ensures r == value_checks(*v) { unimplemented!() }
#[verifier::external_body]
pub fn value_empty_(v: &Value) -> (r: bool) ensures r == value_empty(*v) { unimplemented!() }
#[verifier::external_body]
pub fn value_quickbook_<'a>(v: &'a Value) -> (r: &'a [i8]) ensures r@ == value_text(*v) { unimplemented!() }
#[verifier::external_body]
pub fn Value_clone(v: &Value) -> (r: Value) ensures r == *v { unimplemented!() }
#[verifier::external_body]
pub fn Value_uninit() -> (r: Value) { unimplemented!() }
#[verifier::external_body]
pub fn value_none_() -> (r: Value) { unimplemented!() }

pub open spec fn wf_file(v: Seq<file_info>, k: int, d: Heap_doc_info, h: Heap_id_placeholder) -> bool {
    let x = v[k];
    &&& x.parent <= k
    &&& d.valid(x.document)
    &&& x.depth <= k && x.override_depth <= x.depth
    &&& (x.override_id == 0 || h.valid(x.override_id))
    &&& (x.override_depth > 0 ==> x.override_id != 0)
    &&& (x.parent == 0 ==> x.depth == 0)
}
pub open spec fn wf_section(v: Seq<section_info>, k: int, h: Heap_id_placeholder) -> bool {
    let x = v[k];
    &&& x.parent <= k
    &&& x.level == (if x.parent == 0 { 1int } else { v[x.parent - 1].level + 1 })
    &&& x.level <= k + 1
    &&& (x.placeholder_1_6 == 0 || h.valid(x.placeholder_1_6))
    &&& (x.compatibility_version >= 106 ==> x.placeholder_1_6 != 0)
}
pub open spec fn wf_files(f: Heap_file_info, d: Heap_doc_info, h: Heap_id_placeholder) -> bool {
    f.v@.len() < 0xffff_ffff && forall|k: int| 0 <= k < f.v@.len() ==> #[trigger] wf_file(f.v@, k, d, h)
}
pub open spec fn wf_sections(s: Heap_section_info, h: Heap_id_placeholder) -> bool {
    s.v@.len() < 0x7fff_ffff && forall|k: int| 0 <= k < s.v@.len() ==> #[trigger] wf_section(s.v@, k, h)
}
pub open spec fn wf_docs(d: Heap_doc_info, s: Heap_section_info) -> bool {
    d.v@.len() < 0xffff_ffff && forall|k: int| 0 <= k < d.v@.len() ==> (#[trigger] d.v@[k]).current_section == 0 || s.valid(d.v@[k].current_section)
}
pub open spec fn wf_all(h: Heap_id_placeholder, f: Heap_file_info, d: Heap_doc_info, s: Heap_section_info) -> bool {
    wf_heap(h) && wf_files(f, d, h) && wf_docs(d, s) && wf_sections(s, h)
}
// nothing is absurdly long (no string can be: they live in memory)
pub open spec fn small(h: Heap_id_placeholder, f: Heap_file_info, d: Heap_doc_info, s: Heap_section_info) -> bool {
    &&& h.v@.len() < 0xffff_fff0 && s.v@.len() < 0x7fff_fff0
    &&& forall|k: int| 0 <= k < h.v@.len() ==> (#[trigger] h.v@[k]).num_dots < BIG
    &&& forall|k: int| 0 <= k < f.v@.len() ==> (#[trigger] f.v@[k]).doc_id_1_1@.len() < SMALL
    &&& forall|k: int| 0 <= k < s.v@.len() ==> (#[trigger] s.v@[k]).id_1_1@.len() < SMALL
    &&& forall|k: int| 0 <= k < d.v@.len() ==> (#[trigger] d.v@[k]).section_id_1_1@.len() < SMALL && d.v@[k].last_title_1_1@.len() < SMALL
}

// ---------------------------------------------------------------- the rules
pub open spec fn join(a: Seq<i8>, b: Seq<i8>) -> Seq<i8> {
    if a.len() == 0 { b } else if b.len() == 0 { a } else { a + seq![DOT] + b }
}
// the id that the enclosing section or include stands for
pub open spec fn enclosing(f: file_info, s: Heap_section_info, sec: usize) -> usize {
    if sec == 0 { 0 } else if s.o(sec).file_depth < f.override_depth { f.override_id } else { s.o(sec).placeholder_1_6 }
}
pub open spec fn part(f: file_info, id: Seq<i8>, c: id_category) -> Seq<i8> {
    if f.compatibility_version >= 106 && c.c < cat_explicit() { norm_id(id, 32) } else { id }
}
pub open spec fn id_in(f: file_info, s: Heap_section_info, sec: usize, id: Seq<i8>, c: id_category) -> Seq<i8> {
    if sec == 0 || s.o(sec).compatibility_version >= 106 { part(f, id, c) }
    else { join(join(if enclosing(f, s, sec) == 0 { f.doc_id_1_1@ } else { Seq::<i8>::empty() }, s.o(sec).id_1_1@), part(f, id, c)) }
}
// the old style name of a section: its id qualified by those of the sections around it
pub open spec fn section_1_1(f: file_info, s: Heap_section_info, parent: usize, id: Seq<i8>) -> Seq<i8> {
    if parent == 0 || f.compatibility_version >= 106 { Seq::<i8>::empty() } else { join(s.o(parent).id_1_1@, id) }
}
pub open spec fn section_id(f: file_info, s: Heap_section_info, parent: usize, id: Seq<i8>, c: id_category) -> Seq<i8> {
    let p = enclosing(f, s, parent);
    let q = section_1_1(f, s, parent, id);
    if f.compatibility_version >= 106 { id_in(f, s, parent, id, c) }
    else if f.compatibility_version >= 103 {
        if p != 0 { q } else if q.len() == 0 { f.doc_id_1_1@ } else { f.doc_id_1_1@ + seq![DOT] + q }
    }
    else if parent != 0 && p == 0 { f.doc_id_1_1@ + seq![DOT] + id } else { id }
}
pub open spec fn added(h0: Heap_id_placeholder, h1: Heap_id_placeholder, r: usize, id: Seq<i8>, c: id_category, parent: usize) -> bool {
    &&& r == h1.v@.len() && h1.v@.len() == h0.v@.len() + 1 && h1.v@.drop_last() =~= h0.v@
    &&& h1.o(r).id@ =~= id && h1.o(r).category == c && h1.o(r).parent == parent
}
// a section has been started in document doc
pub open spec fn entered(f: file_info, d0: Heap_doc_info, s0: Heap_section_info, s1: Heap_section_info, id: Seq<i8>, p: usize) -> bool {
    let doc = f.document;
    let n = s1.v@.last();
    &&& s1.v@.len() == s0.v@.len() + 1 && s1.v@.drop_last() =~= s0.v@
    &&& n.parent == d0.o(doc).current_section
    &&& n.level == (if n.parent == 0 { 1int } else { s0.o(n.parent).level + 1 })
    &&& n.compatibility_version == f.compatibility_version && n.file_depth == f.depth
    &&& n.id_1_1@ =~= section_1_1(f, s0, n.parent, id)
    &&& n.placeholder_1_6 == (if f.compatibility_version >= 106 { p } else { enclosing(f, s0, n.parent) })
}
// the new section is the current one of its document; nothing else changed but (for begin_section) the last section's id
pub open spec fn moved_in(f: file_info, d0: Heap_doc_info, d1: Heap_doc_info, s1: Heap_section_info) -> bool {
    let doc = f.document - 1;
    &&& d1.v@.len() == d0.v@.len()
    &&& forall|k: int| 0 <= k < d1.v@.len() && k != doc ==> #[trigger] d1.v@[k] == d0.v@[k]
    &&& d1.v@[doc].current_section == s1.v@.len() && d1.v@[doc].last_title_1_1 == d0.v@[doc].last_title_1_1
}
pub proof fn lemma_part_len(f: file_info, id: Seq<i8>, c: id_category)
    ensures part(f, id, c).len() <= id.len() + 32,
{ lemma_norm_id(id, 32); }
// the id a file goes by: the one of the include, unless an old file names its own
pub open spec fn file_id(f: Heap_file_info, parent: usize, root: bool, version: u32, include_id: Seq<i8>, id: Seq<i8>) -> Seq<i8> {
    if root || version >= 106 || f.o(parent).compatibility_version >= 106 { if include_id.len() > 0 { include_id } else { id } }
    else { if id.len() > 0 { id } else { include_id } }
}
pub open spec fn title_1_1(d: Heap_doc_info, doc: usize, root: bool, title: Value) -> Seq<i8> {
    if value_checks(title) { value_text(title) } else if root { Seq::<i8>::empty() } else { d.o(doc).last_title_1_1@ }
}
pub open spec fn doc_id_1_1(f: Heap_file_info, d: Heap_doc_info, parent: usize, root: bool, version: u32, fid: Seq<i8>, title: Value) -> Seq<i8> {
    if !root && version >= 106 { f.o(parent).doc_id_1_1@ }
    else if fid.len() > 0 { fid }
    else { ident(title_1_1(d, if root { 0 } else { f.o(parent).document }, root, title)) }
}
// the name of a document: its id, else one made from its title, else a placeholder
pub open spec fn root_id(version: u32, fid: Seq<i8>, title: Value) -> Seq<i8> {
    if fid.len() > 0 { fid } else if !value_empty(title) { ident(value_text(title)) } else if version >= 106 { b"doc" } else { Seq::<i8>::empty() }
}
pub open spec fn root_category(version: u32, fid: Seq<i8>, title: Value) -> int {
    if fid.len() > 0 { 7 } else if !value_empty(title) { 5 } else if version >= 106 { 1 } else { 5 }
}
// a document starts: nothing encloses it
pub open spec fn root_started(h0: Heap_id_placeholder, h1: Heap_id_placeholder, d0: Heap_doc_info, d1: Heap_doc_info, s0: Heap_section_info, s1: Heap_section_info,
    n: file_info, r: usize, version: u32, fid: Seq<i8>, title: Value) -> bool
{
    let doc = d1.v@.last();
    let x = h1.v@.last();
    &&& n.document == d1.v@.len() && d1.v@.len() == d0.v@.len() + 1 && d1.v@.drop_last() =~= d0.v@
    &&& n.depth == 0 && n.override_depth == 0 && n.override_id == 0
    &&& doc.current_section == s1.v@.len() && s1.v@.len() == s0.v@.len() + 1 && s1.v@.drop_last() =~= s0.v@
    &&& s1.v@.last().parent == 0 && s1.v@.last().level == 1 && s1.v@.last().compatibility_version == version && s1.v@.last().file_depth == 0
    &&& s1.v@.last().placeholder_1_6 == (if version >= 106 { r } else { 0 })
    &&& r == h1.v@.len() && h1.v@.len() == h0.v@.len() + 1 && h1.v@.drop_last() =~= h0.v@
    &&& x.parent == 0 && x.category.c == root_category(version, fid, title)
    &&& x.id@ =~= ({ let w = root_id(version, fid, title);
        if version >= 106 { if root_category(version, fid, title) < cat_explicit() { norm_id(w, 32) } else { w } }
        else if version >= 103 { n.doc_id_1_1@ }
        else { w } })
}
// an include starts: the document stays, and an id given to it takes the place of everything around it
pub open spec fn include_started(h0: Heap_id_placeholder, h1: Heap_id_placeholder, d0: Heap_doc_info, d1: Heap_doc_info, s0: Heap_section_info, s1: Heap_section_info,
    p: file_info, n: file_info, version: u32, fid: Seq<i8>, title: Value) -> bool
{
    let own = fid.len() > 0 && version >= 106;
    &&& n.document == p.document && n.depth == p.depth + 1 && s1.v@ == s0.v@
    &&& n.override_depth == (if own { n.depth } else { p.override_depth })
    &&& own ==> added(h0, h1, n.override_id, fid, id_category { c: 7 }, 0)
    &&& !own ==> n.override_id == p.override_id && h1.v@ == h0.v@
    &&& d1.v@.len() == d0.v@.len()
    &&& forall|k: int| 0 <= k < d1.v@.len() ==> (#[trigger] d1.v@[k]).current_section == d0.v@[k].current_section && d1.v@[k].section_id_1_1 == d0.v@[k].section_id_1_1
            && (k != p.document - 1 || !value_checks(title) || version >= 106 ==> d1.v@[k] == d0.v@[k])
    &&& version < 106 && value_checks(title) ==> d1.o(p.document).last_title_1_1@ == value_text(title)
}
// what holds of the old objects holds of them in every later state
pub proof fn lemma_grow(h: Heap_id_placeholder, f: Heap_file_info, d: Heap_doc_info, s: Heap_section_info)
    requires wf_files(f, d, h), wf_sections(s, h),
    ensures
        forall|v: Seq<file_info>, k: int, d1: Heap_doc_info, h1: Heap_id_placeholder| 0 <= k < f.v@.len() <= v.len() && (forall|j: int| 0 <= j < f.v@.len() ==> v[j] == f.v@[j])
            && d1.v@.len() >= d.v@.len() && h1.v@.len() >= h.v@.len() ==> #[trigger] wf_file(v, k, d1, h1),
        forall|v: Seq<section_info>, k: int, h1: Heap_id_placeholder| 0 <= k < s.v@.len() <= v.len() && (forall|j: int| 0 <= j < s.v@.len() ==> v[j] == s.v@[j])
            && h1.v@.len() >= h.v@.len() ==> #[trigger] wf_section(v, k, h1),
{
    assert forall|v: Seq<file_info>, k: int, d1: Heap_doc_info, h1: Heap_id_placeholder| 0 <= k < f.v@.len() <= v.len() && (forall|j: int| 0 <= j < f.v@.len() ==> v[j] == f.v@[j])
            && d1.v@.len() >= d.v@.len() && h1.v@.len() >= h.v@.len() implies #[trigger] wf_file(v, k, d1, h1) by { assert(wf_file(f.v@, k, d, h)); assert(v[k] == f.v@[k]); }
    assert forall|v: Seq<section_info>, k: int, h1: Heap_id_placeholder| 0 <= k < s.v@.len() <= v.len() && (forall|j: int| 0 <= j < s.v@.len() ==> v[j] == s.v@[j])
            && h1.v@.len() >= h.v@.len() implies #[trigger] wf_section(v, k, h1) by { assert(wf_section(s.v@, k, h)); assert(v[k] == s.v@[k]); if v[k].parent != 0 { assert(v[v[k].parent - 1] == s.v@[v[k].parent - 1]); } }
}

// ---------------------------------------------------------------- what this means for a reader of the document
// the id of a place is the path of ids from the outermost enclosing section or include down to it
pub open spec fn path(h: Heap_id_placeholder, p: usize) -> Seq<i8>
    decreases p
{
    if p == 0 || !h.valid(p) { Seq::<i8>::empty() }
    else if h.o(p).parent == 0 || h.o(p).parent >= p { h.o(p).id@ }
    else { path(h, h.o(p).parent) + seq![DOT] + h.o(p).id@ }
}
pub proof fn lemma_path(h: Heap_id_placeholder, p: usize)
    requires wf_heap(h), h.valid(p),
    ensures h.o(p).unresolved_id@ == path(h, p),
    decreases p
{
    assert(wf_ph(h.v@, p - 1));
    if h.o(p).parent != 0 { lemma_path(h, h.o(p).parent); }
}
// an id added in a 1.6 document is the path of its section followed by its own, normalised, part
pub proof fn lemma_id_path(f: file_info, s: Heap_section_info, sec: usize, h0: Heap_id_placeholder, h1: Heap_id_placeholder, r: usize, id: Seq<i8>, c: id_category)
    requires wf_heap(h0), wf_heap(h1), wf_sections(s, h0), s.valid(sec), s.o(sec).compatibility_version >= 106, s.o(sec).file_depth >= f.override_depth,
        added(h0, h1, r, id_in(f, s, sec, id, c), c, enclosing(f, s, sec)),
    ensures h1.o(r).unresolved_id@ == path(h1, s.o(sec).placeholder_1_6) + seq![DOT] + part(f, id, c),
{
    assert(wf_section(s.v@, sec - 1, h0));
    assert(wf_ph(h1.v@, r - 1));
    lemma_path(h1, s.o(sec).placeholder_1_6);
}
// leaving a section puts back the section that was current when it was entered
pub proof fn lemma_balanced(f: file_info, d0: Heap_doc_info, d1: Heap_doc_info, d2: Heap_doc_info, s0: Heap_section_info, s1: Heap_section_info, id: Seq<i8>, p: usize)
    requires d0.valid(f.document), entered(f, d0, s0, s1, id, p), moved_in(f, d0, d1, s1), s1.v@.len() < 0x8000_0000,
        d2.v@ == d1.v@.update(f.document - 1, doc_info { current_section: s1.o(d1.o(f.document).current_section).parent, ..d1.o(f.document) }),
    ensures forall|k: int| 0 <= k < d0.v@.len() ==> (#[trigger] d2.v@[k]).current_section == d0.v@[k].current_section,
{ assert forall|k: int| 0 <= k < d0.v@.len() implies (#[trigger] d2.v@[k]).current_section == d0.v@[k].current_section by { if k != f.document - 1 { assert(d1.v@[k] == d0.v@[k]); } } }
