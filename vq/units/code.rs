// ---- code
pub fn col_take(c: &mut Collector) -> (r: Vec<i8>) requires old(c)@.len() > 0 ensures r@ == old(c)@.last(), final(c)@ == with_top(old(c)@, Seq::<i8>::empty()) { let e: Vec<i8> = Vec::new(); proof { assert(e@ =~= Seq::<i8>::empty()); } col_swap(c, e) }
pub fn col_put(c: &mut Collector, s: Vec<i8>) requires old(c)@.len() > 0 ensures final(c)@ == with_top(old(c)@, s@) { let _x = col_swap(c, s); }
pub open spec fn chars(a: It, b: It) -> Seq<i8> { a.s@.subrange(a.i as int, b.i as int) }
pub open spec fn all_esc(s: Seq<i8>) -> Seq<i8> { esc(s, s.len() as int) }
pub open spec fn part_of(a: It, b: It) -> bool { a.s@ == b.s@ && a.i <= b.i && b.i <= b.s@.len() }
pub open spec fn added_phrase(a: state, b: state, t: Seq<i8>) -> bool { b == with_phrase(a, b.phrase) && b.phrase@ == with_more(a.phrase@, t) }
pub open spec fn open_phrase(name: Seq<i8>) -> Seq<i8> { b"<phrase role=\"" + name + b"\">" }
pub open spec fn span_text(name: Seq<i8>, s: Seq<i8>) -> Seq<i8> { open_phrase(name) + all_esc(s) + b"</phrase>" }
pub proof fn lemma_more(x: Seq<i8>, p: Seq<i8>, s: Seq<i8>, n: int)
    ensures
        x + (p + esc(s, 0)) =~= x + p, x + (p + Seq::<i8>::empty()) =~= x + p, esc(s, 0) =~= Seq::<i8>::empty(), p + Seq::<i8>::empty() =~= p,
        0 <= n < s.len() ==> x + (p + esc(s, n + 1)) =~= x + (p + esc(s, n)) + esc1(s[n]),
        x + (p + esc(s, n) + b"</phrase>") =~= x + (p + esc(s, n)) + b"</phrase>",
        Seq::<i8>::empty() + esc(s, n) =~= esc(s, n),
        x + (esc(s, n) + b"</phrase>") =~= x + esc(s, n) + b"</phrase>",
{}
pub proof fn lemma_open(x: Seq<i8>, name: Seq<i8>)
    ensures x + b"<phrase role=\"" + name + b"\">" =~= x + open_phrase(name), x + b"<phrase role=\"error\">" =~= x + open_phrase(b"error"),
{ assert(b"<phrase role=\"" + b"error" + b"\">" =~= b"<phrase role=\"error\">"); assert(x + b"<phrase role=\"" + name + b"\">" =~= x + (b"<phrase role=\"" + name + b"\">")); }

pub open spec fn state_with_texts(a: state, o: Collector, p: Collector, l: Vec<bool>, b: bool) -> state { state { out: o, phrase: p, in_list_save: l, in_list: b, ..a } }
pub uninterp spec fn s_snippets(f: FileRef) -> bool;
#[verifier::external_body]
pub fn file_snippets(f: FileRef) -> (r: bool) ensures r == s_snippets(f) { unimplemented!() }
// the grammars of the languages of code
pub struct CodeGrammar { pub rule: i32, pub block: bool }
pub open spec fn is_mode(m: u32) -> bool { m == TAG::source_mode_tags::cpp || m == TAG::source_mode_tags::python || m == TAG::source_mode_tags::teletype }
pub open spec fn language(m: u32) -> int { if m == TAG::source_mode_tags::cpp { 1 } else if m == TAG::source_mode_tags::python { 2 } else { 3 } }
pub open spec fn callouts_in(s: state, block: bool) -> bool { block && (s.qbk_version_n >= 107 || s_snippets(s.current_file)) }
// what a text depends on, but for the texts that are being written
pub open spec fn code_cx(s: state) -> Cx { Cx { out: Seq::empty(), phrase: Seq::empty(), values: 0, ..cx(s, Seq::empty(), Seq::empty()) } }
pub uninterp spec fn s_coded(lang: int, callouts: bool, text: Seq<i8>, c: Cx, log: Seq<Snap>) -> Seq<i8>;
// code has been written to the phrase
pub open spec fn highlighted(a: state, b: state, lang: int, callouts: bool, t: Seq<i8>) -> bool {
    &&& b.phrase@ == with_more(a.phrase@, s_coded(lang, callouts, t, code_cx(a), a.document.log@))
    &&& b.out@ == a.out@ && b.current_file == a.current_file && b.qbk_version_n == a.qbk_version_n && b.in_list == a.in_list && b.in_list_save@ == a.in_list_save@
    &&& a.anchors@.len() == 0 ==> b.anchors@.len() == 0
    &&& a.source_mode_next == 0 ==> b.source_mode_next == 0
}
#[verifier::external_body]
pub fn run_code(s: &mut state, t: &[i8], g: &CodeGrammar) requires old(s).phrase@.len() > 0 ensures highlighted(*old(s), *final(s), g.rule as int, g.block, t@) { unimplemented!() }
pub fn col_str(c: &Collector) -> (r: Vec<i8>) requires c@.len() > 0 ensures r@ == c@.last() { str_clone(&c.v[c.v.len() - 1]) }
// the text of a block of code, without its indentation, as a file of its own
pub struct MappedText { pub file: FileRef, pub text: Ghost<Seq<i8>> }
pub uninterp spec fn s_unindented(f: FileRef, t: Seq<i8>) -> FileRef;
pub uninterp spec fn s_source(f: FileRef) -> Seq<i8>;
pub fn mapped_new() -> (r: MappedText) ensures r.text@.len() == 0 { MappedText { file: FileRef { id: 0 }, text: Ghost(Seq::empty()) } }
pub fn MappedText_uninit() -> (r: MappedText) { mapped_new() }
pub fn mapped_start(m: &mut MappedText, f: FileRef) ensures final(m).file == f, final(m).text@.len() == 0 { m.file = f; m.text = Ghost(Seq::empty()); }
pub fn mapped_unindent(m: &mut MappedText, t: &[i8]) requires old(m).text@.len() == 0 ensures final(m).file == old(m).file, final(m).text@ == t@ { m.text = Ghost(t@); }
#[verifier::external_body]
pub fn mapped_release(m: &mut MappedText) -> (r: FileRef) ensures r == s_unindented(old(m).file, old(m).text@) { unimplemented!() }
#[verifier::external_body]
pub fn file_source<'a>(f: FileRef) -> (r: &'a [i8]) ensures r@ == s_source(f) { unimplemented!() }
pub uninterp spec fn s_qv_first(v: QvS) -> QvS;
#[verifier::external_body]
pub fn qv_first(v: &Qv) -> (r: Qv) ensures r@ == s_qv_first(v@) { unimplemented!() }
#[verifier::external_body]
pub fn qv_text<'a>(v: &Qv) -> (r: &'a [i8]) ensures r@ == v@.text { unimplemented!() }
pub open spec fn other_things(a: state, b: state) -> bool {
    b.out@ == a.out@ && b.phrase@ == a.phrase@ && b.current_file == a.current_file && b.qbk_version_n == a.qbk_version_n && b.in_list == a.in_list && b.in_list_save@ == a.in_list_save@
    && b.anchors == a.anchors && b.source_mode_next == a.source_mode_next
}
pub fn start_callouts(s: &mut state) ensures *final(s) == *old(s) { }
pub uninterp spec fn s_callout_list(log: Seq<Snap>) -> Seq<i8>;
#[verifier::external_body]
pub fn end_callouts(s: &mut state) -> (r: Vec<i8>) ensures other_things(*old(s), *final(s)), r@ == s_callout_list(final(s).document.log@) { unimplemented!() }
// the code of an element
pub open spec fn code_mode(s: state) -> u32 { if s.source_mode_next != 0 { s.source_mode_next } else { mode_of(s).source_mode } }
pub open spec fn in_phrase(v: QvS, version: int) -> bool { v.tag == TAG::code_tags::inline_code || (v.tag == TAG::code_tags::inline_code_block && version < 106) }
pub open spec fn code_text(v: QvS) -> Seq<i8> { s_qv_first(v).text }
pub open spec fn code_file(s: state, v: QvS) -> FileRef { s_unindented(s.current_file, code_text(v)) }
pub open spec fn no_code(s: state, v: QvS) -> bool { v.tag != TAG::code_tags::inline_code && s_source(code_file(s, v)).len() == 0 }
pub open spec fn in_file(s: state, f: FileRef) -> Cx { Cx { file: f, ..code_cx(s) } }
// what was written before the code, outside of it
pub open spec fn before_code(s: state) -> Seq<i8> { if all_blank(s.phrase@.last()) { anchors_text(s.anchors@) } else { para_with(s.phrase@.last(), s.in_list, anchors_text(s.anchors@)) } }
pub open spec fn code_element(s: state, v: QvS, e: state) -> Seq<i8> {
    let callouts = callouts_in(state { current_file: code_file(s, v), ..s }, true);
    if v.tag == TAG::code_tags::inline_code { b"<code>" + s_coded(language(code_mode(s)), false, code_text(v), code_cx(s), s.document.log@) + b"</code>" }
    else if no_code(s, v) { Seq::empty() }
    else { b"<programlisting>" + s_coded(language(code_mode(s)), callouts, s_source(code_file(s, v)), in_file(s, code_file(s, v)), s.document.log@) + b"</programlisting>\n"
            + (if s.qbk_version_n >= 107 { s_callout_list(e.document.log@) } else { Seq::empty() }) }
}
pub open spec fn code_out(s: state, v: QvS, e: state) -> Seq<Seq<i8>> { if in_phrase(v, s.qbk_version_n as int) { s.out@ } else { with_more(s.out@, before_code(s) + code_element(s, v, e)) } }
pub open spec fn code_phrase(s: state, v: QvS, e: state) -> Seq<Seq<i8>> {
    if in_phrase(v, s.qbk_version_n as int) { with_more(s.phrase@, anchors_text(s.anchors@) + code_element(s, v, e)) } else { with_top(s.phrase@, Seq::<i8>::empty()) }
}
pub proof fn assoc() ensures forall|a: Seq<i8>, b: Seq<i8>, c: Seq<i8>| #[trigger] (a + (b + c)) =~= (a + b) + c {}
pub proof fn whole() ensures forall|s: Seq<i8>| #[trigger] s.subrange(0, s.len() as int) =~= s {}
