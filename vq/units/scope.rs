// ---- dependencies
#[derive(Copy, Clone)]
pub struct Tgt { pub phrase: bool }
#[derive(Copy, Clone)]
pub struct Markup { pub tag: i32 }     // 1: paragraph, 2: paragraph_in_list
pub uninterp spec fn s_pre(tag: int) -> Seq<i8>;
pub uninterp spec fn s_post(tag: int) -> Seq<i8>;
#[verifier::external_body]
pub fn markup_pre(m: Markup) -> (r: Vec<i8>) ensures r@ == s_pre(m.tag as int) { unimplemented!() }
#[verifier::external_body]
pub fn markup_post(m: Markup) -> (r: Vec<i8>) ensures r@ == s_post(m.tag as int) { unimplemented!() }
#[derive(Copy, Clone)]
pub struct ParseInfo { pub full: bool }
#[derive(Copy, Clone)]
pub struct Grammar { pub x: u32 }
pub const RULE_attribute_template_body: i32 = 1;
pub const RULE_inline_phrase: i32 = 2;
pub const RULE_block_start: i32 = 3;
pub fn col_push(c: &mut Collector) ensures final(c)@ == old(c)@.push(Seq::<i8>::empty()) {
    let e: Vec<i8> = Vec::new();
    c.v.push(e);
    proof { assert(c@ =~= old(c)@.push(e@)); assert(e@ =~= Seq::<i8>::empty()); }
}
pub fn col_pop(c: &mut Collector) requires old(c)@.len() > 1 ensures final(c)@ == old(c)@.drop_last() {
    c.v.pop();
    proof { assert(c@ =~= old(c)@.drop_last()); }
}
pub open spec fn with_top(a: Seq<Seq<i8>>, t: Seq<i8>) -> Seq<Seq<i8>> { a.drop_last().push(t) }
pub fn col_swap(c: &mut Collector, s: Vec<i8>) -> (r: Vec<i8>) requires old(c)@.len() > 0 ensures r@ == old(c)@.last(), final(c)@ == with_top(old(c)@, s@) {
    let r = c.v.pop().unwrap();
    c.v.push(s);
    proof { assert(c@ =~= with_top(old(c)@, s@)); }
    r
}
pub fn col_add(c: &mut Collector, s: &[i8]) requires old(c)@.len() > 0 ensures final(c)@ == with_top(old(c)@, old(c)@.last() + s@) {
    let mut t = c.v.pop().unwrap();
    str_append(&mut t, s);
    c.v.push(t);
    proof { assert(c@ =~= with_top(old(c)@, old(c)@.last() + s@)); }
}
pub fn tgt_add(st: &mut state, t: Tgt, s: &[i8])
    requires old(st).out@.len() > 0, old(st).phrase@.len() > 0,
    ensures *final(st) == added_to(*old(st), t.phrase, final(st).out, final(st).phrase), final(st).out@ == (if t.phrase { old(st).out@ } else { with_top(old(st).out@, old(st).out@.last() + s@) }),
        final(st).phrase@ == (if t.phrase { with_top(old(st).phrase@, old(st).phrase@.last() + s@) } else { old(st).phrase@ }),
{ if t.phrase { col_add(&mut st.phrase, s); } else { col_add(&mut st.out, s); } }
pub open spec fn added_to(a: state, p: bool, out: Collector, phrase: Collector) -> state { if p { state { phrase: phrase, ..a } } else { state { out: out, ..a } } }
pub fn col_new() -> (r: Collector) { Collector { v: Vec::new() } }
pub fn stack_top(v: &Vec<bool>) -> (r: bool) requires v@.len() > 0 ensures r == v@.last() { v[v.len() - 1] }
#[verifier::external_body]
pub fn vals_save(v: &mut Vals) ensures final(v).depth@ == old(v).depth@ + 1 { unimplemented!() }
#[verifier::external_body]
pub fn vals_restore(v: &mut Vals) requires old(v).depth@ > 0 ensures final(v).depth@ == old(v).depth@ - 1 { unimplemented!() }
#[verifier::external_body]
pub fn macro_set(m: &mut Macros, k: &[i8], t: Vec<i8>) requires old(m)@.contains_key(k@) ensures final(m)@ == old(m)@.insert(k@, t@) { unimplemented!() }
pub uninterp spec fn s_path_text(p: PathArg) -> Seq<i8>;
#[verifier::external_body]
pub fn path_text(p: PathArg) -> (r: Vec<i8>) ensures r@ == s_path_text(p) { unimplemented!() }
pub uninterp spec fn s_encoded(t: Seq<i8>) -> Seq<i8>;
#[verifier::external_body]
pub fn encoded(t: &[i8]) -> (r: Vec<i8>) ensures r@ == s_encoded(t@) { unimplemented!() }
pub uninterp spec fn s_file_at(p: PathArg) -> FileRef;
#[verifier::external_body]
pub fn load_file(p: PathArg) -> (r: Result<FileRef, Exn>) ensures r.is_ok() ==> r->Ok_0 == s_file_at(p) { unimplemented!() }
pub fn doc_section_level(d: &Doc) -> (r: i32) ensures r == d.level { d.level }
pub uninterp spec fn s_section_mode(d: u64, f: FileRef) -> source_mode_info;
#[verifier::external_body]
pub fn doc_section_source_mode(s: &state) -> (r: source_mode_info) ensures r == s_section_mode(s.document.id, s.current_file) { unimplemented!() }
pub uninterp spec fn s_is_encoded(v: Qv) -> bool;
#[verifier::external_body]
pub fn qv_is_encoded(v: &Qv) -> (r: bool) ensures r == s_is_encoded(*v) { unimplemented!() }
#[verifier::external_body]
pub fn qv_get_encoded(v: &Qv) -> (r: Vec<i8>) { unimplemented!() }
#[verifier::external_body]
pub fn run_grammar(s: &mut state, t: &[i8], rule: i32, hs: Heap_template_scope, ss: Heap_template_symbol) -> (r: (bool, Heap_template_scope, Heap_template_symbol))
    requires state_wf(*old(s), hs.v@, ss.v@), old(s).template_depth <= 100,
    ensures
        balanced(*old(s), hs.v@, ss.v@, *final(s), r.1.v@, r.2.v@), state_wf(*final(s), r.1.v@, r.2.v@),
        logged(old(s).document.log@, final(s).document.log@, Snap { rule: rule as int, text: t@, cx: cx(*old(s), hs.v@, ss.v@) }),
{ unimplemented!() }

// ---- the specification
// only the text on top of a stack has changed
pub open spec fn below(a: Seq<Seq<i8>>, b: Seq<Seq<i8>>) -> bool { a.len() > 0 && b.len() == a.len() && b.drop_last() == a.drop_last() }
pub open spec fn file_macro() -> Seq<i8> { b"__FILENAME__" }
pub open spec fn file_text(p: quickbook_path) -> Seq<i8> { s_encoded(s_path_text(p.abstract_file_path)) }
pub open spec fn state_wf(s: state, hs: Seq<template_scope>, ss: Seq<template_symbol>) -> bool {
    &&& stack_wf(s.templates, hs, ss)
    &&& s.out@.len() > 0 && s.phrase@.len() > 0
    &&& s.macro_@.contains_key(file_macro())
    &&& 0 <= s.template_depth <= 100 && s.values.depth@ >= 0 && s.error_count < 1000000      // fewer than a million errors
}
pub open spec fn logged(a: Seq<Snap>, b: Seq<Snap>, e: Snap) -> bool { b.len() > a.len() && b[a.len() as int] == e && b.subrange(0, a.len() as int) == a }
// what a nested text leaves behind: definitions in the innermost scopes, text at the end of the output, and nothing else
pub open spec fn balanced(a: state, hs: Seq<template_scope>, ss: Seq<template_symbol>, b: state, hs2: Seq<template_scope>, ss2: Seq<template_symbol>) -> bool {
    let x = cx(a, hs, ss);
    let y = cx(b, hs2, ss2);
    &&& y == (Cx { mode: y.mode, macros: y.macros, hs: hs2, ss: ss2, out: y.out, phrase: y.phrase, in_list: y.in_list, .. x })
    &&& below(x.out, y.out) && below(x.phrase, y.phrase)
    &&& grown(hs, hs2) && extends(ss, ss2)
}

pub open spec fn body_entry(v: QvS, attribute: bool, c: Cx) -> Snap {
    Snap { rule: if attribute { 1 } else if v.tag == TAG::template_tags::phrase { 2 } else { 3 }, text: v.text, cx: Cx { file: v.file, .. c } }
}
// ---- saving and restoring
pub open spec fn flag(f: i32, b: i32) -> bool { f & b != 0 }
pub open spec fn saves(v: state_save, s: state, f: i32) -> bool {
    &&& v.scope == f && v.qbk_version == s.qbk_version_n && v.imported == s.imported && v.current_file == s.current_file && v.current_path == s.current_path
    &&& v.xinclude_base == s.xinclude_base && v.source_mode == s.source_mode && v.template_depth == s.template_depth && v.min_section_level == s.min_section_level
    &&& flag(f, 1) ==> v.macro_@ == s.macro_@
}
pub open spec fn opened(a: state, hs: Seq<template_scope>, f: i32, b: state, hs2: Seq<template_scope>) -> bool {
    &&& b == (state { templates: b.templates, out: b.out, phrase: b.phrase, in_list_save: b.in_list_save, values: b.values, .. a })
    &&& b.values.depth@ == a.values.depth@ + 1
    &&& if flag(f, 2) { pushed(a.templates, hs, b.templates, hs2) } else { b.templates == a.templates && hs2 == hs }
    &&& if flag(f, 4) { b.out@ == a.out@.push(Seq::<i8>::empty()) && b.phrase@ == a.phrase@.push(Seq::<i8>::empty()) && b.in_list_save@ == a.in_list_save@.push(a.in_list) }
        else { b.out == a.out && b.phrase == a.phrase && b.in_list_save == a.in_list_save }
}
pub open spec fn closable(v: state_save, s: state, hs: Seq<template_scope>) -> bool {
    &&& s.values.depth@ > 0
    &&& flag(v.scope, 2) ==> hs.len() > 1
    &&& flag(v.scope, 4) ==> s.out@.len() > 1 && s.phrase@.len() > 1 && s.in_list_save@.len() > 0
}
pub open spec fn closed(v: state_save, a: state, hs: Seq<template_scope>, b: state, hs2: Seq<template_scope>) -> bool {
    let f = v.scope;
    &&& b.qbk_version_n == v.qbk_version && b.imported == v.imported && b.current_file == v.current_file && b.current_path == v.current_path
    &&& b.xinclude_base == v.xinclude_base && b.source_mode == v.source_mode && b.template_depth == v.template_depth && b.min_section_level == v.min_section_level
    &&& b.macro_@ == (if flag(f, 1) { v.macro_@ } else { a.macro_@ })
    &&& if flag(f, 2) { popped(a.templates, hs, b.templates, hs2) } else { b.templates == a.templates && hs2 == hs }
    &&& if flag(f, 4) { b.out@ == a.out@.drop_last() && b.phrase@ == a.phrase@.drop_last() && b.in_list_save@ == a.in_list_save@.drop_last() && b.in_list == a.in_list_save@.last() }
        else { b.out == a.out && b.phrase == a.phrase && b.in_list_save == a.in_list_save && b.in_list == a.in_list }
    &&& b.values.depth@ == a.values.depth@ - 1
    &&& b.order_pos == a.order_pos && b.error_count == a.error_count && b.document == a.document && b.tagged_source_mode_stack == a.tagged_source_mode_stack
}
// ---- the language of code: the one set last
pub open spec fn newer(a: source_mode_info, b: source_mode_info) -> source_mode_info { if b.order > a.order { b } else { a } }
pub open spec fn latest(a: source_mode_info, s: Seq<source_mode_info>) -> source_mode_info
    decreases s.len()
{
    if s.len() == 0 { a } else { newer(latest(a, s.drop_last()), s.last()) }
}
pub open spec fn mode_of(s: state) -> source_mode_info { latest(newer(s.source_mode, s_section_mode(s.document.id, s.current_file)), s.tagged_source_mode_stack@) }
pub open spec fn no_mode() -> source_mode_info { source_mode_info { source_mode: 1360, order: 0 } }      // [c++], the default

pub proof fn latest_step(a: source_mode_info, s: Seq<source_mode_info>, i: int)
    ensures
        0 <= i < s.len() ==> latest(a, s.subrange(0, i + 1)) == newer(latest(a, s.subrange(0, i)), s[i]),
        s.subrange(0, s.len() as int) =~= s,
        latest(a, s.subrange(0, 0)) == a,
{
    if 0 <= i < s.len() { assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
}
// the one chosen was set last, and it is one of them
pub proof fn lemma_latest(a: source_mode_info, s: Seq<source_mode_info>)
    ensures
        latest(a, s).order >= a.order, forall|k: int| 0 <= k < s.len() ==> latest(a, s).order >= (#[trigger] s[k]).order,
        latest(a, s) == a || exists|k: int| 0 <= k < s.len() && latest(a, s) == #[trigger] s[k],
    decreases s.len()
{
    if s.len() > 0 {
        lemma_latest(a, s.drop_last());
        assert forall|k: int| 0 <= k < s.len() implies latest(a, s).order >= (#[trigger] s[k]).order by { if k < s.len() - 1 { assert(s.drop_last()[k] == s[k]); } }
        if latest(a, s) == s.last() { assert(s[s.len() - 1] == latest(a, s)); }
        else if latest(a, s.drop_last()) != a {
            let k = choose|k: int| 0 <= k < s.len() - 1 && latest(a, s.drop_last()) == #[trigger] s.drop_last()[k];
            assert(s[k] == latest(a, s));
        }
    }
}
// everything set so far was set before now
pub open spec fn orders_ok(s: state) -> bool {
    &&& s.source_mode.order <= s.order_pos && s_section_mode(s.document.id, s.current_file).order <= s.order_pos
    &&& forall|k: int| 0 <= k < s.tagged_source_mode_stack@.len() ==> (#[trigger] s.tagged_source_mode_stack@[k]).order <= s.order_pos
}
// a language that is set is the language from there on
pub proof fn lemma_mode_set(a: state, b: state, m: u32)
    requires
        orders_ok(a), a.order_pos < u32::MAX,
        b == (state { order_pos: b.order_pos, source_mode: b.source_mode, ..a }), b.order_pos == a.order_pos + 1, b.source_mode == (source_mode_info { source_mode: m, order: b.order_pos }),
    ensures mode_of(b).source_mode == m, orders_ok(b),
{
    let x = newer(b.source_mode, s_section_mode(b.document.id, b.current_file));
    lemma_latest(x, b.tagged_source_mode_stack@);
    if mode_of(b) != x {
        let k = choose|k: int| 0 <= k < b.tagged_source_mode_stack@.len() && mode_of(b) == #[trigger] b.tagged_source_mode_stack@[k];
        assert(b.tagged_source_mode_stack@[k].order <= a.order_pos);
    }
}
// the language of one piece of text is its language, and after it the language is what it was
pub proof fn lemma_mode_tagged(a: state, b: state, c: state, m: u32)
    requires
        orders_ok(a), a.order_pos < u32::MAX, m != 0,
        b == (state { order_pos: b.order_pos, tagged_source_mode_stack: b.tagged_source_mode_stack, ..a }), b.order_pos == a.order_pos + 1,
        b.tagged_source_mode_stack@ == a.tagged_source_mode_stack@.push(source_mode_info { source_mode: m, order: b.order_pos }),
        c.source_mode == b.source_mode, c.document.id == b.document.id, c.current_file == b.current_file,
        c.tagged_source_mode_stack@ == b.tagged_source_mode_stack@.drop_last(),
    ensures mode_of(b).source_mode == m, orders_ok(b), mode_of(c) == mode_of(a),
{
    let x = newer(b.source_mode, s_section_mode(b.document.id, b.current_file));
    let s = b.tagged_source_mode_stack@;
    assert(s.drop_last() =~= a.tagged_source_mode_stack@);
    lemma_latest(x, s.drop_last());
    assert(latest(x, s.drop_last()).order <= a.order_pos) by {
        if latest(x, s.drop_last()) != x {
            let k = choose|k: int| 0 <= k < s.drop_last().len() && latest(x, s.drop_last()) == #[trigger] s.drop_last()[k];
            assert(a.tagged_source_mode_stack@[k].order <= a.order_pos);
        }
    }
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).order <= b.order_pos by { if k < s.len() - 1 { assert(a.tagged_source_mode_stack@[k].order <= a.order_pos); } }
}
// ---- calls
pub proof fn arguments_grow(ok: bool, k: int, params: Seq<Vec<i8>>, args: Seq<Qv>, scope: usize, hs: Seq<template_scope>, ss: Seq<template_symbol>, hs2: Seq<template_scope>, ss2: Seq<template_symbol>)
    requires arguments_added(ok, k, params, args, scope, hs, ss, hs2, ss2), hs.len() > 0,
    ensures grown(hs, hs2), ss.len() <= ss2.len(), forall|i: int| 0 <= i < ss.len() ==> #[trigger] ss2[i] == ss[i],
    decreases args.len() - k
{
    if k < args.len() && !hs.last().symbols@.contains_key(czstr(params[k]@)) {
        let (h1, s1) = choose|h1: Seq<template_scope>, s1: Seq<template_symbol>| #[trigger] added(true, czstr(params[k]@), argument(params[k]@, args[k]@, scope), hs, ss, h1, s1)
            && arguments_added(ok, k + 1, params, args, scope, h1, s1, hs2, ss2);
        arguments_grow(ok, k + 1, params, args, scope, h1, s1, hs2, ss2);
        assert forall|i: int| 0 <= i < ss.len() implies #[trigger] ss2[i] == ss[i] by { assert(s1.drop_last()[i] == ss[i]); assert(s1[i] == ss[i]); }
        assert(hs2.drop_last() =~= hs.drop_last());
        assert forall|n: Seq<i8>| hs.last().symbols@.contains_key(n) implies #[trigger] hs2.last().symbols@.contains_key(n) && hs2.last().symbols@[n] == hs.last().symbols@[n] by {
            assert(h1.last().symbols@.contains_key(n));
            assert(czstr(params[k]@) != n && h1.last().symbols@[n] == hs.last().symbols@[n]);
            assert(grown(h1, hs2) && hs2.last().symbols@.contains_key(n) && hs2.last().symbols@[n] == h1.last().symbols@[n]);
        }
    }
}
pub proof fn arguments_same(ok: bool, k: int, p: Seq<Vec<i8>>, q: Seq<Vec<i8>>, args: Seq<Qv>, scope: usize, hs: Seq<template_scope>, ss: Seq<template_symbol>, hs2: Seq<template_scope>, ss2: Seq<template_symbol>)
    requires arguments_added(ok, k, p, args, scope, hs, ss, hs2, ss2), strs(p) == strs(q), 0 <= k, args.len() <= p.len(),
    ensures arguments_added(ok, k, q, args, scope, hs, ss, hs2, ss2),
    decreases args.len() - k
{
    assert(strs(p).len() == p.len() && strs(q).len() == q.len());
    if k < args.len() {
        assert(strs(p)[k] == p[k]@ && strs(q)[k] == q[k]@);
        if !hs.last().symbols@.contains_key(czstr(p[k]@)) {
            let (h1, s1) = choose|h1: Seq<template_scope>, s1: Seq<template_symbol>| #[trigger] added(true, czstr(p[k]@), argument(p[k]@, args[k]@, scope), hs, ss, h1, s1)
                && arguments_added(ok, k + 1, p, args, scope, h1, s1, hs2, ss2);
            arguments_same(ok, k + 1, p, q, args, scope, h1, s1, hs2, ss2);
            assert(added(true, czstr(q[k]@), argument(q[k]@, args[k]@, scope), hs, ss, h1, s1));
        }
    }
}
pub proof fn call_facts(q: Seq<Vec<i8>>, args: Seq<Qv>)
    ensures
        forall|ok: bool, p: Seq<Vec<i8>>, scope: usize, hs: Seq<template_scope>, ss: Seq<template_symbol>, hs2: Seq<template_scope>, ss2: Seq<template_symbol>|
            #[trigger] arguments_added(ok, 0, p, args, scope, hs, ss, hs2, ss2) && hs.len() > 0
            ==> grown(hs, hs2) && ss.len() <= ss2.len() && (forall|i: int| 0 <= i < ss.len() ==> #[trigger] ss2[i] == ss[i]),
        forall|ok: bool, p: Seq<Vec<i8>>, scope: usize, hs: Seq<template_scope>, ss: Seq<template_symbol>, hs2: Seq<template_scope>, ss2: Seq<template_symbol>|
            #[trigger] arguments_added(ok, 0, p, args, scope, hs, ss, hs2, ss2) && strs(p) == strs(q) && args.len() <= p.len() ==> arguments_added(ok, 0, q, args, scope, hs, ss, hs2, ss2),
        forall|p: Seq<Vec<i8>>| #[trigger] strs(p) == strs(q) ==> p.len() == q.len(),
        forall|a: Seq<Seq<i8>>, t: Seq<i8>| #[trigger] with_top(a, t).drop_last() =~= a.drop_last(),
        forall|a: Seq<Seq<i8>>, t: Seq<i8>| a.len() > 0 ==> (#[trigger] with_top(a, t)).len() == a.len() && with_top(a, t).last() == t,
        forall|a: Seq<Seq<i8>>, t: Seq<i8>| #[trigger] a.push(t).drop_last() =~= a,
        forall|a: Seq<bool>, t: bool| #[trigger] a.push(t).drop_last() =~= a,
        flag(3, 1) && flag(3, 2) && !flag(3, 4) && !flag(4, 1) && !flag(4, 2) && flag(4, 4) && flag(1, 1) && !flag(1, 2) && !flag(1, 4),
{
    assert forall|ok: bool, p: Seq<Vec<i8>>, scope: usize, hs: Seq<template_scope>, ss: Seq<template_symbol>, hs2: Seq<template_scope>, ss2: Seq<template_symbol>|
            #[trigger] arguments_added(ok, 0, p, args, scope, hs, ss, hs2, ss2) && hs.len() > 0
            implies grown(hs, hs2) && ss.len() <= ss2.len() && (forall|i: int| 0 <= i < ss.len() ==> #[trigger] ss2[i] == ss[i]) by { arguments_grow(ok, 0, p, args, scope, hs, ss, hs2, ss2); }
    assert forall|ok: bool, p: Seq<Vec<i8>>, scope: usize, hs: Seq<template_scope>, ss: Seq<template_symbol>, hs2: Seq<template_scope>, ss2: Seq<template_symbol>|
            #[trigger] arguments_added(ok, 0, p, args, scope, hs, ss, hs2, ss2) && strs(p) == strs(q) && args.len() <= p.len() implies arguments_added(ok, 0, q, args, scope, hs, ss, hs2, ss2) by {
        arguments_same(ok, 0, p, q, args, scope, hs, ss, hs2, ss2);
    }
    assert(strs(q).len() == q.len());
    assert forall|p: Seq<Vec<i8>>| #[trigger] strs(p) == strs(q) implies p.len() == q.len() by { assert(strs(p).len() == p.len()); }
    assert(3i32 & 1i32 == 1 && 3i32 & 2i32 == 2 && 3i32 & 4i32 == 0 && 4i32 & 1i32 == 0 && 4i32 & 2i32 == 0 && 4i32 & 4i32 == 4 && 1i32 & 1i32 == 1 && 1i32 & 2i32 == 0 && 1i32 & 4i32 == 0) by (bit_vector);
}
// how the body of a template is parsed
pub open spec fn call_entered(sym: template_symbol, args: Seq<Qv>, attribute: bool, a: state, hs: Seq<template_scope>, ss: Seq<template_symbol>, e: Snap) -> bool {
    let v = s_file_version(sym.content.file);
    let c = e.cx;
    &&& e.rule == (if attribute { 1int } else if sym.content.tag == TAG::template_tags::phrase { 2 } else { 3 }) && e.text == sym.content.text@
    &&& c.file == sym.content.file && c.version == v && c.depth == a.template_depth + 1 && c.depth <= 100 && c.min_level == a.document.level
    &&& c.imported == a.imported && c.path == a.current_path && c.base == a.xinclude_base && c.mode == a.source_mode && c.macros == a.macro_@
    &&& c.tagged == a.tagged_source_mode_stack@ && c.in_list == a.in_list && c.lists == a.in_list_save@
    &&& v < 107 ==> c.out.last() == Seq::<i8>::empty() && c.phrase.last() == Seq::<i8>::empty()
    &&& body_scopes(sym, args, a.templates, hs, ss, c.hs, c.ss)
}
pub open spec fn body_scopes(sym: template_symbol, args: Seq<Qv>, st: template_stack, hs: Seq<template_scope>, ss: Seq<template_symbol>, hs3: Seq<template_scope>, ss3: Seq<template_symbol>) -> bool {
    exists|st1: template_stack, hs1: Seq<template_scope>, st2: template_stack, hs2: Seq<template_scope>|
        #[trigger] pushed(st, hs, st1, hs1) && #[trigger] started(sym_view(sym), st1, hs1, st2, hs2)
        && arguments_added(true, 0, sym.params@, args, hs.len() as usize, hs2, ss, hs3, ss3)
}
// ---- other files
// what a nested file leaves behind before what is saved is restored
pub open spec fn file_parsed(a: state, hs: Seq<template_scope>, ss: Seq<template_symbol>, b: state, hs2: Seq<template_scope>, ss2: Seq<template_symbol>) -> bool {
    let x = cx(a, hs, ss);
    let y = cx(b, hs2, ss2);
    &&& y == (Cx { mode: y.mode, base: y.base, version: y.version, macros: y.macros, hs: hs2, ss: ss2, out: y.out, phrase: y.phrase, in_list: y.in_list, .. x })
    &&& below(x.out, y.out) && below(x.phrase, y.phrase)
    &&& grown(hs, hs2) && extends(ss, ss2)
}
pub open spec fn with_file(m: Map<Seq<i8>, Seq<i8>>, p: quickbook_path) -> Map<Seq<i8>, Seq<i8>> { m.insert(file_macro(), file_text(p)) }
// how another file is parsed
pub open spec fn file_entered(import: bool, p: quickbook_path, a: state, hs: Seq<template_scope>, e: Snap) -> bool {
    let c = e.cx;
    &&& c.imported == import && c.path == p && c.file == s_file_at(p.file_path) && c.macros == with_file(a.macro_@, p)
    &&& c.mode == a.source_mode && c.depth == a.template_depth && c.min_level == a.min_section_level && c.tagged == a.tagged_source_mode_stack@ && c.version == a.qbk_version_n
    &&& if import { c.out == a.out@.push(Seq::<i8>::empty()) && c.phrase == a.phrase@.push(Seq::<i8>::empty()) } else { c.out == a.out@ && c.phrase == a.phrase@ }
    &&& if !import && a.qbk_version_n >= 106 { pushed(a.templates, hs, template_stack { parent_1_4: c.parent }, c.hs) } else { c.hs == hs }
}
// what it leaves
pub open spec fn file_left(import: bool, a: state, hs: Seq<template_scope>, ss: Seq<template_symbol>, b: state, hs2: Seq<template_scope>, ss2: Seq<template_symbol>) -> bool {
    let x = cx(a, hs, ss);
    let y = cx(b, hs2, ss2);
    &&& y == (Cx { mode: y.mode, macros: y.macros, hs: hs2, ss: ss2, out: y.out, phrase: y.phrase, in_list: y.in_list, .. x })
    &&& a.qbk_version_n >= 106 ==> y.mode == x.mode
    &&& y.macros.contains_key(file_macro()) && y.macros[file_macro()] == file_text(a.current_path)
    &&& !import ==> y.macros == with_file(x.macros, a.current_path)
    &&& if !import && a.qbk_version_n >= 106 { hs2 == hs } else { grown(hs, hs2) }
    &&& if import { y.out == x.out && y.phrase == x.phrase && y.in_list == x.in_list } else { below(x.out, y.out) && below(x.phrase, y.phrase) }
    &&& extends(ss, ss2)
}
// if it could not be read
pub open spec fn file_failed(a: state, b: state) -> bool {
    &&& b.imported == a.imported && b.current_file == a.current_file && b.current_path == a.current_path && b.xinclude_base == a.xinclude_base && b.source_mode == a.source_mode
    &&& b.template_depth == a.template_depth && b.min_section_level == a.min_section_level && b.qbk_version_n == a.qbk_version_n
    &&& b.out@.len() == a.out@.len() && b.phrase@.len() == a.phrase@.len() && b.in_list_save@ == a.in_list_save@
}

#[verifier::external_body]
pub fn parse_file(s: &mut state, hs: Heap_template_scope, ss: Heap_template_symbol) -> (r: (Result<(), Exn>, Heap_template_scope, Heap_template_symbol))
    requires state_wf(*old(s), hs.v@, ss.v@),
    ensures
        file_parsed(*old(s), hs.v@, ss.v@, *final(s), r.1.v@, r.2.v@), state_wf(*final(s), r.1.v@, r.2.v@),
        final(s).document.log@.len() > old(s).document.log@.len() && final(s).document.log@[old(s).document.log@.len() as int].cx == cx(*old(s), hs.v@, ss.v@),
{ unimplemented!() }
// ---- what is written
pub open spec fn with_more(a: Seq<Seq<i8>>, t: Seq<i8>) -> Seq<Seq<i8>> { with_top(a, a.last() + t) }
pub open spec fn one_anchor(id: Seq<i8>) -> Seq<i8> { b"<anchor id=\"" + s_encoded(id) + b"\"/>" }
pub open spec fn anchors_text(a: Seq<Vec<i8>>) -> Seq<i8>
    decreases a.len()
{ if a.len() == 0 { Seq::empty() } else { anchors_text(a.drop_last()) + one_anchor(a.last()@) } }
// the anchors that wait are written at the end of the phrase or of the output
pub open spec fn wrote_anchors(a: state, b: state, p: bool) -> bool {
    &&& texts(a, b) && b.anchors@.len() == 0 && b.source_mode_next == 0
    &&& b.out@ == (if p { a.out@ } else { with_more(a.out@, anchors_text(a.anchors@)) })
    &&& b.phrase@ == (if p { with_more(a.phrase@, anchors_text(a.anchors@)) } else { a.phrase@ })
}
pub open spec fn all_blank(t: Seq<i8>) -> bool { forall|i: int| 0 <= i < t.len() ==> is_space(#[trigger] t[i] as int) }
pub open spec fn para_tag(in_list: bool) -> int { if in_list { 2 } else { 1 } }
// a text as a paragraph, with the anchors that wait; white space is dropped
pub open spec fn para_with(t: Seq<i8>, in_list: bool, anchors: Seq<i8>) -> Seq<i8> { s_pre(para_tag(in_list)) + t + anchors + s_post(para_tag(in_list)) }
pub open spec fn para_text(t: Seq<i8>, in_list: bool) -> Seq<i8> { if all_blank(t) { Seq::empty() } else { para_with(t, in_list, Seq::empty()) } }
#[verifier::opaque]
pub open spec fn wrote_paragraph(a: state, b: state) -> bool {
    let t = a.phrase@.last();
    &&& texts(a, b) && b.phrase@ == with_top(a.phrase@, Seq::<i8>::empty())
    &&& if all_blank(t) { b.out@ == a.out@ && b.anchors == a.anchors && b.source_mode_next == a.source_mode_next } else {
        &&& b.anchors@.len() == 0 && b.source_mode_next == 0
        &&& b.out@ == with_more(a.out@, para_with(t, a.in_list, anchors_text(a.anchors@)))
    }
}
pub open spec fn with_phrase(a: state, p: Collector) -> state { state { phrase: p, ..a } }
pub open spec fn with_explicit(a: state) -> state { state { explicit_list: true, ..a } }
pub open spec fn list_start(mark: i8) -> Seq<i8> { if mark == 35 { b"<orderedlist>\n" } else { b"<itemizedlist>\n" } }
pub open spec fn list_end(mark: i8) -> Seq<i8> { if mark == 35 { b"\n</orderedlist>" } else { b"\n</itemizedlist>" } }
pub proof fn tops()
    ensures
        forall|a: Seq<Seq<i8>>, t: Seq<i8>| #[trigger] with_top(a, t).drop_last() =~= a.drop_last(),
        forall|a: Seq<Seq<i8>>, t: Seq<i8>| a.len() > 0 ==> (#[trigger] with_top(a, t)).len() == a.len() && with_top(a, t).last() == t,
        forall|a: Seq<Seq<i8>>, t: Seq<i8>, u: Seq<i8>| a.len() > 0 ==> #[trigger] with_top(with_top(a, t), u) =~= with_top(a, u),
        forall|a: Seq<Seq<i8>>, t: Seq<i8>, u: Seq<i8>| #[trigger] with_top(a.push(t), u) =~= a.push(u),
        forall|a: Seq<Seq<i8>>| a.len() > 0 ==> #[trigger] with_top(a, a.last()) =~= a,
        forall|a: Seq<Seq<i8>>, t: Seq<i8>| #[trigger] a.push(t).drop_last() =~= a,
        forall|a: Seq<i8>| #[trigger] (Seq::<i8>::empty() + a) =~= a,
        forall|a: Seq<i8>| #[trigger] (a + Seq::<i8>::empty()) =~= a,
        forall|a: Seq<bool>, t: bool| #[trigger] a.push(t).drop_last() =~= a,
{}
pub proof fn lemma_anchors(a: Seq<Vec<i8>>, i: int, x: Seq<i8>)
    ensures
        a.subrange(0, 0) =~= Seq::empty(), a.subrange(0, a.len() as int) =~= a, anchors_text(a.subrange(0, 0)) =~= Seq::empty(),
        0 <= i < a.len() ==> anchors_text(a.subrange(0, i + 1)) == anchors_text(a.subrange(0, i)) + one_anchor(a[i]@)
            && x + anchors_text(a.subrange(0, i + 1)) =~= x + anchors_text(a.subrange(0, i)) + b"<anchor id=\"" + s_encoded(a[i]@) + b"\"/>",
{ if 0 <= i < a.len() { assert(a.subrange(0, i + 1).drop_last() =~= a.subrange(0, i)); } }
pub proof fn lemma_cat(x: Seq<i8>, a: Seq<i8>, b: Seq<i8>, c: Seq<i8>, d: Seq<i8>)
    ensures x + (a + b + c + d) =~= x + a + b + c + d,
{}
pub proof fn lemma_cat3(a: Seq<i8>, b: Seq<i8>, c: Seq<i8>)
    ensures Seq::<i8>::empty() + (a + b + c) =~= a + b + c,
{}
pub proof fn lemma_item_text(x: Seq<i8>, t: Seq<i8>, in_list: bool)
    ensures x + (para_text(t, in_list) + b"</listitem>") =~= x + para_text(t, in_list) + b"</listitem>",
{}
