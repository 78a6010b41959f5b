// ---- values: a piece of quickbook source with the file it came from and its tag
#[derive(Copy, Clone)]
pub struct FileRef { pub id: u64 }
pub uninterp spec fn s_file_version(f: FileRef) -> u32;
#[verifier::external_body]
pub fn file_version(f: FileRef) -> (r: u32) ensures r == s_file_version(f) { unimplemented!() }

pub uninterp spec fn s_qbk_version() -> u32;
#[verifier::external_body]
pub fn qbk_version() -> (r: u32) ensures r == s_qbk_version() { unimplemented!() }

pub struct Qv { pub file: FileRef, pub tag: i32, pub text: Vec<i8> }
pub struct QvS { pub file: FileRef, pub tag: int, pub text: Seq<i8> }
impl View for Qv { type V = QvS; open spec fn view(&self) -> QvS { QvS { file: self.file, tag: self.tag as int, text: self.text@ } } }
pub fn Qv_uninit() -> (r: Qv) { Qv { file: FileRef { id: 0 }, tag: 0, text: Vec::new() } }
pub fn Qv_clone(v: &Qv) -> (r: Qv) ensures r@ == v@ { let t = str_clone(&v.text); Qv { file: v.file, tag: v.tag, text: t } }
#[derive(Copy, Clone)]
pub struct ItPair<'a> { pub first: It<'a>, pub second: It<'a> }
#[derive(Copy, Clone)]
pub struct ArgsResult { pub ok: bool, pub n: usize }
pub open spec fn strs(v: Seq<Vec<i8>>) -> Seq<Seq<i8>> { v.map_values(|x: Vec<i8>| x@) }
pub open spec fn vals(v: Seq<Qv>) -> Seq<QvS> { v.map_values(|x: Qv| x@) }
pub fn strs_clone(v: &Vec<Vec<i8>>) -> (r: Vec<Vec<i8>>) ensures strs(r@) == strs(v@) {
    let mut r: Vec<Vec<i8>> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] r@[k]@ == v@[k]@,
        decreases v@.len() - i
    {
        let x = str_clone(&v[i]);
        r.push(x);
        i = i + 1;
    }
    proof { assert(strs(r@) =~= strs(v@)); }
    r
}
pub fn args_back(v: &Vec<Qv>) -> (r: Qv) requires v@.len() > 0 ensures r@ == v@.last()@ { Qv_clone(&v[v.len() - 1]) }
pub fn args_set_back(v: &mut Vec<Qv>, x: Qv) requires old(v)@.len() > 0 ensures final(v)@ == old(v)@.update(old(v)@.len() - 1, x) {
    let n = v.len() - 1;
    v[n] = x;
}
pub fn qv_new(f: FileRef, a: It, b: It, tag: i32) -> (r: Qv)
    requires a.same(b), a.i <= b.i <= b.s@.len(),
    ensures r@ == (QvS { file: f, tag: tag as int, text: a.s@.subrange(a.i as int, b.i as int) }),
{ let t = str_from(it_range(a, b)); Qv { file: f, tag: tag, text: t } }

// ---- c_str(): the text up to its first NUL
pub open spec fn czstr(s: Seq<i8>) -> Seq<i8> { s.subrange(0, cstr_end(s, 0)) }
#[verifier::external_body]
pub fn c_str(s: &[i8]) -> (r: &[i8]) ensures r@ == czstr(s@) { unimplemented!() }

// ---- boost::spirit::classic::symbols<template_symbol>: from names to cells of the heap of symbols
#[verifier::external_body]
pub struct SymTab { m: Vec<(Vec<i8>, usize)> }
impl View for SymTab { type V = Map<Seq<i8>, usize>; uninterp spec fn view(&self) -> Map<Seq<i8>, usize>; }
#[verifier::external_body]
pub fn symtab_new() -> (r: SymTab) ensures r@ == Map::<Seq<i8>, usize>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn symtab_find(t: &SymTab, k: &[i8]) -> (r: usize) ensures r == (if t@.contains_key(k@) { t@[k@] } else { 0usize }) { unimplemented!() }
#[verifier::external_body]
pub fn symtab_add(t: &SymTab, k: &Vec<i8>, p: usize) -> (r: SymTab)
    requires !t@.contains_key(k@)
    ensures r@ == (if k@.len() > 0 { t@.insert(k@, p) } else { t@ })
{ unimplemented!() }
pub fn template_symbol_copy(x: &template_symbol) -> (r: template_symbol) ensures sym_view(r) == sym_view(*x) {
    let identifier = str_clone(&x.identifier);
    let params = strs_clone(&x.params);
    let content = Qv_clone(&x.content);
    template_symbol { identifier, params, content, lexical_parent: x.lexical_parent }
}
pub fn heap_pop(h: &mut Heap_template_scope) requires old(h).v@.len() > 0 ensures final(h).v@ == old(h).v@.drop_last() { h.v.pop(); }

// ---- the specification: a stack of scopes, the bottom one first; scope number p (1 is the bottom) is hs[p - 1]
pub struct SymS { pub name: Seq<i8>, pub params: Seq<Seq<i8>>, pub content: QvS, pub lexical_parent: usize }
pub open spec fn sym_view(x: template_symbol) -> SymS {
    SymS { name: x.identifier@, params: strs(x.params@), content: x.content@, lexical_parent: x.lexical_parent }
}
pub open spec fn sym_ok(ss: Seq<template_symbol>, p: usize, scope: int) -> bool {
    1 <= p <= ss.len() && 1 <= ss[p - 1].lexical_parent <= scope
}
pub open spec fn scope_wf(x: template_scope, ss: Seq<template_symbol>, k: int) -> bool {
    &&& x.parent_scope <= k && x.parent_1_4 <= k
    &&& k > 0 ==> x.parent_1_4 >= 1
    &&& forall|n: Seq<i8>| #[trigger] x.symbols@.contains_key(n) ==> sym_ok(ss, x.symbols@[n], k + 1)
}
pub open spec fn scopes_wf(hs: Seq<template_scope>, ss: Seq<template_symbol>) -> bool {
    hs.len() > 0 && forall|k: int| 0 <= k < hs.len() ==> scope_wf(#[trigger] hs[k], ss, k)
}
pub open spec fn stack_wf(st: template_stack, hs: Seq<template_scope>, ss: Seq<template_symbol>) -> bool {
    scopes_wf(hs, ss) && 1 <= st.parent_1_4 <= hs.len()
}
// the template which a name means in scope p: the first one found in p, in the scope p refers to, and so on (0: none)
pub open spec fn lookup(hs: Seq<template_scope>, p: int, n: Seq<i8>) -> usize
    decreases p
{
    if p <= 0 || p > hs.len() { 0usize }
    else if hs[p - 1].symbols@.contains_key(n) { hs[p - 1].symbols@[n] }
    else if (hs[p - 1].parent_scope as int) < p { lookup(hs, hs[p - 1].parent_scope as int, n) }
    else { 0usize }
}
// scopes that agree on the first p numbers agree on what names mean there
pub proof fn lookup_below(a: Seq<template_scope>, b: Seq<template_scope>, p: int, n: Seq<i8>)
    requires p <= a.len(), p <= b.len(), forall|k: int| 0 <= k < p ==> #[trigger] a[k] == b[k],
    ensures lookup(a, p, n) == lookup(b, p, n),
    decreases p
{
    if p > 0 && !a[p - 1].symbols@.contains_key(n) && (a[p - 1].parent_scope as int) < p {
        lookup_below(a, b, a[p - 1].parent_scope as int, n);
    }
}
pub proof fn lookup_found(hs: Seq<template_scope>, ss: Seq<template_symbol>, p: int, n: Seq<i8>)
    requires scopes_wf(hs, ss), 0 <= p <= hs.len(),
    ensures lookup(hs, p, n) != 0 ==> sym_ok(ss, lookup(hs, p, n), p),
    decreases p
{
    if p > 0 {
        assert(scope_wf(hs[p - 1], ss, p - 1));
        if !hs[p - 1].symbols@.contains_key(n) { lookup_found(hs, ss, hs[p - 1].parent_scope as int, n); }
    }
}
// a table only gets new templates: what the scopes rely on stays true
pub proof fn wf_more(hs: Seq<template_scope>, ss: Seq<template_symbol>, x: template_symbol)
    requires scopes_wf(hs, ss)
    ensures scopes_wf(hs, ss.push(x))
{
    let s2 = ss.push(x);
    assert forall|k: int| 0 <= k < hs.len() implies scope_wf(#[trigger] hs[k], s2, k) by {
        assert(scope_wf(hs[k], ss, k));
        assert forall|n: Seq<i8>| #[trigger] hs[k].symbols@.contains_key(n) implies sym_ok(s2, hs[k].symbols@[n], k + 1) by {
            assert(sym_ok(ss, hs[k].symbols@[n], k + 1));
        }
    }
}

// ---- the steps of a template call
pub open spec fn pushed(st: template_stack, hs: Seq<template_scope>, st2: template_stack, hs2: Seq<template_scope>) -> bool {
    &&& hs2.len() == hs.len() + 1 && hs2.drop_last() =~= hs
    &&& hs2.last().symbols@ == Map::<Seq<i8>, usize>::empty()
    &&& hs2.last().parent_scope == hs.len()
    &&& hs2.last().parent_1_4 == st.parent_1_4
    &&& st2.parent_1_4 == hs2.len()
}
pub open spec fn popped(st: template_stack, hs: Seq<template_scope>, st2: template_stack, hs2: Seq<template_scope>) -> bool {
    hs2 =~= hs.drop_last() && st2.parent_1_4 == hs.last().parent_1_4
}
pub open spec fn reparent(hs: Seq<template_scope>, hs2: Seq<template_scope>, parent: usize) -> bool {
    &&& hs2.len() == hs.len() && hs2.drop_last() =~= hs.drop_last()
    &&& hs2.last() == (template_scope { parent_scope: parent, .. hs.last() })
}
pub open spec fn started(sym: SymS, st: template_stack, hs: Seq<template_scope>, st2: template_stack, hs2: Seq<template_scope>) -> bool {
    if s_file_version(sym.content.file) >= 105 {
        // the scope the template was defined in
        reparent(hs, hs2, sym.lexical_parent) && st2.parent_1_4 == hs.last().parent_1_4
    } else {
        // the scope of the caller
        reparent(hs, hs2, hs.last().parent_1_4) && st2 == st
    }
}
pub open spec fn with_symbol(x: template_scope, y: template_scope, n: Seq<i8>, p: usize) -> bool {
    &&& y.parent_scope == x.parent_scope && y.parent_1_4 == x.parent_1_4
    &&& y.symbols@ == (if n.len() > 0 { x.symbols@.insert(n, p) } else { x.symbols@ })
}
// a template is added to the innermost scope, unless that scope has one of that name
pub open spec fn added(ok: bool, n: Seq<i8>, sym: SymS, hs: Seq<template_scope>, ss: Seq<template_symbol>, hs2: Seq<template_scope>, ss2: Seq<template_symbol>) -> bool {
    &&& ok == !hs.last().symbols@.contains_key(n)
    &&& !ok ==> hs2 == hs && ss2 == ss
    &&& ok ==> {
        &&& hs2.len() == hs.len() && hs2.drop_last() =~= hs.drop_last() && with_symbol(hs.last(), hs2.last(), n, ss2.len() as usize)
        &&& ss2.len() == ss.len() + 1 && ss2.drop_last() =~= ss && sym_view(ss2.last()) == sym
    }
}
pub proof fn push_wf(st: template_stack, hs: Seq<template_scope>, st2: template_stack, hs2: Seq<template_scope>)
    requires pushed(st, hs, st2, hs2), hs.len() > 0,
    ensures forall|ss: Seq<template_symbol>| stack_wf(st, hs, ss) ==> #[trigger] stack_wf(st2, hs2, ss),
{
    assert forall|ss: Seq<template_symbol>| stack_wf(st, hs, ss) implies #[trigger] stack_wf(st2, hs2, ss) by {
        assert forall|k: int| 0 <= k < hs2.len() implies scope_wf(#[trigger] hs2[k], ss, k) by {
            if k < hs.len() { assert(hs2.drop_last()[k] == hs[k]); assert(scope_wf(hs[k], ss, k)); }
        }
    }
}
pub proof fn pop_wf(st: template_stack, hs: Seq<template_scope>, st2: template_stack, hs2: Seq<template_scope>)
    requires popped(st, hs, st2, hs2), hs.len() > 1,
    ensures forall|ss: Seq<template_symbol>| stack_wf(st, hs, ss) ==> #[trigger] stack_wf(st2, hs2, ss),
{
    assert forall|ss: Seq<template_symbol>| stack_wf(st, hs, ss) implies #[trigger] stack_wf(st2, hs2, ss) by {
        assert(scope_wf(hs[hs.len() - 1], ss, hs.len() - 1));
        assert forall|k: int| 0 <= k < hs2.len() implies scope_wf(#[trigger] hs2[k], ss, k) by { assert(hs2[k] == hs[k]); assert(scope_wf(hs[k], ss, k)); }
    }
}
pub proof fn reparent_wf(st: template_stack, hs: Seq<template_scope>, ss: Seq<template_symbol>, st2: template_stack, hs2: Seq<template_scope>)
    requires stack_wf(st, hs, ss), hs.len() > 1,
    ensures forall|p: usize| #[trigger] reparent(hs, hs2, p) && p < hs.len() && 1 <= st2.parent_1_4 <= hs.len() ==> stack_wf(st2, hs2, ss), scope_wf(hs.last(), ss, hs.len() - 1),
{
    assert(scope_wf(hs[hs.len() - 1], ss, hs.len() - 1));
    assert forall|p: usize| #[trigger] reparent(hs, hs2, p) && p < hs.len() && 1 <= st2.parent_1_4 <= hs.len() implies stack_wf(st2, hs2, ss) by {
        assert forall|k: int| 0 <= k < hs2.len() implies scope_wf(#[trigger] hs2[k], ss, k) by {
            if k < hs.len() - 1 { assert(hs2.drop_last()[k] == hs.drop_last()[k]); }
            assert(scope_wf(hs[k], ss, k));
        }
    }
}
pub proof fn add_wf(n: Seq<i8>, sym: SymS, st: template_stack, hs: Seq<template_scope>, ss: Seq<template_symbol>, hs2: Seq<template_scope>, ss2: Seq<template_symbol>)
    requires stack_wf(st, hs, ss), 1 <= sym.lexical_parent <= hs.len(),
    ensures forall|ok: bool| #[trigger] added(ok, n, sym, hs, ss, hs2, ss2) && ss2.len() <= usize::MAX ==> stack_wf(st, hs2, ss2), scope_wf(hs.last(), ss, hs.len() - 1),
{
    assert(scope_wf(hs[hs.len() - 1], ss, hs.len() - 1));
    assert forall|ok: bool| #[trigger] added(ok, n, sym, hs, ss, hs2, ss2) && ss2.len() <= usize::MAX implies stack_wf(st, hs2, ss2) by {
        if ok {
            assert(ss2 =~= ss.push(ss2.last()));
            wf_more(hs, ss, ss2.last());
            assert forall|k: int| 0 <= k < hs2.len() implies scope_wf(#[trigger] hs2[k], ss2, k) by {
                assert(scope_wf(hs[k], ss2, k));
                if k < hs.len() - 1 { assert(hs2.drop_last()[k] == hs.drop_last()[k]); }
                else {
                    assert(sym_view(ss2[ss2.len() - 1]).lexical_parent == sym.lexical_parent);
                    assert forall|m: Seq<i8>| #[trigger] hs2[k].symbols@.contains_key(m) implies sym_ok(ss2, hs2[k].symbols@[m], k + 1) by {
                        if hs[k].symbols@.contains_key(m) { assert(sym_ok(ss2, hs[k].symbols@[m], k + 1)); }
                    }
                }
            }
        }
    }
}

// ---- the arguments of a template call
pub open spec fn blank(c: i8) -> bool { c == 32 || c == 9 || c == 10 || c == 13 }
// 1.4-: the first space
pub open spec fn space_from(s: Seq<i8>, i: int) -> int
    decreases s.len() - i
{
    if i >= s.len() { s.len() as int } else if blank(s[i]) { i } else { space_from(s, i + 1) }
}
pub open spec fn deeper(d: u32) -> u32 { if d == u32::MAX { 0 } else { (d + 1) as u32 } }
// 1.5+: the first space that is neither inside square brackets nor escaped
pub open spec fn space_outside(s: Seq<i8>, i: int, depth: u32) -> int
    decreases s.len() - i
{
    if i >= s.len() { s.len() as int }
    else if s[i] == 91 { space_outside(s, i + 1, deeper(depth)) }
    else if s[i] == 92 { if i + 1 >= s.len() { s.len() as int } else { space_outside(s, i + 2, depth) } }
    else if s[i] == 93 { space_outside(s, i + 1, if depth > 0 { (depth - 1) as u32 } else { 0u32 }) }
    else if blank(s[i]) && depth == 0 { i }
    else { space_outside(s, i + 1, depth) }
}
pub open spec fn separator(s: Seq<i8>, i: int) -> int { if s_qbk_version() < 105 { space_from(s, i) } else { space_outside(s, i, 0) } }
pub open spec fn skip_spaces(s: Seq<i8>, i: int) -> int
    decreases s.len() - i
{
    if i < s.len() && blank(s[i]) { skip_spaces(s, i + 1) } else { i }
}
pub proof fn separator_range(s: Seq<i8>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= space_from(s, i) <= s.len(), i <= skip_spaces(s, i) <= s.len(),
    decreases s.len() - i
{ if i < s.len() { separator_range(s, i + 1); } }
pub proof fn outside_range(s: Seq<i8>, i: int, d: u32)
    requires 0 <= i <= s.len(),
    ensures i <= space_outside(s, i, d) <= s.len(),
    decreases s.len() - i
{
    if i < s.len() {
        outside_range(s, i + 1, deeper(d));
        outside_range(s, i + 1, d);
        outside_range(s, i + 1, if d > 0 { (d - 1) as u32 } else { 0u32 });
        if i + 1 < s.len() { outside_range(s, i + 2, d); }
    }
}
// text taken apart into at most n pieces
pub open spec fn broken(s: Seq<i8>, n: int) -> Seq<Seq<i8>>
    decreases n
{
    let a = separator(s, 0);
    let b = skip_spaces(s, a);
    if n <= 1 || b >= s.len() { seq![s] } else { seq![s.subrange(0, a)] + broken(s.subrange(b, s.len() as int), n - 1) }
}
pub open spec fn pieces(v: QvS, parts: Seq<Seq<i8>>) -> Seq<QvS> {
    Seq::new(parts.len(), |k: int| QvS { file: v.file, tag: if k == 0 { v.tag } else { TAG::template_tags::phrase }, text: parts[k] })
}
pub open spec fn broken_args(args: Seq<QvS>, n: int) -> Seq<QvS> {
    if args.len() > 0 && args.len() < n && (s_qbk_version() < 105 || args.len() == 1) {
        args.drop_last() + pieces(args.last(), broken(args.last().text, n - args.len() + 1))
    } else { args }
}
pub open spec fn rest_args(b: Seq<QvS>, n: int) -> Seq<QvS> { b.drop_last() + pieces(b.last(), broken(b.last().text, n - b.len() + 1)) }
pub proof fn rest_step(b: Seq<Qv>, n: int)
    requires b.len() > 0,
    ensures
        b.len() >= n || skip_spaces(b.last()@.text, separator(b.last()@.text, 0)) >= b.last()@.text.len() ==> rest_args(vals(b), n) =~= vals(b),
        b.len() < n && skip_spaces(b.last()@.text, separator(b.last()@.text, 0)) < b.last()@.text.len() ==> forall|x: Seq<Qv>|
            x.len() == b.len() + 1 && (forall|k: int| 0 <= k < b.len() - 1 ==> x[k] == b[k])
            && x[b.len() - 1]@ == (QvS { file: b.last()@.file, tag: b.last()@.tag, text: b.last()@.text.subrange(0, separator(b.last()@.text, 0)) })
            && x[b.len() as int]@ == (QvS { file: b.last()@.file, tag: TAG::template_tags::phrase, text: b.last()@.text.subrange(skip_spaces(b.last()@.text, separator(b.last()@.text, 0)), b.last()@.text.len() as int) })
            ==> #[trigger] rest_args(vals(x), n) =~= rest_args(vals(b), n),
{
    let t = b.last()@.text;
    let a = separator(t, 0);
    let e = skip_spaces(t, a);
    assert(vals(b).last() == b.last()@);
    assert(pieces(b.last()@, seq![t]) =~= seq![b.last()@]);
    assert(vals(b).drop_last() + seq![b.last()@] =~= vals(b));
    if b.len() < n && e < t.len() {
        let p1 = QvS { file: b.last()@.file, tag: b.last()@.tag, text: t.subrange(0, a) };
        let p2 = QvS { file: b.last()@.file, tag: TAG::template_tags::phrase, text: t.subrange(e, t.len() as int) };
        assert forall|x: Seq<Qv>| x.len() == b.len() + 1 && (forall|k: int| 0 <= k < b.len() - 1 ==> x[k] == b[k]) && x[b.len() - 1]@ == p1 && x[b.len() as int]@ == p2
            implies #[trigger] rest_args(vals(x), n) =~= rest_args(vals(b), n) by {
            assert(vals(x).drop_last() =~= vals(b).drop_last().push(p1));
            assert(vals(x).last() == p2);
            let rest = broken(p2.text, n - b.len());
            assert(broken(t, n - b.len() + 1) =~= seq![t.subrange(0, a)] + rest);
            assert(pieces(b.last()@, seq![t.subrange(0, a)] + rest) =~= seq![p1] + pieces(p2, rest));
        }
    }
}
pub proof fn rest_step_0(b: Seq<Qv>, n: int)
    ensures b.len() > 0 && (s_qbk_version() < 105 || b.len() == 1) ==> broken_args(vals(b), n) =~= rest_args(vals(b), n)
{
    if b.len() > 0 { rest_step(b, n); }
}
// argument k becomes a template without parameters, named by parameter k, whose body sees the scope of the caller
pub open spec fn argument(n: Seq<i8>, v: QvS, scope: usize) -> SymS { SymS { name: n, params: Seq::empty(), content: v, lexical_parent: scope } }
// arguments k and up are added in this order, up to the first that is there already
pub open spec fn arguments_added(ok: bool, k: int, params: Seq<Vec<i8>>, args: Seq<Qv>, scope: usize, hs: Seq<template_scope>, ss: Seq<template_symbol>, hs2: Seq<template_scope>, ss2: Seq<template_symbol>) -> bool
    decreases args.len() - k
{
    if k >= args.len() { ok && hs2 == hs && ss2 == ss }
    else if hs.last().symbols@.contains_key(czstr(params[k]@)) { !ok && hs2 == hs && ss2 == ss }
    else {
        exists|h1: Seq<template_scope>, s1: Seq<template_symbol>| #[trigger] added(true, czstr(params[k]@), argument(params[k]@, args[k]@, scope), hs, ss, h1, s1)
            && arguments_added(ok, k + 1, params, args, scope, h1, s1, hs2, ss2)
    }
}
pub fn SymTab_uninit() -> (r: SymTab) { symtab_new() }
pub proof fn arguments_step(k: int, params: Seq<Vec<i8>>, args: Seq<Qv>, scope: usize, hs: Seq<template_scope>, ss: Seq<template_symbol>)
    ensures
        k >= args.len() ==> arguments_added(true, k, params, args, scope, hs, ss, hs, ss),
        k < args.len() && hs.last().symbols@.contains_key(czstr(params[k]@)) ==> arguments_added(false, k, params, args, scope, hs, ss, hs, ss),
        k < args.len() && !hs.last().symbols@.contains_key(czstr(params[k]@)) ==> forall|ok: bool, h1: Seq<template_scope>, s1: Seq<template_symbol>, h2: Seq<template_scope>, s2: Seq<template_symbol>|
            #[trigger] added(true, czstr(params[k]@), argument(params[k]@, args[k]@, scope), hs, ss, h1, s1) && #[trigger] arguments_added(ok, k + 1, params, args, scope, h1, s1, h2, s2)
            ==> arguments_added(ok, k, params, args, scope, hs, ss, h2, s2),
        k < args.len() ==> forall|x: template_symbol| x.identifier@ == params[k]@ && strs(x.params@) =~= Seq::empty() && x.content@ == args[k]@ && x.lexical_parent == scope
            ==> #[trigger] sym_view(x) == argument(params[k]@, args[k]@, scope),
{ }

// ---- what names mean during and after a call
pub open spec fn names_ok(params: Seq<Vec<i8>>) -> bool { forall|k: int| 0 <= k < params.len() ==> czstr(#[trigger] params[k]@).len() > 0 }
// argument j of the call is what its parameter's name means in the scope
pub open spec fn bound(x: template_scope, ss: Seq<template_symbol>, params: Seq<Vec<i8>>, args: Seq<Qv>, scope: usize, j: int) -> bool {
    let n = czstr(params[j]@);
    x.symbols@.contains_key(n) && 1 <= x.symbols@[n] <= ss.len() && sym_view(ss[x.symbols@[n] - 1]) == argument(params[j]@, args[j]@, scope)
}
pub open spec fn names(params: Seq<Vec<i8>>, from: int, to: int, n: Seq<i8>) -> bool { exists|j: int| from <= j < to && czstr(#[trigger] params[j]@) == n }
// a scope that only got more templates
pub open spec fn grown(hs: Seq<template_scope>, hs2: Seq<template_scope>) -> bool {
    &&& hs.len() == hs2.len() && hs.len() > 0 && hs2.drop_last() =~= hs.drop_last()
    &&& hs2.last().parent_scope == hs.last().parent_scope && hs2.last().parent_1_4 == hs.last().parent_1_4
    &&& forall|n: Seq<i8>| hs.last().symbols@.contains_key(n) ==> #[trigger] hs2.last().symbols@.contains_key(n) && hs2.last().symbols@[n] == hs.last().symbols@[n]
}
pub open spec fn extends(ss: Seq<template_symbol>, ss2: Seq<template_symbol>) -> bool {
    ss.len() <= ss2.len() <= usize::MAX && forall|k: int| 0 <= k < ss.len() ==> #[trigger] ss2[k] == ss[k]
}
pub proof fn arguments_bound(k: int, params: Seq<Vec<i8>>, args: Seq<Qv>, scope: usize, hs: Seq<template_scope>, ss: Seq<template_symbol>, hs2: Seq<template_scope>, ss2: Seq<template_symbol>)
    requires
        arguments_added(true, k, params, args, scope, hs, ss, hs2, ss2), 0 <= k, args.len() <= params.len(), names_ok(params), hs.len() > 0,
        ss.len() <= usize::MAX, ss2.len() <= usize::MAX,
    ensures
        ss.len() <= ss2.len(),
        grown(hs, hs2), extends(ss, ss2),
        forall|j: int| k <= j < args.len() ==> #[trigger] bound(hs2.last(), ss2, params, args, scope, j),
        forall|n: Seq<i8>| #[trigger] hs2.last().symbols@.contains_key(n) ==> hs.last().symbols@.contains_key(n) || names(params, k, args.len() as int, n),
    decreases args.len() - k
{
    if k < args.len() {
        let n0 = czstr(params[k]@);
        assert(n0.len() > 0);
        let (h1, s1) = choose|h1: Seq<template_scope>, s1: Seq<template_symbol>| #[trigger] added(true, n0, argument(params[k]@, args[k]@, scope), hs, ss, h1, s1)
            && arguments_added(true, k + 1, params, args, scope, h1, s1, hs2, ss2);
        arguments_len(k + 1, params, args, scope, h1, s1, hs2, ss2);
        arguments_bound(k + 1, params, args, scope, h1, s1, hs2, ss2);
        assert forall|i: int| 0 <= i < ss.len() implies #[trigger] ss2[i] == ss[i] by { assert(s1.drop_last()[i] == ss[i]); assert(s1[i] == ss[i]); }
        assert(h1.last().symbols@.contains_key(n0));
        assert(hs2.last().symbols@.contains_key(n0));
        assert(s1.last() == s1[s1.len() - 1]);
        assert(ss2[s1.len() - 1] == s1[s1.len() - 1]);
        assert forall|j: int| k <= j < args.len() implies #[trigger] bound(hs2.last(), ss2, params, args, scope, j) by { }
        assert forall|n: Seq<i8>| #[trigger] hs2.last().symbols@.contains_key(n) implies hs.last().symbols@.contains_key(n) || names(params, k, args.len() as int, n) by {
            if h1.last().symbols@.contains_key(n) {
                if n == n0 { assert(czstr(params[k]@) == n); }
            } else {
                let j = choose|j: int| k + 1 <= j < args.len() && czstr(#[trigger] params[j]@) == n;
                assert(czstr(params[j]@) == n);
            }
        }
        assert forall|n: Seq<i8>| hs.last().symbols@.contains_key(n) implies #[trigger] hs2.last().symbols@.contains_key(n) && hs2.last().symbols@[n] == hs.last().symbols@[n] by {
            assert(n != n0);
            assert(h1.last().symbols@.contains_key(n) && h1.last().symbols@[n] == hs.last().symbols@[n]);
            assert(hs2.last().symbols@.contains_key(n) && hs2.last().symbols@[n] == h1.last().symbols@[n]);
        }
        assert(hs2.drop_last() =~= hs.drop_last());
    }
}
pub proof fn arguments_len(k: int, params: Seq<Vec<i8>>, args: Seq<Qv>, scope: usize, hs: Seq<template_scope>, ss: Seq<template_symbol>, hs2: Seq<template_scope>, ss2: Seq<template_symbol>)
    requires arguments_added(true, k, params, args, scope, hs, ss, hs2, ss2),
    ensures ss.len() <= ss2.len(),
    decreases args.len() - k
{
    if k < args.len() {
        let (h1, s1) = choose|h1: Seq<template_scope>, s1: Seq<template_symbol>| #[trigger] added(true, czstr(params[k]@), argument(params[k]@, args[k]@, scope), hs, ss, h1, s1)
            && arguments_added(true, k + 1, params, args, scope, h1, s1, hs2, ss2);
        arguments_len(k + 1, params, args, scope, h1, s1, hs2, ss2);
    }
}
// the scope a body's other names are looked up in
pub open spec fn body_scope(sym: SymS, st0: template_stack) -> usize { if s_file_version(sym.content.file) >= 105 { sym.lexical_parent } else { st0.parent_1_4 } }
// a call: a new scope, the template's start, its arguments
pub open spec fn called(sym: SymS, params: Seq<Vec<i8>>, args: Seq<Qv>, st0: template_stack, hs0: Seq<template_scope>, ss0: Seq<template_symbol>,
        st1: template_stack, hs1: Seq<template_scope>, st2: template_stack, hs2: Seq<template_scope>, hs3: Seq<template_scope>, ss3: Seq<template_symbol>) -> bool {
    &&& pushed(st0, hs0, st1, hs1)
    &&& started(sym, st1, hs1, st2, hs2)
    &&& arguments_added(true, 0, params, args, hs0.len() as usize, hs2, ss0, hs3, ss3)
}
// in the body a parameter's name means the argument, whose own text is read in the caller's scope;
// any other name means what it meant where the template was defined (1.5+) or where it was called (1.4-)
pub proof fn lemma_call(sym: SymS, params: Seq<Vec<i8>>, args: Seq<Qv>, st0: template_stack, hs0: Seq<template_scope>, ss0: Seq<template_symbol>,
        st1: template_stack, hs1: Seq<template_scope>, st2: template_stack, hs2: Seq<template_scope>, hs3: Seq<template_scope>, ss3: Seq<template_symbol>)
    requires
        called(sym, params, args, st0, hs0, ss0, st1, hs1, st2, hs2, hs3, ss3), stack_wf(st0, hs0, ss0), 1 <= sym.lexical_parent <= hs0.len(),
        names_ok(params), args.len() == params.len(), ss0.len() <= usize::MAX, ss3.len() <= usize::MAX, hs3.len() <= usize::MAX,
    ensures
        forall|j: int| 0 <= j < args.len() ==> {
            let p = lookup(hs3, hs3.len() as int, czstr((#[trigger] params[j])@));
            1 <= p <= ss3.len() && sym_view(ss3[p - 1]) == argument(params[j]@, args[j]@, hs0.len() as usize)
        },
        forall|n: Seq<i8>| !names(params, 0, params.len() as int, n) ==> #[trigger] lookup(hs3, hs3.len() as int, n) == lookup(hs0, body_scope(sym, st0) as int, n),
        forall|q: int, n: Seq<i8>| 0 <= q <= hs0.len() ==> #[trigger] lookup(hs3, q, n) == lookup(hs0, q, n),
        extends(ss0, ss3),
{
    arguments_bound(0, params, args, hs0.len() as usize, hs2, ss0, hs3, ss3);
    assert forall|k: int| 0 <= k < hs0.len() implies #[trigger] hs3[k] == hs0[k] by {
        assert(hs3.drop_last()[k] == hs2.drop_last()[k]);
        assert(hs2.drop_last()[k] == hs1.drop_last()[k]);
        assert(hs1.drop_last()[k] == hs0[k]);
    }
    assert forall|q: int, n: Seq<i8>| 0 <= q <= hs0.len() implies #[trigger] lookup(hs3, q, n) == lookup(hs0, q, n) by { lookup_below(hs3, hs0, q, n); }
    assert forall|j: int| 0 <= j < args.len() implies ({
            let p = lookup(hs3, hs3.len() as int, czstr((#[trigger] params[j])@));
            1 <= p <= ss3.len() && sym_view(ss3[p - 1]) == argument(params[j]@, args[j]@, hs0.len() as usize) }) by {
        assert(bound(hs3.last(), ss3, params, args, hs0.len() as usize, j));
    }
    assert forall|n: Seq<i8>| !names(params, 0, params.len() as int, n) implies #[trigger] lookup(hs3, hs3.len() as int, n) == lookup(hs0, body_scope(sym, st0) as int, n) by {
        assert(!hs3.last().symbols@.contains_key(n)) by { if hs3.last().symbols@.contains_key(n) { assert(hs2.last().symbols@.contains_key(n) || names(params, 0, args.len() as int, n)); } }
        assert(hs3.last().parent_scope == body_scope(sym, st0));
        assert(lookup(hs3, body_scope(sym, st0) as int, n) == lookup(hs0, body_scope(sym, st0) as int, n));
    }
}
// when the call is over every name means what it meant before
pub proof fn lemma_return(sym: SymS, params: Seq<Vec<i8>>, args: Seq<Qv>, st0: template_stack, hs0: Seq<template_scope>, ss0: Seq<template_symbol>,
        st1: template_stack, hs1: Seq<template_scope>, st2: template_stack, hs2: Seq<template_scope>, hs3: Seq<template_scope>, ss3: Seq<template_symbol>,
        st4: template_stack, hs4: Seq<template_scope>, st5: template_stack, hs5: Seq<template_scope>)
    requires
        called(sym, params, args, st0, hs0, ss0, st1, hs1, st2, hs2, hs3, ss3), names_ok(params), args.len() == params.len(), ss0.len() <= usize::MAX, ss3.len() <= usize::MAX,
        grown(hs3, hs4), popped(st4, hs4, st5, hs5),      // the body may have defined templates in its own scope
    ensures hs5 == hs0, st5 == st0,
{
    arguments_bound(0, params, args, hs0.len() as usize, hs2, ss0, hs3, ss3);
    assert(hs5 =~= hs0);
}
// 1.4-: as long as only such templates have been called, where it was called is the innermost scope of the caller
pub proof fn lemma_dynamic(sym: SymS, params: Seq<Vec<i8>>, args: Seq<Qv>, st0: template_stack, hs0: Seq<template_scope>, ss0: Seq<template_symbol>,
        st1: template_stack, hs1: Seq<template_scope>, st2: template_stack, hs2: Seq<template_scope>, hs3: Seq<template_scope>, ss3: Seq<template_symbol>)
    requires
        called(sym, params, args, st0, hs0, ss0, st1, hs1, st2, hs2, hs3, ss3), st0.parent_1_4 == hs0.len(), s_file_version(sym.content.file) < 105,
        names_ok(params), args.len() == params.len(), ss0.len() <= usize::MAX, ss3.len() <= usize::MAX,
    ensures body_scope(sym, st0) == hs0.len(), st2.parent_1_4 == hs3.len(),
{
    arguments_bound(0, params, args, hs0.len() as usize, hs2, ss0, hs3, ss3);
}
