// pretty printing of XML: only white space changes
pub open spec fn ws(c: i8) -> bool { is_space(c as int) }
pub open spec fn all_ws(s: Seq<i8>) -> bool { forall|k: int| 0 <= k < s.len() ==> ws(#[trigger] s[k]) }
pub open spec fn all_sp(s: Seq<i8>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == 32 }
pub open spec fn ends_ws(s: Seq<i8>) -> bool { s.len() > 0 && ws(s.last()) }
pub open spec fn spaces(n: int) -> Seq<i8> { Seq::new(n as nat, |k: int| 32i8) }

// ---- the text with every run of white space replaced by one space
pub open spec fn collapse1(r: Seq<i8>, c: i8) -> Seq<i8> {
    if !ws(c) { r.push(c) } else if r.len() > 0 && r.last() == 32 { r } else { r.push(32) }
}
pub open spec fn norm(s: Seq<i8>) -> Seq<i8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { collapse1(norm(s.drop_last()), s.last()) }
}
pub proof fn lemma_norm_push(s: Seq<i8>, c: i8)
    ensures norm(s.push(c)) == collapse1(norm(s), c),
{ assert(s.push(c).drop_last() =~= s); }
pub proof fn lemma_norm_ends(s: Seq<i8>)
    ensures
        s.len() > 0 ==> norm(s).len() > 0,
        ends_ws(s) <==> (norm(s).len() > 0 && norm(s).last() == 32),
    decreases s.len()
{ if s.len() > 0 { lemma_norm_ends(s.drop_last()); } }
pub proof fn lemma_norm_app(a: Seq<i8>, a2: Seq<i8>, b: Seq<i8>)
    requires norm(a) == norm(a2),
    ensures norm(a + b) == norm(a2 + b),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a && a2 + b =~= a2); }
    else {
        lemma_norm_app(a, a2, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last() && (a2 + b).drop_last() =~= a2 + b.drop_last());
        assert((a + b).last() == b.last() && (a2 + b).last() == b.last());
    }
}
pub proof fn lemma_norm_ws(s: Seq<i8>, w: Seq<i8>)
    requires all_ws(w), w.len() > 0,
    ensures norm(s + w) == (if ends_ws(s) { norm(s) } else { norm(s).push(32) }), ends_ws(s + w),
    decreases w.len()
{
    let d = w.drop_last();
    assert((s + w).drop_last() =~= s + d && (s + w).last() == w.last());
    assert(ws(w[w.len() - 1]));
    lemma_norm_ends(s);
    if d.len() > 0 {
        assert forall|k: int| 0 <= k < d.len() implies ws(#[trigger] d[k]) by { assert(ws(w[k])); }
        lemma_norm_ws(s, d);
        lemma_norm_ends(s + d);
    } else { assert(s + d =~= s); }
}
// only the white space at the end differs
pub proof fn lemma_norm_tail(t: Seq<i8>, v: Seq<i8>, w: Seq<i8>)
    requires all_ws(v), all_ws(w), w.len() > 0,
    ensures norm(t + w) == (if ends_ws(t + v) { norm(t + v) } else { norm(t + v).push(32) }),
{
    lemma_norm_ws(t, w);
    lemma_norm_ends(t);
    if v.len() > 0 { lemma_norm_ws(t, v); } else { assert(t + v =~= t); }
}
pub open spec fn norm1(s: Seq<i8>) -> Seq<i8> { norm(s.push(32)) }

// ---- the text without the white space at its end
pub open spec fn rt(s: Seq<i8>) -> Seq<i8>
    decreases s.len()
{
    if s.len() > 0 && ws(s.last()) { rt(s.drop_last()) } else { s }
}
pub open spec fn rtsp(s: Seq<i8>) -> Seq<i8>
    decreases s.len()
{
    if s.len() > 0 && s.last() == 32 { rtsp(s.drop_last()) } else { s }
}
pub proof fn lemma_rt(s: Seq<i8>)
    ensures
        rt(s).len() <= s.len(), s == rt(s) + s.subrange(rt(s).len() as int, s.len() as int), all_ws(s.subrange(rt(s).len() as int, s.len() as int)),
        rt(s).len() == 0 || !ws(rt(s).last()),
        forall|k: int| 0 <= k < rt(s).len() ==> #[trigger] rt(s)[k] == s[k],
    decreases s.len()
{
    if s.len() > 0 && ws(s.last()) {
        let d = s.drop_last();
        lemma_rt(d);
        let n = rt(d).len() as int;
        let w = s.subrange(n, s.len() as int);
        assert forall|k: int| 0 <= k < w.len() implies ws(#[trigger] w[k]) by {
            if k < w.len() - 1 { assert(w[k] == d.subrange(n, d.len() as int)[k]); } else { assert(w[k] == s.last()); }
        }
        assert(s =~= rt(s) + w) by {
            assert forall|k: int| 0 <= k < n implies rt(s)[k] == s[k] by { assert(rt(d)[k] == d[k]); }
        }
    } else { assert(s =~= s + s.subrange(s.len() as int, s.len() as int)); }
}
pub proof fn lemma_rt_cut(s: Seq<i8>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| k <= i < s.len() ==> ws(#[trigger] s[i]),
    ensures rt(s.subrange(0, k)) == rt(s), k == 0 || !ws(s[k - 1]) ==> rt(s) == s.subrange(0, k),
    decreases s.len()
{
    if k < s.len() {
        assert(ws(s[s.len() - 1]));
        let d = s.drop_last();
        assert forall|i: int| k <= i < d.len() implies ws(#[trigger] d[i]) by { assert(ws(s[i])); }
        lemma_rt_cut(d, k);
        assert(d.subrange(0, k) =~= s.subrange(0, k));
    } else { assert(s.subrange(0, k) =~= s); }
}
pub proof fn lemma_rt_app(s: Seq<i8>, w: Seq<i8>)
    requires all_ws(w),
    ensures rt(s + w) == rt(s),
{
    let z = s + w;
    assert forall|i: int| s.len() <= i < z.len() implies ws(#[trigger] z[i]) by { assert(ws(w[i - s.len()])); }
    lemma_rt_cut(z, s.len() as int);
    assert(z.subrange(0, s.len() as int) =~= s);
}
pub proof fn lemma_rtsp_cut(s: Seq<i8>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| k <= i < s.len() ==> #[trigger] s[i] == 32, k == 0 || s[k - 1] != 32,
    ensures rtsp(s) == s.subrange(0, k),
    decreases s.len()
{
    if k < s.len() {
        let d = s.drop_last();
        assert(s[s.len() - 1] == 32);
        assert forall|i: int| k <= i < d.len() implies #[trigger] d[i] == 32 by { assert(s[i] == 32); }
        lemma_rtsp_cut(d, k);
        assert(d.subrange(0, k) =~= s.subrange(0, k));
    } else { assert(s.subrange(0, k) =~= s); }
}
pub proof fn lemma_rtsp(s: Seq<i8>)
    ensures rtsp(s).len() <= s.len(), s == rtsp(s) + s.subrange(rtsp(s).len() as int, s.len() as int), all_ws(s.subrange(rtsp(s).len() as int, s.len() as int)),
        rtsp(s).len() == 0 || rtsp(s).last() != 32,
    decreases s.len()
{
    if s.len() > 0 && s.last() == 32 {
        let d = s.drop_last();
        lemma_rtsp(d);
        let n = rtsp(d).len() as int;
        let w = s.subrange(n, s.len() as int);
        assert forall|k: int| 0 <= k < w.len() implies ws(#[trigger] w[k]) by {
            if k < w.len() - 1 { assert(w[k] == d.subrange(n, d.len() as int)[k]); } else { assert(w[k] == s.last()); }
        }
        assert(s =~= rtsp(s) + w) by {
            let dd = rtsp(d) + d.subrange(n, d.len() as int);
            assert forall|k: int| 0 <= k < n implies rtsp(s)[k] == s[k] by { assert(dd[k] == d[k]); }
        }
    } else { assert(s =~= s + s.subrange(s.len() as int, s.len() as int)); }
}

// ---- the characters which are not white space
pub open spec fn ns(s: Seq<i8>) -> Seq<i8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if ws(s.last()) { ns(s.drop_last()) } else { ns(s.drop_last()).push(s.last()) }
}
pub proof fn lemma_ns_app(a: Seq<i8>, b: Seq<i8>)
    ensures ns(a + b) == ns(a) + ns(b),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(ns(a) + ns(b) =~= ns(a)); }
    else {
        lemma_ns_app(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last() && (a + b).last() == b.last());
        if !ws(b.last()) { assert((ns(a) + ns(b.drop_last())).push(b.last()) =~= ns(a) + ns(b)); }
    }
}
pub proof fn lemma_ns_norm(s: Seq<i8>)
    ensures ns(norm(s)) == ns(s),
    decreases s.len()
{
    if s.len() > 0 {
        let d = norm(s.drop_last());
        lemma_ns_norm(s.drop_last());
        if !ws(s.last()) { assert(d.push(s.last()).drop_last() =~= d); }
        else if !(d.len() > 0 && d.last() == 32) { assert(d.push(32).drop_last() =~= d); }
    }
}
pub proof fn lemma_ns_ws(s: Seq<i8>)
    requires all_ws(s),
    ensures ns(s) == Seq::<i8>::empty(),
    decreases s.len()
{
    if s.len() > 0 {
        assert(ws(s[s.len() - 1]));
        assert forall|k: int| 0 <= k < s.drop_last().len() implies ws(#[trigger] s.drop_last()[k]) by { assert(ws(s[k])); }
        lemma_ns_ws(s.drop_last());
    }
}
pub proof fn lemma_ns_rt(s: Seq<i8>)
    ensures ns(rt(s)) == ns(s),
    decreases s.len()
{ if s.len() > 0 && ws(s.last()) { lemma_ns_rt(s.drop_last()); } }

// ---- the printer
pub open spec fn pok(p: pretty_printer) -> bool { p.current_indent >= 0 && 0 <= p.column <= p.out@.len() }
// what was printed last really is the end of the output
pub open spec fn seen(p: pretty_printer) -> bool { ws(p.prev) ==> ends_ws(p.out@) }
pub open spec fn room(p: pretty_printer, n: int) -> bool { p.column + n < 0x7fff_fff0 && p.current_indent + n < 0x7fff_fff0 }
pub open spec fn same_but_out(a: pretty_printer, b: pretty_printer) -> bool { a.current_indent == b.current_indent && a.linewidth == b.linewidth }
pub open spec fn max2(a: int, b: int) -> int { if a > b { a } else { b } }
// s printed after o, perhaps with white space between them
pub open spec fn printed(o: Seq<i8>, o2: Seq<i8>, s: Seq<i8>) -> bool { norm(o2) == norm(o + s) || norm(o2) == norm(o.push(32) + s) }
// the tag s of a block printed: whatever white space there was at the end of o, and white space after it
pub open spec fn printed_block(o: Seq<i8>, o2: Seq<i8>, s: Seq<i8>) -> bool {
    norm(o2) == norm(rt(o) + rt(s) + seq![32i8]) || norm(o2) == norm(rt(o).push(32) + rt(s) + seq![32i8])
}
// printing a block's tag loses and adds nothing but white space
pub proof fn lemma_printed(o: Seq<i8>, o2: Seq<i8>, s: Seq<i8>)
    ensures printed(o, o2, s) ==> ns(o2) == ns(o) + ns(s), printed_block(o, o2, s) ==> ns(o2) == ns(o) + ns(s),
        norm(o2) == norm(o + s) ==> ns(o2) == ns(o) + ns(s),
{
    let sp = seq![32i8];
    assert(all_ws(sp));
    lemma_ns_ws(sp);
    assert(o.push(32) =~= o + sp && rt(o).push(32) =~= rt(o) + sp);
    lemma_ns_app(o, s); lemma_ns_app(o, sp); lemma_ns_app(o + sp, s);
    lemma_ns_norm(o2); lemma_ns_norm(o + s); lemma_ns_norm(o.push(32) + s);
    assert(ns(o) + Seq::<i8>::empty() =~= ns(o));
    let a = rt(o) + rt(s); let b = rt(o).push(32) + rt(s);
    lemma_ns_rt(o); lemma_ns_rt(s);
    lemma_ns_app(rt(o), rt(s)); lemma_ns_app(rt(o), sp); lemma_ns_app(rt(o) + sp, rt(s)); lemma_ns_app(a, sp); lemma_ns_app(b, sp);
    lemma_ns_norm(a + sp); lemma_ns_norm(b + sp);
    assert(ns(a) + Seq::<i8>::empty() =~= ns(a) && ns(b) + Seq::<i8>::empty() =~= ns(b));
}
// ---- what break_line and print do to the collapsed text
pub proof fn lemma_break(s: Seq<i8>, w: Seq<i8>)
    requires all_ws(w), w.len() > 0,
    ensures norm(rtsp(s) + w) == (if ends_ws(s) { norm(s) } else { norm(s).push(32) }), ends_ws(rtsp(s) + w), rt(rtsp(s) + w) == rt(s),
        norm(rtsp(s) + w) == norm(s.push(32)),
{
    lemma_rtsp(s);
    let v = s.subrange(rtsp(s).len() as int, s.len() as int);
    lemma_norm_tail(rtsp(s), v, w);
    lemma_norm_ws(rtsp(s), w);
    lemma_rt_app(rtsp(s), w); lemma_rt_app(rtsp(s), v);
    lemma_norm_push(s, 32); lemma_norm_ends(s);
}
pub proof fn lemma_nl_spaces(n: int)
    requires n >= 0,
    ensures all_ws(seq![10i8] + spaces(n)), (seq![10i8] + spaces(n)).len() == n + 1,
{
    let w = seq![10i8] + spaces(n);
    assert forall|k: int| 0 <= k < w.len() implies ws(#[trigger] w[k]) by { if k > 0 { assert(w[k] == spaces(n)[k - 1]); } }
}
pub proof fn lemma_norm_eq_push(a: Seq<i8>, b: Seq<i8>, c: i8)
    ensures norm(a) == norm(b) ==> norm(a.push(c)) == norm(b.push(c)),
{ lemma_norm_push(a, c); lemma_norm_push(b, c); }
pub proof fn lemma_push_ws(s: Seq<i8>, c: i8, d: i8)
    ensures ws(c) && ws(d) ==> norm(s.push(c)) == norm(s.push(d)), ws(c) && ends_ws(s) ==> norm(s.push(c)) == norm(s),
{ lemma_norm_push(s, c); lemma_norm_push(s, d); lemma_norm_ends(s); }

// ---- code: its lines, without the spaces at their ends; each line ended by one newline
pub open spec fn to_eol(s: Seq<i8>, i: int) -> bool
    decreases s.len() - i
{
    0 <= i < s.len() && (s[i] == 10 || s[i] == 13 || (s[i] == 32 && to_eol(s, i + 1)))
}
pub open spec fn eol_len(s: Seq<i8>, i: int) -> int {
    if i + 1 < s.len() && ((s[i] == 10 && s[i + 1] == 13) || (s[i] == 13 && s[i + 1] == 10)) { 2 } else { 1 }
}
pub open spec fn code_text(s: Seq<i8>, i: int) -> Seq<i8>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { Seq::empty() }
    else if s[i] == 10 || s[i] == 13 { seq![10i8] + code_text(s, i + eol_len(s, i)) }
    else if s[i] == 32 && to_eol(s, i) { code_text(s, i + 1) }
    else { seq![s[i]] + code_text(s, i + 1) }
}
pub open spec fn code_fin(out: Seq<i8>, s: Seq<i8>, i: int) -> Seq<i8> {
    if to_eol(s, i) { rtsp(out) + code_text(s, i) } else { out + code_text(s, i) }
}
pub proof fn lemma_rtsp_last(s: Seq<i8>)
    ensures s.len() > 0 && s.last() != 32 ==> rtsp(s) == s, rtsp(s.push(32)) == rtsp(s),
{ assert(s.push(32).drop_last() =~= s); }
pub proof fn lemma_code_step(out: Seq<i8>, s: Seq<i8>, i: int)
    requires 0 <= i < s.len(),
    ensures
        s[i] == 10 || s[i] == 13 ==> code_fin(rtsp(out).push(10), s, i + eol_len(s, i)) == code_fin(out, s, i),
        s[i] != 10 && s[i] != 13 ==> code_fin(out.push(s[i]), s, i + 1) == code_fin(out, s, i),
{
    let a = rtsp(out).push(10);
    lemma_rtsp_last(a); lemma_rtsp_last(out);
    if s[i] == 10 || s[i] == 13 {
        let j = i + eol_len(s, i);
        assert(rtsp(out) + (seq![10i8] + code_text(s, j)) =~= a + code_text(s, j));
    } else if s[i] == 32 {
        assert(out.push(32) + code_text(s, i + 1) =~= out + (seq![32i8] + code_text(s, i + 1)));
    } else {
        let b = out.push(s[i]);
        lemma_rtsp_last(b);
        assert(b + code_text(s, i + 1) =~= out + (seq![s[i]] + code_text(s, i + 1)));
    }
}
// nothing but white space is lost from code
pub proof fn lemma_ns_code(s: Seq<i8>, i: int)
    requires 0 <= i <= s.len(),
    ensures ns(code_text(s, i)) == ns(s.subrange(i, s.len() as int)),
    decreases s.len() - i
{
    let n = s.len() as int;
    if i < n {
        let k = if s[i] == 10 || s[i] == 13 { eol_len(s, i) } else { 1 };
        lemma_ns_code(s, i + k);
        let h = s.subrange(i, i + k);
        assert(s.subrange(i, n) =~= h + s.subrange(i + k, n));
        lemma_ns_app(h, s.subrange(i + k, n));
        if ws(s[i]) {
            assert forall|q: int| 0 <= q < h.len() implies ws(#[trigger] h[q]) by {}
            lemma_ns_ws(h);
            assert(Seq::<i8>::empty() + ns(s.subrange(i + k, n)) =~= ns(s.subrange(i + k, n)));
            assert(all_ws(seq![10i8]) && all_ws(seq![s[i]]));
            lemma_ns_ws(seq![10i8]); lemma_ns_ws(seq![s[i]]);
            lemma_ns_app(seq![10i8], code_text(s, i + k)); lemma_ns_app(seq![s[i]], code_text(s, i + k));
            assert(Seq::<i8>::empty() + ns(code_text(s, i + k)) =~= ns(code_text(s, i + k)));
        } else {
            assert(h =~= seq![s[i]]);
            lemma_ns_app(h, code_text(s, i + k));
        }
    } else { assert(s.subrange(i, n) =~= Seq::<i8>::empty()); }
}
pub open spec fn at_line_start(o: Seq<i8>) -> Seq<i8> { if o.len() > 0 && o.last() == 10 { o } else { o.push(10) } }

// ---- open elements
pub struct TagStack { pub v: Vec<Vec<i8>> }
pub struct TagSet { pub v: Vec<Vec<i8>> }
pub fn tags_empty(t: &TagStack) -> (r: bool) ensures r == (t.v@.len() == 0) { t.v.len() == 0 }
pub fn tags_top<'a>(t: &'a TagStack) -> (r: &'a Vec<i8>) requires t.v@.len() > 0 ensures r@ == t.v@.last()@ { &t.v[t.v.len() - 1] }
pub fn tags_push(t: &mut TagStack, x: Vec<i8>) ensures final(t).v@ == old(t).v@.push(x) { t.v.push(x); }
pub fn tags_pop(t: &mut TagStack) requires old(t).v@.len() > 0 ensures final(t).v@ == old(t).v@.drop_last() { t.v.pop(); }
pub open spec fn block(t: TagSet, x: Seq<i8>) -> bool { exists|k: int| 0 <= k < t.v@.len() && #[trigger] t.v@[k]@ == x }
pub fn tags_find(t: &TagSet, x: &[i8]) -> (r: bool) ensures r == block(*t, x@) {
    let mut k: usize = 0;
    while k < t.v.len()
        invariant 0 <= k <= t.v@.len(), forall|q: int| 0 <= q < k ==> #[trigger] t.v@[q]@ != x@,
        decreases t.v@.len() - k,
    {
        if slice_eq(t.v[k].as_slice(), x) { assert(t.v@[k as int]@ == x@); return true; }
        k = k + 1;
    }
    false
}
// the number of open block elements
pub open spec fn depth(b: TagSet, t: Seq<Vec<i8>>) -> int
    decreases t.len()
{
    if t.len() == 0 { 0 } else { depth(b, t.drop_last()) + if block(b, t.last()@) { 1int } else { 0 } }
}
pub proof fn lemma_depth(b: TagSet, t: Seq<Vec<i8>>)
    ensures 0 <= depth(b, t) <= t.len(),
    decreases t.len()
{ if t.len() > 0 { lemma_depth(b, t.drop_last()); } }
// the state between two pieces of the document
pub open spec fn gok(g: tidy_grammar) -> bool {
    g.indent >= 0 && pok(g.state.printer) && seen(g.state.printer) && g.state.printer.current_indent == g.indent * depth(g.state.block_tags, g.state.tags.v@)
}
pub open spec fn same_tags(a: tidy_grammar, b: tidy_grammar) -> bool {
    a.state.tags == b.state.tags && a.state.block_tags == b.state.block_tags && a.indent == b.indent && a.is_html == b.is_html && a.state.current_tag == b.state.current_tag && a.state.printer.linewidth == b.state.printer.linewidth
}
pub open spec fn trim(s: Seq<i8>) -> Seq<i8>
    decreases s.len()
{ if s.len() > 0 && ws(s[0]) { trim(s.subrange(1, s.len() as int)) } else { rt(s) } }
pub fn TagSet_uninit() -> TagSet { TagSet { v: Vec::new() } }
pub fn TagStack_uninit() -> TagStack { TagStack { v: Vec::new() } }

pub proof fn lemma_printed_push(o: Seq<i8>, o2: Seq<i8>, s: Seq<i8>, t: Seq<i8>, f: int, i: int)
    requires 0 <= f <= i <= t.len(), s == t.subrange(f, i),
    ensures
        s.len() == 0 ==> o + s == o && o.push(32) + s == o.push(32),
        i < t.len() ==> t.subrange(f, i + 1) == s.push(t[i]) && o + t.subrange(f, i + 1) == (o + s).push(t[i]) && o.push(32) + t.subrange(f, i + 1) == (o.push(32) + s).push(t[i]),
        i < t.len() && norm(o2) == norm(o + s) ==> norm(o2.push(t[i])) == norm(o + t.subrange(f, i + 1)),
        i < t.len() && printed(o, o2, s) ==> printed(o, o2.push(t[i]), t.subrange(f, i + 1)),
{
    if s.len() == 0 { assert(o + s =~= o && o.push(32) + s =~= o.push(32)); }
    if i < t.len() {
        let u = t.subrange(f, i + 1);
        assert(u =~= s.push(t[i]));
        assert(o + u =~= (o + s).push(t[i]));
        assert(o.push(32) + u =~= (o.push(32) + s).push(t[i]));
        lemma_norm_eq_push(o2, o + s, t[i]);
        lemma_norm_eq_push(o2, o.push(32) + s, t[i]);
    }
}
pub proof fn lemma_block(o: Seq<i8>, o1: Seq<i8>, o2: Seq<i8>, o3: Seq<i8>, s: Seq<i8>)
    requires rt(o1) == rt(o), printed(o1, o2, rt(s)), norm(o3) == norm(o2.push(32)),
    ensures printed_block(o, o3, s),
{
    let x = rt(s);
    let sp = seq![32i8];
    assert(all_ws(sp));
    lemma_rt(o1);
    let r = rt(o);
    let w = o1.subrange(r.len() as int, o1.len() as int);
    assert(o1 == r + w);
    assert(r.push(32) =~= r + sp);
    lemma_norm_ws(r, sp);
    if w.len() > 0 { lemma_norm_ws(r, w); lemma_norm_app(o1, r.push(32), x); } else { assert(o1 =~= r); }
    let w2 = w.push(32);
    assert forall|k: int| 0 <= k < w2.len() implies ws(#[trigger] w2[k]) by { if k < w.len() { assert(ws(w[k])); } }
    lemma_norm_ws(r, w2);
    assert(o1.push(32) =~= r + w2);
    lemma_norm_app(o1.push(32), r.push(32), x);
    lemma_norm_push(o2, 32);
    lemma_norm_push(r + x, 32); lemma_norm_push(r.push(32) + x, 32);
    assert(r + x + sp =~= (r + x).push(32));
    assert(r.push(32) + x + sp =~= (r.push(32) + x).push(32));
}
// the end of a line is a space
pub proof fn lemma_line_end(o: Seq<i8>, n: int)
    requires n >= 0,
    ensures norm(rtsp(o) + (seq![10i8] + spaces(n))) == norm(o.push(32)), ends_ws(rtsp(o) + (seq![10i8] + spaces(n))),
{ lemma_nl_spaces(n); lemma_break(o, seq![10i8] + spaces(n)); }
pub proof fn lemma_depth_push(b: TagSet, t: Seq<Vec<i8>>, x: Vec<i8>, indent: int)
    requires indent >= 0,
    ensures
        depth(b, t.push(x)) == depth(b, t) + (if block(b, x@) { 1int } else { 0 }),
        block(b, x@) ==> indent * depth(b, t.push(x)) == indent * depth(b, t) + indent,
        indent * depth(b, t) >= 0, t.push(x).drop_last() == t,
{
    assert(t.push(x).drop_last() =~= t);
    lemma_depth(b, t);
    let d = depth(b, t);
    assert(indent * (d + 1) == indent * d + indent) by (nonlinear_arith);
    assert(indent * d >= 0) by (nonlinear_arith) requires indent >= 0, d >= 0;
}
pub proof fn lemma_block_imp(o: Seq<i8>, o2: Seq<i8>, s: Seq<i8>)
    ensures printed(o, o2, rt(s)) ==> printed_block(o, o2.push(32), s),
{ if printed(o, o2, rt(s)) { lemma_block(o, o, o2, o2.push(32), s); } }
