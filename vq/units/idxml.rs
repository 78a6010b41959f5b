// ---------------------------------------------------------------- vector<string>
pub open spec fn strs(v: Seq<Vec<i8>>) -> Seq<Seq<i8>> { v.map(|i: int, x: Vec<i8>| x@) }
// std::sort : the same strings, in some order
#[verifier::external_body]
pub fn vec_str_sort(v: Vec<Vec<i8>>) -> (r: Vec<Vec<i8>>)
    ensures strs(r@).to_multiset() == strs(v@).to_multiset(), r@.len() == v@.len(),
        forall|w: Seq<i8>| strs(r@).contains(w) == strs(v@).contains(w),
{ unimplemented!() }
pub fn vec_str_find(v: &Vec<Vec<i8>>, w: &[i8]) -> (r: usize)
    ensures r <= v@.len(), (r < v@.len()) == strs(v@).contains(w@),
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), forall|k: int| 0 <= k < i ==> v@[k]@ != w@,
        decreases v@.len() - i
    {
        if slice_eq(v[i].as_slice(), w) { assert(strs(v@)[i as int] == w@); return i; }
        i = i + 1;
    }
    assert(forall|k: int| 0 <= k < v@.len() ==> strs(v@)[k] == v@[k]@);
    i
}
// ---------------------------------------------------------------- the callback as a recorder
pub struct Events<'a> { pub src: &'a [i8], pub ids: Vec<Psv<'a>>, pub state: u8 }
pub fn events_new<'a>() -> (r: Events<'a>) ensures r.state == 0, r.ids@.len() == 0 { Events { src: empty_slice(), ids: Vec::new(), state: 0 } }
pub fn events_start<'a>(e: &mut Events<'a>, s: &'a [i8])
    requires old(e).state == 0, old(e).ids@.len() == 0,
    ensures final(e).state == 1, final(e).src@ == s@, final(e).ids@.len() == 0,
{ e.state = 1; e.src = s; }
pub fn events_id_value<'a>(e: &mut Events<'a>, v: Psv<'a>)
    requires old(e).state == 1, v.b.s@ == old(e).src@, v.wf(),
    ensures final(e).state == 1, final(e).src@ == old(e).src@, final(e).ids@ == old(e).ids@.push(v),
{ e.ids.push(v); }
pub fn events_finish<'a>(e: &mut Events<'a>, s: &'a [i8])
    requires old(e).state == 1, s@ == old(e).src@,
    ensures final(e).state == 2, final(e).src@ == old(e).src@, final(e).ids@ == old(e).ids@,
{ e.state = 2; }
pub open spec fn spans(v: Seq<Psv>) -> Seq<(int, int)> { v.map(|i: int, x: Psv| (x.b.i as int, x.b.i + x.n)) }
pub proof fn lemma_spans_push(v: Seq<Psv>, x: Psv)
    ensures spans(v.push(x)) =~= spans(v).push((x.b.i as int, x.b.i + x.n)),
{ }

// ---------------------------------------------------------------- where the ids are
pub open spec fn ws() -> Seq<i8> { b" \t\n\r" }
pub open spec fn ws_gt() -> Seq<i8> { b" \t\n\r>" }
pub open spec fn eq_ws() -> Seq<i8> { b"= \t\n\r" }
pub open spec fn eq_ws_gt() -> Seq<i8> { b"= \t\n\r>" }
pub open spec fn is_name_start(c: int) -> bool { is_alpha(c) || c == 95 || c == 58 }
pub open spec fn is_id_attribute(n: Seq<i8>) -> bool { n == b"id" || n == b"linkend" || n == b"linkends" || n == b"arearefs" }
// an attribute starting at i: name [a, n), value [v, e)
pub struct Attr { pub a: int, pub n: int, pub v: int, pub e: int, pub ok: bool, pub stop: int }
pub open spec fn attr(s: Seq<i8>, i: int) -> Attr {
    let a = some_of(s, ws(), i);
    let n = first_of(s, eq_ws_gt(), a);
    if n >= s.len() || s[n] == 62 { Attr { a, n, v: 0, e: 0, ok: false, stop: n } }
    else {
        let v = some_of(s, eq_ws(), n + 1);
        if v >= s.len() || (s[v] != 34 && s[v] != 39) { Attr { a, n, v, e: 0, ok: false, stop: v } }
        else {
            let e = first_of(s, seq![s[v]], v + 1);
            if e >= s.len() { Attr { a, n, v: v + 1, e, ok: false, stop: e } } else { Attr { a, n, v: v + 1, e, ok: true, stop: e + 1 } }
        }
    }
}
pub proof fn lemma_attr(s: Seq<i8>, i: int)
    requires 0 <= i <= s.len(),
    ensures attr(s, i).ok ==> i < attr(s, i).v <= attr(s, i).e < attr(s, i).stop <= s.len() && i <= attr(s, i).a <= attr(s, i).n < attr(s, i).v,
        i <= attr(s, i).stop <= s.len(),
{
    lemma_some_of(s, ws(), i);
    let a = some_of(s, ws(), i);
    lemma_first_of(s, eq_ws_gt(), a);
    let n = first_of(s, eq_ws_gt(), a);
    if n < s.len() {
        lemma_some_of(s, eq_ws(), n + 1);
        let v = some_of(s, eq_ws(), n + 1);
        if v < s.len() { lemma_first_of(s, seq![s[v]], v + 1); }
    }
}
// end of the attributes from i, and the id values among them
pub open spec fn attrs_end(s: Seq<i8>, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i > s.len() { i } else { let t = attr(s, i); if t.ok && t.stop > i && t.stop <= s.len() { attrs_end(s, t.stop) } else { t.stop } } }
pub open spec fn attrs_ids(s: Seq<i8>, i: int) -> Seq<(int, int)>
    decreases s.len() - i
{
    if i < 0 || i > s.len() { seq![] } else {
        let t = attr(s, i);
        if t.ok && t.stop > i && t.stop <= s.len() {
            (if is_id_attribute(s.subrange(t.a, t.n)) { seq![(t.v, t.e)] } else { seq![] }) + attrs_ids(s, t.stop)
        } else { seq![] }
    }
}
pub proof fn lemma_attrs_end(s: Seq<i8>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= attrs_end(s, i) <= s.len(),
    decreases s.len() - i
{ lemma_attr(s, i); let t = attr(s, i); if t.ok && t.stop > i && t.stop <= s.len() { lemma_attrs_end(s, t.stop); } }
pub open spec fn escape_pre() -> Seq<i8> { b"!--quickbook-escape-prefix-->" }
pub open spec fn escape_post() -> Seq<i8> { b"<!--quickbook-escape-postfix-->" }
// what follows a '<' at i - 1: where the next scan starts
pub open spec fn markup_end(s: Seq<i8>, i: int) -> int {
    if at(s, i, escape_pre()) { past(s, escape_post(), i + escape_pre().len()) }
    else if s[i] == 63 { past(s, b"?>", i + 1) }
    else if s[i] == 33 { if at(s, i, b"!--") { past(s, b"-->", i + 3) } else { past(s, b">", i) } }
    else if is_name_start(s[i] as int) { attrs_end(s, first_of(s, ws_gt(), i)) }
    else { past(s, b">", i) }
}
pub open spec fn markup_ids(s: Seq<i8>, i: int) -> Seq<(int, int)> {
    if !at(s, i, escape_pre()) && is_name_start(s[i] as int) { attrs_ids(s, first_of(s, ws_gt(), i)) } else { seq![] }
}
pub open spec fn id_values(s: Seq<i8>, i: int) -> Seq<(int, int)>
    decreases s.len() - i
{
    let p = past(s, b"<", i);
    if i < 0 || p >= s.len() || markup_end(s, p) <= i || markup_end(s, p) > s.len() { seq![] }
    else { markup_ids(s, p) + id_values(s, markup_end(s, p)) }
}
pub proof fn lemma_markup_end(s: Seq<i8>, i: int)
    requires 0 <= i < s.len(),
    ensures i <= markup_end(s, i) <= s.len(),
{
    let p = escape_pre();
    assert(p.len() == 29);
    if at(s, i, escape_pre()) { lemma_past(s, escape_post(), i + 29); }
    else if s[i] == 63 { lemma_past(s, b"?>", i + 1); }
    else if s[i] == 33 { if at(s, i, b"!--") { lemma_past(s, b"-->", i + 3); } else { lemma_past(s, b">", i); } }
    else if is_name_start(s[i] as int) { lemma_first_of(s, ws_gt(), i); lemma_attrs_end(s, first_of(s, ws_gt(), i)); }
    else { lemma_past(s, b">", i); }
}
// the id values lie inside the text, in order and apart
pub open spec fn ordered(v: Seq<(int, int)>, a: int, b: int) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> a <= #[trigger] v[k].0 <= v[k].1 <= b
    &&& forall|j: int, k: int| 0 <= j < k < v.len() ==> #[trigger] v[j].1 <= #[trigger] v[k].0
}
pub proof fn lemma_ordered_concat(u: Seq<(int, int)>, v: Seq<(int, int)>, a: int, m: int, b: int)
    requires ordered(u, a, m), ordered(v, m, b), a <= m <= b,
    ensures ordered(u + v, a, b),
{
    let w = u + v;
    assert forall|k: int| 0 <= k < w.len() implies a <= (#[trigger] w[k]).0 <= w[k].1 <= b by {
        if k < u.len() { assert(w[k] == u[k]); } else { assert(w[k] == v[k - u.len()]); }
    }
    assert forall|j: int, k: int| 0 <= j < k < w.len() implies (#[trigger] w[j]).1 <= (#[trigger] w[k]).0 by {
        if j < u.len() { assert(w[j] == u[j]); } else { assert(w[j] == v[j - u.len()]); }
        if k < u.len() { assert(w[k] == u[k]); } else { assert(w[k] == v[k - u.len()]); }
    }
}
pub proof fn lemma_attrs_ids(s: Seq<i8>, i: int)
    requires 0 <= i <= s.len(),
    ensures ordered(attrs_ids(s, i), i, attrs_end(s, i)), attrs_end(s, i) <= s.len(),
    decreases s.len() - i
{
    lemma_attr(s, i); lemma_attrs_end(s, i);
    let t = attr(s, i);
    if t.ok && t.stop > i && t.stop <= s.len() { lemma_attrs_ids(s, t.stop); lemma_attrs_end(s, t.stop); }
}
pub proof fn lemma_id_values(s: Seq<i8>, i: int)
    requires 0 <= i <= s.len(),
    ensures ordered(id_values(s, i), i, s.len() as int),
    decreases s.len() - i
{
    let p = past(s, b"<", i);
    lemma_past(s, b"<", i);
    if p < s.len() {
        lemma_markup_end(s, p);
        let m = markup_end(s, p);
        if !at(s, p, escape_pre()) && is_name_start(s[p] as int) { lemma_first_of(s, ws_gt(), p); lemma_attrs_ids(s, first_of(s, ws_gt(), p)); }
        lemma_id_values(s, m);
        let u = markup_ids(s, p); let v = id_values(s, m);
        assert(ordered(u, i, m));
        assert(ordered(v, m, s.len() as int));
        if m > i { lemma_ordered_concat(u, v, i, m, s.len() as int); assert(id_values(s, i) == u + v); }
    }
}

// ---------------------------------------------------------------- does the text hold a <link ...> tag?
pub open spec fn tag_end(s: Seq<i8>, i: int) -> int
    decreases s.len() - i
{
    let j = first_of(s, b"\"'>", i);
    if i < 0 || j < i || j >= s.len() || s[j] == 62 { j }
    else {
        let e = first_of(s, seq![s[j]], j + 1);
        if e >= s.len() || e < i { e } else { tag_end(s, e + 1) }
    }
}
pub proof fn lemma_tag_end(s: Seq<i8>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= tag_end(s, i) <= s.len(),
    decreases s.len() - i
{
    lemma_first_of(s, b"\"'>", i);
    let j = first_of(s, b"\"'>", i);
    if j < s.len() && s[j] != 62 { lemma_first_of(s, seq![s[j]], j + 1); let e = first_of(s, seq![s[j]], j + 1); if e < s.len() { lemma_tag_end(s, e + 1); } }
}
pub open spec fn link_next(s: Seq<i8>, p: int) -> int {
    if s[p] == 63 { past(s, b"?>", p + 1) }
    else if s[p] == 33 { if at(s, p, b"!--") { past(s, b"-->", p + 3) } else { past(s, b">", p) } }
    else if is_name_start(s[p] as int) { tag_end(s, first_of(s, ws_gt(), p)) }
    else { past(s, b">", p) }
}
pub open spec fn has_link(s: Seq<i8>, i: int) -> bool
    decreases s.len() - i
{
    let p = past(s, b"<", i);
    if i < 0 || p >= s.len() { false }
    else if is_name_start(s[p] as int) && s.subrange(p, first_of(s, ws_gt(), p)) == b"link" { true }
    else { let m = link_next(s, p); if m <= i || m > s.len() { false } else { has_link(s, m) } }
}
pub proof fn lemma_link_next(s: Seq<i8>, p: int)
    requires 0 <= p < s.len(),
    ensures p <= link_next(s, p) <= s.len(), p <= first_of(s, ws_gt(), p) <= s.len(),
{
    lemma_first_of(s, ws_gt(), p);
    if s[p] == 63 { lemma_past(s, b"?>", p + 1); }
    else if s[p] == 33 { if at(s, p, b"!--") { lemma_past(s, b"-->", p + 3); } else { lemma_past(s, b">", p); } }
    else if is_name_start(s[p] as int) { lemma_tag_end(s, first_of(s, ws_gt(), p)); }
    else { lemma_past(s, b">", p); }
}
