// ---------------------------------------------------------------- std::list<std::pair<std::string, std::string> >
pub struct Attr { pub first: Vec<i8>, pub second: Vec<i8> }
pub struct AttrList { pub v: Vec<Attr> }
pub fn AttrList_uninit() -> (r: AttrList) ensures r.v@.len() == 0 { AttrList { v: Vec::new() } }
impl Heap_xml_element {
    pub fn attributes_push(&mut self, p: usize, x: Attr) requires old(self).valid(p)
        ensures final(self).v@.len() == old(self).v@.len(), forall|k: int| 0 <= k < old(self).v@.len() && k != p - 1 ==> final(self).v@[k] == old(self).v@[k],
            final(self).o(p) == (xml_element { attributes_: final(self).o(p).attributes_, ..old(self).o(p) }), final(self).o(p).attributes_.v@ == old(self).o(p).attributes_.v@.push(x),
    { self.v[p - 1].attributes_.v.push(x); }
    pub fn attributes_set(&mut self, p: usize, i: usize, x: Vec<i8>) requires old(self).valid(p), i < old(self).o(p).attributes_.v@.len()
        ensures final(self).v@.len() == old(self).v@.len(), forall|k: int| 0 <= k < old(self).v@.len() && k != p - 1 ==> final(self).v@[k] == old(self).v@[k],
            final(self).o(p) == (xml_element { attributes_: final(self).o(p).attributes_, ..old(self).o(p) }),
            final(self).o(p).attributes_.v@ == old(self).o(p).attributes_.v@.update(i as int, Attr { second: x, ..old(self).o(p).attributes_.v@[i as int] }),
    { self.v[p - 1].attributes_.v[i].second = x; }
}
pub type Pair = (Seq<i8>, Seq<i8>);
pub open spec fn x_pairs(a: AttrList) -> Seq<Pair> { a.v@.map(|i: int, x: Attr| (x.first@, x.second@)) }
pub open spec fn x_key(a: Seq<Pair>, n: Seq<i8>, i: int) -> int
    decreases a.len() - i
{ if i < 0 || i >= a.len() || a[i].0 == n { i } else { x_key(a, n, i + 1) } }
// an attribute given again replaces the value of the first
pub open spec fn x_set(a: Seq<Pair>, n: Seq<i8>, v: Seq<i8>) -> Seq<Pair>
{ let k = x_key(a, n, 0); if 0 <= k < a.len() { a.update(k, (n, v)) } else { a.push((n, v)) } }
pub proof fn lemma_key(a: Seq<Pair>, n: Seq<i8>, i: int)
    requires 0 <= i <= a.len(),
    ensures i <= x_key(a, n, i) <= a.len(), x_key(a, n, i) < a.len() ==> a[x_key(a, n, i)].0 == n,
    decreases a.len() - i
{ if i < a.len() && a[i].0 != n { lemma_key(a, n, i + 1); } }
// quickbook::detail::decode_string
pub uninterp spec fn x_decoded(s: Seq<i8>) -> Seq<i8>;
#[verifier::external_body]
pub fn decode_string_(s: &[i8]) -> (r: Vec<i8>) ensures r@ == x_decoded(s@), { unimplemented!() }
// ---------------------------------------------------------------- the tree builder: what it is told, in order
pub enum Told { Add(usize), Start, End }
pub struct XBuilder { pub log: Vec<Told>, pub open: Vec<usize>, pub cur: usize }
pub fn XBuilder_uninit() -> (r: XBuilder) ensures r.log@.len() == 0, r.open@.len() == 0, r.cur == 0 { xb_new() }
pub fn xb_new() -> (r: XBuilder) ensures r.log@ =~= Seq::<Told>::empty(), r.open@ =~= Seq::<usize>::empty(), r.cur == 0 { XBuilder { log: Vec::new(), open: Vec::new(), cur: 0 } }
pub fn xb_add_element(b: &mut XBuilder, n: usize)
    requires n != 0, forall|k: int| 0 <= k < old(b).log@.len() ==> #[trigger] old(b).log@[k] != Told::Add(n),     // a node is put into a tree once
    ensures final(b).log@ == old(b).log@.push(Told::Add(n)), final(b).open == old(b).open, final(b).cur == n,
{ b.log.push(Told::Add(n)); b.cur = n; }
pub fn xb_start_children(b: &mut XBuilder)
    requires old(b).cur != 0, old(b).log@.len() > 0, old(b).log@.last() == Told::Add(old(b).cur),     // a node has one list of children
    ensures final(b).log@ == old(b).log@.push(Told::Start), final(b).open@ == old(b).open@.push(old(b).cur), final(b).cur == 0,
{ b.log.push(Told::Start); b.open.push(b.cur); b.cur = 0; }
pub fn xb_end_children(b: &mut XBuilder)
    requires old(b).open@.len() > 0,
    ensures final(b).log@ == old(b).log@.push(Told::End), final(b).open@ == old(b).open@.drop_last(), final(b).cur == old(b).open@.last(),
{ b.log.push(Told::End); let n = b.open.len(); b.cur = b.open[n - 1]; vec_pop(&mut b.open); }
pub fn xb_parent(b: &XBuilder) -> (r: usize) ensures r == (if b.open@.len() > 0 { b.open@.last() } else { 0 })
{ let n = b.open.len(); if n > 0 { b.open[n - 1] } else { 0 } }
pub fn xb_current(b: &XBuilder) -> (r: usize) ensures r == b.cur { b.cur }
pub fn xb_release(b: &mut XBuilder) -> (r: XBuilder)
    ensures r == *old(b), final(b).log@.len() == 0, final(b).open@.len() == 0, final(b).cur == 0,
{
    let mut r = xb_new();
    std::mem::swap(b, &mut r);
    r
}
// ---------------------------------------------------------------- what a text says
// Node: kind (0 element, 1 text), name, attributes, contents
pub enum Ev { Node(int, Seq<i8>, Seq<Pair>, Seq<i8>), Start, End }
pub open spec fn x_text(c: Seq<i8>) -> Ev { Ev::Node(1, Seq::empty(), Seq::empty(), c) }
pub open spec fn x_elem(n: Seq<i8>, a: Seq<Pair>) -> Ev { Ev::Node(0, n, a, Seq::empty()) }
pub open spec fn x_ws() -> Seq<i8> { b" \t\n\r" }
pub open spec fn x_chars() -> Seq<i8> { b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ:-" }
// end of a quoted string which starts at i
pub open spec fn x_string(s: Seq<i8>, i: int) -> Option<int> {
    let e = first_of(s, seq![s[i]], i + 1);
    if e >= s.len() { None } else { Some(e + 1) }
}
pub open spec fn x_name(s: Seq<i8>, i: int) -> (int, int) { let a = some_of(s, x_ws(), i); (a, some_of(s, x_chars(), a)) }
pub open spec fn x_pi(s: Seq<i8>, i: int) -> Option<int>
    decreases s.len() - i
{
    let p = first_of(s, b"\"'?<>", i);
    if i < 0 || p < i || p >= s.len() { None }
    else if s[p] == 34 || s[p] == 39 { match x_string(s, p) { Some(e) => if e <= p { None } else { x_pi(s, e) }, None => None } }
    else if s[p] == 63 { if at(s, p, b"?>") { Some(p + 2) } else { x_pi(s, p + 1) } }
    else { None }
}
pub open spec fn x_decl(s: Seq<i8>, i: int) -> Option<int>
    decreases s.len() - i
{
    let p = first_of(s, b"\"'<>", i);
    if i < 0 || p < i || p >= s.len() { None }
    else if s[p] == 34 || s[p] == 39 { match x_string(s, p) { Some(e) => if e <= p { None } else { x_decl(s, e) }, None => None } }
    else if s[p] == 62 { Some(p + 1) }
    else { None }
}
pub open spec fn x_exclamation(s: Seq<i8>, i: int) -> Option<int> {
    if at(s, i, b"--") { if find_from(s, b"-->", i + 2) <= s.len() { Some(past(s, b"-->", i + 2)) } else { None } } else { x_decl(s, i) }
}
// the value of an attribute whose name ends at i: its value and where it ends
pub open spec fn x_value(s: Seq<i8>, i: int) -> Option<(Seq<i8>, int)> {
    let b = some_of(s, x_ws(), i);
    if b >= s.len() { None }
    else if s[b] != 61 { Some((Seq::<i8>::empty(), b)) }
    else {
        let c = some_of(s, x_ws(), b + 1);
        if c >= s.len() || (s[c] != 34 && s[c] != 39) { None }
        else { match x_string(s, c) { None => None, Some(e) => Some((s.subrange(c + 1, e - 1), e)) } }
    }
}
// attributes from i: all of them (added to a), whether the tag closes itself, where it ends
pub open spec fn x_attrs(s: Seq<i8>, i: int, a: Seq<Pair>) -> Option<(Seq<Pair>, bool, int)>
    decreases s.len() - i
{
    let p = some_of(s, x_ws(), i);
    if i < 0 || p < i || p >= s.len() { None }
    else if s[p] == 62 { Some((a, false, p + 1)) }
    else if s[p] == 47 {
        let q = some_of(s, x_ws(), p + 1);
        if q >= s.len() || s[q] != 62 { None } else { Some((a, true, q + 1)) }
    } else {
        let n = x_name(s, p);
        if n.1 <= n.0 { None }
        else { match x_value(s, n.1) { None => None, Some(v) => if v.1 <= i || v.1 > s.len() { None } else { x_attrs(s, v.1, x_set(a, s.subrange(n.0, n.1), x_decoded(v.0))) } } }
    }
}
pub open spec fn x_tag(s: Seq<i8>, i: int) -> Option<(Seq<i8>, Seq<Pair>, bool, int)> {
    let n = x_name(s, i);
    if n.1 <= n.0 { None } else { match x_attrs(s, n.1, Seq::<Pair>::empty()) { None => None, Some(t) => Some((s.subrange(n.0, n.1), t.0, t.1, t.2)) } }
}
pub open spec fn x_close(s: Seq<i8>, i: int) -> Option<(Seq<i8>, int)> {
    let n = x_name(s, i);
    let e = some_of(s, x_ws(), n.1);
    if n.1 <= n.0 || e >= s.len() || s[e] != 62 { None } else { Some((s.subrange(n.0, n.1), e + 1)) }
}
// what follows a '<' at i - 1: what has been said after it, where it ends, and the elements open after it
pub open spec fn x_markup(s: Seq<i8>, i: int, open: Seq<Seq<i8>>, e: Seq<Ev>) -> Option<(Seq<Ev>, int, Seq<Seq<i8>>)> {
    if s[i] == 63 { match x_pi(s, i + 1) { None => None, Some(z) => Some((e, z, open)) } }
    else if s[i] == 33 { match x_exclamation(s, i + 1) { None => None, Some(z) => Some((e, z, open)) } }
    else if s[i] == 47 { match x_close(s, i + 1) { None => None, Some(t) => if open.len() > 0 && open.last() == t.0 { Some((e.push(Ev::End), t.1, open.drop_last())) } else { None } } }
    else { match x_tag(s, i) { None => None, Some(t) => if t.2 { Some((e.push(x_elem(t.0, t.1)), t.3, open)) } else { Some((e.push(x_elem(t.0, t.1)).push(Ev::Start), t.3, open.push(t.0))) } } }
}
pub open spec fn x_lead(s: Seq<i8>, i: int, e: Seq<Ev>) -> Seq<Ev> { let p = first_of(s, b"<", i); if p > i { e.push(x_text(s.subrange(i, p))) } else { e } }
// what s from i on says after e, if it is well formed with these elements open
pub open spec fn x_doc(s: Seq<i8>, i: int, open: Seq<Seq<i8>>, e: Seq<Ev>) -> Option<Seq<Ev>>
    decreases s.len() - i
{
    let p = first_of(s, b"<", i);
    if p >= s.len() { Some(x_lead(s, i, e)) }
    else if i < 0 || p < i || p + 1 >= s.len() { None }
    else { match x_markup(s, p + 1, open, x_lead(s, i, e)) { None => None, Some(m) => if m.1 <= i || m.1 > s.len() { None } else { x_doc(s, m.1, m.2, m.0) } } }
}
// ---------------------------------------------------------------- what the nodes say
pub open spec fn x_ev(v: Seq<xml_element>, t: Told) -> Ev {
    match t { Told::Start => Ev::Start, Told::End => Ev::End, Told::Add(p) => Ev::Node(v[p - 1].type_ as int, v[p - 1].name_@, x_pairs(v[p - 1].attributes_), v[p - 1].contents_@) }
}
pub open spec fn x_evs(v: Seq<xml_element>, log: Seq<Told>) -> Seq<Ev> { Seq::new(log.len(), |k: int| x_ev(v, log[k])) }
pub open spec fn x_bound(n: int, log: Seq<Told>, open: Seq<usize>) -> bool {
    &&& forall|k: int| 0 <= k < log.len() ==> match #[trigger] log[k] { Told::Add(p) => 0 < p <= n, _ => true }
    &&& forall|k: int| 0 <= k < open.len() ==> 0 < #[trigger] open[k] <= n
}
pub open spec fn x_names(v: Seq<xml_element>, open: Seq<usize>) -> Seq<Seq<i8>> { Seq::new(open.len(), |k: int| v[open[k] - 1].name_@) }
pub open spec fn x_kept(v: Seq<xml_element>, w: Seq<xml_element>) -> bool { v.len() <= w.len() && forall|k: int| 0 <= k < v.len() ==> #[trigger] w[k] == v[k] }
pub proof fn lemma_kept(v: Seq<xml_element>, log: Seq<Told>, open: Seq<usize>)
    requires x_bound(v.len() as int, log, open),
    ensures forall|w: Seq<xml_element>| #[trigger] x_kept(v, w) ==> x_evs(w, log) == x_evs(v, log) && x_names(w, open) == x_names(v, open),
        forall|w: Seq<xml_element>, t: Told| #[trigger] x_evs(w, log.push(t)) == x_evs(w, log).push(x_ev(w, t)),
        forall|w: Seq<xml_element>, t: Told, u: Told| #[trigger] x_evs(w, log.push(t).push(u)) == x_evs(w, log).push(x_ev(w, t)).push(x_ev(w, u)),
        forall|w: Seq<xml_element>, p: usize| #[trigger] x_names(w, open.push(p)) == x_names(w, open).push(w[p - 1].name_@),
        open.len() > 0 ==> x_names(v, open.drop_last()) == x_names(v, open).drop_last(),
{
    assert forall|w: Seq<xml_element>| #[trigger] x_kept(v, w) implies x_evs(w, log) == x_evs(v, log) && x_names(w, open) == x_names(v, open) by {
        assert(x_evs(w, log) =~= x_evs(v, log));
        assert(x_names(w, open) =~= x_names(v, open));
    }
    assert forall|w: Seq<xml_element>, t: Told| #[trigger] x_evs(w, log.push(t)) == x_evs(w, log).push(x_ev(w, t)) by {
        assert(x_evs(w, log.push(t)) =~= x_evs(w, log).push(x_ev(w, t)));
    }
    assert forall|w: Seq<xml_element>, t: Told, u: Told| #[trigger] x_evs(w, log.push(t).push(u)) == x_evs(w, log).push(x_ev(w, t)).push(x_ev(w, u)) by {
        assert(x_evs(w, log.push(t).push(u)) =~= x_evs(w, log).push(x_ev(w, t)).push(x_ev(w, u)));
    }
    assert forall|w: Seq<xml_element>, p: usize| #[trigger] x_names(w, open.push(p)) == x_names(w, open).push(w[p - 1].name_@) by {
        assert(x_names(w, open.push(p)) =~= x_names(w, open).push(w[p - 1].name_@));
    }
    if open.len() > 0 { assert(x_names(v, open.drop_last()) =~= x_names(v, open).drop_last()); }
}
pub proof fn lemma_empty(v: Seq<xml_element>) ensures x_evs(v, Seq::empty()) == Seq::<Ev>::empty(), x_names(v, Seq::empty()) == Seq::<Seq<i8>>::empty(),
{ assert(x_evs(v, Seq::empty()) =~= Seq::<Ev>::empty()); assert(x_names(v, Seq::empty()) =~= Seq::<Seq<i8>>::empty()); }
