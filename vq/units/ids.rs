// ---------------------------------------------------------------- library
// boost::unordered_map<std::string, id_placeholder const*>
#[verifier::external_body]
pub struct StrMap { m: std::collections::HashMap<Vec<i8>, usize> }
impl View for StrMap { type V = Map<Seq<i8>, usize>; uninterp spec fn view(&self) -> Map<Seq<i8>, usize>; }
impl StrMap {
    #[verifier::external_body]
    pub fn empty() -> (r: StrMap) ensures r@ == Map::<Seq<i8>, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn emplace(&mut self, k: &Vec<i8>, p: usize) -> (r: bool)
        ensures r == !old(self)@.contains_key(k@), final(self)@ == (if r { old(self)@.insert(k@, p) } else { old(self)@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &Vec<i8>) -> (r: usize)
        requires self@.contains_key(k@),
        ensures r == self@[k@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&mut self, k: &Vec<i8>, p: usize)
        requires old(self)@.contains_key(k@),
        ensures final(self)@ == old(self)@.insert(k@, p),
    { unimplemented!() }
}
// boost::lexical_cast<unsigned>(std::string)
pub uninterp spec fn parse_u32(s: Seq<i8>) -> Option<u32>;
#[verifier::external_body]
pub proof fn axiom_parse_u32(n: u32) ensures parse_u32(dec(n as int)) == Some(n), { }
#[verifier::external_body]
pub fn lexical_cast_u32(s: &[i8]) -> (r: Result<u32, Exn>)
    ensures r.is_ok() == parse_u32(s@).is_some(), r.is_ok() ==> r->Ok_0 == parse_u32(s@)->Some_0,
{ unimplemented!() }
pub fn vec_str_clone(v: &Vec<Vec<i8>>) -> (r: Vec<Vec<i8>>)
    ensures same(v@, r@),
{
    let mut r: Vec<Vec<i8>> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] r@[k])@ == v@[k]@,
        decreases v@.len() - i
    { r.push(str_clone(&v[i])); i = i + 1; }
    r
}
pub open spec fn same(g: Seq<Vec<i8>>, n: Seq<Vec<i8>>) -> bool { g.len() == n.len() && forall|k: int| 0 <= k < g.len() ==> (#[trigger] g[k])@ == (#[trigger] n[k])@ }
// what an id attribute refers to: 0 for an id the user wrote, None for a bad placeholder
pub open spec fn ph_of(h: Heap_id_placeholder, value: Seq<i8>) -> Option<usize> {
    if value.len() <= 1 || value[0] != 36 { Some(0usize) }
    else {
        match parse_u32(value.subrange(1, value.len() as int)) {
            Some(n) => if n < h.v@.len() { Some((n + 1) as usize) } else { None },
            None => None,
        }
    }
}
pub proof fn lemma_ph_of(h: Heap_id_placeholder, k: int)
    requires wf_heap(h), 0 <= k < h.v@.len(),
    ensures ph_of(h, seq![36i8] + dec(k)) == Some((k + 1) as usize),
{
    let t = seq![36i8] + dec(k);
    lemma_digits_no_dot(k);
    assert(t.subrange(1, t.len() as int) =~= dec(k));
    axiom_parse_u32(k as u32);
}
// ---------------------------------------------------------------- replacing the placeholders
pub open spec fn name_of(h: Heap_id_placeholder, ids: Option<&Vec<Vec<i8>>>, p: usize) -> Seq<i8> {
    match ids { Some(v) => v@[p - 1]@, None => h.o(p).unresolved_id@ }
}
pub open spec fn id_text(src: Seq<i8>, v: (int, int)) -> Seq<i8> { src.subrange(v.0, v.1) }
// what has been written after the first n id values, and how far the source has been copied
pub open spec fn replaced(h: Heap_id_placeholder, ids: Option<&Vec<Vec<i8>>>, src: Seq<i8>, vs: Seq<(int, int)>, n: int) -> (Seq<i8>, int)
    decreases n
{
    if n <= 0 { (Seq::<i8>::empty(), 0) }
    else {
        let (r, pos) = replaced(h, ids, src, vs, n - 1);
        match ph_of(h, id_text(src, vs[n - 1])) {
            Some(p) => if p != 0 { (r + src.subrange(pos, vs[n - 1].0) + name_of(h, ids, p), vs[n - 1].1) } else { (r, pos) },
            None => (r, pos),
        }
    }
}
pub open spec fn all_known(h: Heap_id_placeholder, src: Seq<i8>, vs: Seq<(int, int)>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> ph_of(h, id_text(src, #[trigger] vs[k])).is_some()
}
pub open spec fn replaced_all(h: Heap_id_placeholder, ids: Option<&Vec<Vec<i8>>>, src: Seq<i8>) -> Seq<i8> {
    let vs = id_values(src, 0);
    let (r, pos) = replaced(h, ids, src, vs, vs.len() as int);
    r + src.subrange(pos, src.len() as int)
}
pub proof fn lemma_replaced(h: Heap_id_placeholder, ids: Option<&Vec<Vec<i8>>>, src: Seq<i8>, vs: Seq<(int, int)>, n: int)
    requires ordered(vs, 0, src.len() as int), 0 <= n <= vs.len(),
    ensures ({ let (r, pos) = replaced(h, ids, src, vs, n); 0 <= pos <= src.len() && (n < vs.len() ==> pos <= vs[n].0) }),
    decreases n
{ if n > 0 { lemma_replaced(h, ids, src, vs, n - 1); } }
// no placeholder: the text is untouched
pub proof fn lemma_replaced_none(h: Heap_id_placeholder, ids: Option<&Vec<Vec<i8>>>, src: Seq<i8>, vs: Seq<(int, int)>, n: int)
    requires 0 <= n <= vs.len(), forall|k: int| 0 <= k < n ==> ph_of(h, id_text(src, #[trigger] vs[k])) == Some(0usize),
    ensures replaced(h, ids, src, vs, n) == (Seq::<i8>::empty(), 0int),
    decreases n
{ if n > 0 { lemma_replaced_none(h, ids, src, vs, n - 1); } }
pub open spec fn cb_ok(cb: replace_ids_callback, h: Heap_id_placeholder, src: Seq<i8>, n: int) -> bool {
    let (r, pos) = replaced(h, cb.ids, src, id_values(src, 0), n);
    cb.result@ =~= r && cb.source_pos.s@ == src && cb.source_pos.i == pos
}
pub open spec fn recorded(ev: Events) -> bool {
    &&& ev.state == 2
    &&& spans(ev.ids@) == id_values(ev.src@, 0)
    &&& forall|k: int| 0 <= k < ev.ids@.len() ==> (#[trigger] ev.ids@[k]).wf() && ev.ids@[k].b.s@ == ev.src@
}
// the virtual calls xml_processor::parse makes, in the recorded order
pub fn replay_replace_ids_callback<'a>(ev: Events<'a>, cb: replace_ids_callback<'a>, h: &'a Heap_id_placeholder) -> (r: (Result<(), Exn>, replace_ids_callback<'a>))
    requires recorded(ev), wf_heap(*h), cb.result@.len() == 0, cb.ids.is_some() ==> cb.ids.unwrap()@.len() == h.v@.len(),
    ensures r.0.is_ok() == all_known(*h, ev.src@, id_values(ev.src@, 0), id_values(ev.src@, 0).len() as int),
        r.0.is_ok() ==> r.1.result@ == replaced_all(*h, cb.ids, ev.src@),
{
    let ghost vs = id_values(ev.src@, 0);
    let ghost ids0 = cb.ids;
    let (_, mut cb) = replace_ids_callback_start(cb, ev.src);
    let mut i: usize = 0;
    proof { lemma_id_values(ev.src@, 0); }
    while i < ev.ids.len()
        invariant recorded(ev), wf_heap(*h), i <= ev.ids@.len(), vs == id_values(ev.src@, 0), cb.ids == ids0, vs.len() == ev.ids@.len(),
            cb.ids.is_some() ==> cb.ids.unwrap()@.len() == h.v@.len(),
            ordered(vs, 0, ev.src@.len() as int),
            cb_ok(cb, *h, ev.src@, i as int), all_known(*h, ev.src@, vs, i as int),
        decreases ev.ids@.len() - i
    {
        proof { lemma_replaced(*h, cb.ids, ev.src@, vs, i as int); assert(spans(ev.ids@)[i as int] == vs[i as int]); }
        let ghost cb0 = cb;
        let (t, cb2) = replace_ids_callback_id_value(cb, ev.ids[i], h);
        cb = cb2;
        if exn_is_err(&t) { let e__ = exn_kind_of(&t); assert(ph_of(*h, id_text(ev.src@, vs[i as int])).is_none()); return (Err(Exn { kind: e__ }), cb); }
        i = i + 1;
    }
    proof { lemma_replaced(*h, cb.ids, ev.src@, vs, i as int); }
    let (_, cb) = replace_ids_callback_finish(cb, ev.src);
    (Ok(()), cb)
}
// ---------------------------------------------------------------- the order of the placeholders
pub open spec fn nz(o: Seq<u32>) -> int
    decreases o.len()
{ if o.len() == 0 { 0 } else { nz(o.drop_last()) + (if o.last() != 0 { 1int } else { 0 }) } }
pub proof fn lemma_nz_range(o: Seq<u32>)
    ensures 0 <= nz(o) <= o.len(),
    decreases o.len()
{ if o.len() > 0 { lemma_nz_range(o.drop_last()); } }
pub proof fn lemma_nz_update(o: Seq<u32>, i: int, x: u32)
    requires 0 <= i < o.len(), o[i] == 0, x != 0,
    ensures nz(o.update(i, x)) == nz(o) + 1, nz(o) < o.len(),
    decreases o.len()
{
    let u = o.update(i, x);
    if i == o.len() - 1 { assert(u.drop_last() =~= o.drop_last()); lemma_nz_range(o.drop_last()); }
    else { assert(u.drop_last() =~= o.drop_last().update(i, x)); assert(u.last() == o.last()); lemma_nz_update(o.drop_last(), i, x); }
}
pub proof fn lemma_nz_zero(o: Seq<u32>)
    requires forall|k: int| 0 <= k < o.len() ==> o[k] == 0,
    ensures nz(o) == 0,
    decreases o.len()
{ if o.len() > 0 { lemma_nz_zero(o.drop_last()); } }
pub proof fn lemma_nz_all(h: Heap_id_placeholder)
    ensures
        forall|o: Seq<u32>, i: int, x: u32| 0 <= i < o.len() && o[i] == 0 && x != 0 ==> #[trigger] nz(o.update(i, x)) == nz(o) + 1,
        forall|o: Seq<u32>, i: int| 0 <= i < o.len() && #[trigger] o[i] == 0 ==> #[trigger] nz(o) < o.len(),
        forall|o: Seq<u32>| o.len() == h.v@.len() && (forall|k: int| 0 <= k < o.len() ==> o[k] == 0) ==> #[trigger] wf_order(h, o, 0),
{
    assert forall|o: Seq<u32>, i: int, x: u32| 0 <= i < o.len() && o[i] == 0 && x != 0 implies #[trigger] nz(o.update(i, x)) == nz(o) + 1 by { lemma_nz_update(o, i, x); }
    assert forall|o: Seq<u32>, i: int| 0 <= i < o.len() && #[trigger] o[i] == 0 implies #[trigger] nz(o) < o.len() by { lemma_nz_update(o, i, 1); }
    assert forall|o: Seq<u32>| o.len() == h.v@.len() && (forall|k: int| 0 <= k < o.len() ==> o[k] == 0) implies #[trigger] wf_order(h, o, 0) by { lemma_nz_zero(o); }
}
// different numbers 1..count, and every parent before its children
pub open spec fn wf_order(h: Heap_id_placeholder, o: Seq<u32>, count: int) -> bool {
    &&& o.len() == h.v@.len()
    &&& count == nz(o)
    &&& forall|k: int| 0 <= k < o.len() ==> #[trigger] o[k] <= count
    &&& forall|j: int, k: int| 0 <= j < k < o.len() && o[j] != 0 ==> #[trigger] o[j] != #[trigger] o[k]
    &&& forall|k: int| 0 <= k < o.len() && #[trigger] o[k] != 0 && h.v@[k].parent != 0 ==> 0 < o[h.v@[k].parent - 1] < o[k]
}
// the numbers after the placeholder p has been met: its parents first, each numbered once
pub open spec fn numbered(h: Heap_id_placeholder, o: Seq<u32>, p: usize) -> Seq<u32>
    decreases p
{
    if p == 0 || o[p - 1] != 0 { o }
    else if h.o(p).parent >= p { o }
    else { let u = numbered(h, o, h.o(p).parent); u.update(p - 1, (nz(u) + 1) as u32) }
}
// the document order: the placeholders are numbered by their first appearance in the text
pub open spec fn doc_order(h: Heap_id_placeholder, src: Seq<i8>, vs: Seq<(int, int)>, n: int) -> Seq<u32>
    decreases n
{
    if n <= 0 { Seq::new(h.v@.len(), |k: int| 0u32) }
    else {
        let o = doc_order(h, src, vs, n - 1);
        match ph_of(h, id_text(src, vs[n - 1])) { Some(p) => numbered(h, o, p), None => o }
    }
}
pub proof fn lemma_set_order(h: Heap_id_placeholder, p: usize)
    requires wf_heap(h), h.valid(p),
    ensures
        forall|u: Seq<u32>, c: int| #[trigger] wf_order(h, u, c) && u[p - 1] == 0 ==> c < u.len(),
        forall|u: Seq<u32>, c: int, x: u32| #[trigger] wf_order(h, u, c) && u[p - 1] == 0 && x == c + 1 && (h.o(p).parent != 0 ==> u[h.o(p).parent - 1] != 0) ==> wf_order(h, #[trigger] u.update(p - 1, x), c + 1),
{
    assert forall|u: Seq<u32>, c: int| #[trigger] wf_order(h, u, c) && u[p - 1] == 0 implies c < u.len() by { lemma_nz_update(u, p - 1, 1); }
    assert forall|u: Seq<u32>, c: int, x: u32| #[trigger] wf_order(h, u, c) && u[p - 1] == 0 && x == c + 1 && (h.o(p).parent != 0 ==> u[h.o(p).parent - 1] != 0) implies wf_order(h, #[trigger] u.update(p - 1, x), c + 1) by {
        lemma_nz_update(u, p - 1, x);
        assert(wf_ph(h.v@, p - 1));
        let w = u.update(p - 1, x);
        assert forall|k: int| 0 <= k < w.len() && #[trigger] w[k] != 0 && h.v@[k].parent != 0 implies 0 < w[h.v@[k].parent - 1] < w[k] by {
            assert(wf_ph(h.v@, k));
            if k == p - 1 { let q = h.o(p).parent - 1; assert(u[q] <= c); } else { assert(u[k] != 0); }
        }
    }
}
pub open spec fn document_order(h: Heap_id_placeholder, src: Seq<i8>) -> Seq<u32> { doc_order(h, src, id_values(src, 0), id_values(src, 0).len() as int) }
pub open spec fn kept(o: Seq<u32>, n: Seq<u32>) -> bool { o.len() == n.len() && forall|k: int| 0 <= k < o.len() && #[trigger] o[k] != 0 ==> n[k] == o[k] }
pub open spec fn all_numbered(h: Heap_id_placeholder, o: Seq<u32>, src: Seq<i8>, vs: Seq<(int, int)>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> ({ let p = ph_of(h, id_text(src, #[trigger] vs[k])); p.is_some() && (p.unwrap() == 0 || o[p.unwrap() - 1] != 0) })
}
pub proof fn lemma_all_numbered(h: Heap_id_placeholder, o0: Seq<u32>, o1: Seq<u32>, src: Seq<i8>, vs: Seq<(int, int)>, i: int)
    requires 0 <= i, all_numbered(h, o0, src, vs, i), kept(o0, o1), o0.len() == h.v@.len(), h.v@.len() < 0x1_0000_0000,
        ({ let p = ph_of(h, id_text(src, vs[i])); p.is_some() && (p.unwrap() == 0 || o1[p.unwrap() - 1] != 0) }),
    ensures all_numbered(h, o1, src, vs, i + 1),
{
    assert forall|k: int| 0 <= k < i + 1 implies ({ let p = ph_of(h, id_text(src, #[trigger] vs[k])); p.is_some() && (p.unwrap() == 0 || o1[p.unwrap() - 1] != 0) }) by {
        let p = ph_of(h, id_text(src, vs[k]));
        if k < i && p.unwrap() != 0 { assert(o0[p.unwrap() - 1] != 0); }
    }
}
pub fn replay_get_placeholder_order_callback<'a>(ev: Events<'a>, cb: get_placeholder_order_callback, h: &'a Heap_id_placeholder) -> (r: (Result<(), Exn>, get_placeholder_order_callback))
    requires recorded(ev), wf_heap(*h), wf_order(*h, cb.order@, cb.count as int), cb.order@ =~= Seq::new(h.v@.len(), |k: int| 0u32),
    ensures r.0.is_ok() ==> r.1.order@ == document_order(*h, ev.src@), wf_order(*h, r.1.order@, r.1.count as int),
        r.0.is_ok() ==> all_numbered(*h, r.1.order@, ev.src@, id_values(ev.src@, 0), id_values(ev.src@, 0).len() as int),
{
    let ghost vs = id_values(ev.src@, 0);
    let mut cb = cb;
    let mut i: usize = 0;
    proof { lemma_id_values(ev.src@, 0); }
    while i < ev.ids.len()
        invariant recorded(ev), wf_heap(*h), i <= ev.ids@.len(), vs == id_values(ev.src@, 0), vs.len() == ev.ids@.len(),
            ordered(vs, 0, ev.src@.len() as int),
            wf_order(*h, cb.order@, cb.count as int), all_numbered(*h, cb.order@, ev.src@, vs, i as int),
            cb.order@ == doc_order(*h, ev.src@, vs, i as int),
        decreases ev.ids@.len() - i
    {
        assert(spans(ev.ids@)[i as int] == vs[i as int]);
        let ghost o0 = cb.order@;
        let (t, cb2) = get_placeholder_order_callback_id_value(cb, psv_slice(ev.ids[i]), h);
        cb = cb2;
        if exn_is_err(&t) { let e__ = exn_kind_of(&t); return (Err(Exn { kind: e__ }), cb); }
        proof {
            lemma_all_numbered(*h, o0, cb.order@, ev.src@, vs, i as int);
            assert(cb.order@ == doc_order(*h, ev.src@, vs, i + 1));
        }
        i = i + 1;
    }
    (Ok(()), cb)
}
// ---------------------------------------------------------------- the sorted index
pub open spec fn is_explicit(h: Heap_id_placeholder, p: usize) -> bool { h.o(p).category.c >= 6 }
pub open spec fn less(h: Heap_id_placeholder, o: Seq<u32>, x: usize, y: usize) -> bool {
    if h.o(x).num_dots != h.o(y).num_dots { h.o(x).num_dots < h.o(y).num_dots }
    else if is_explicit(h, x) != is_explicit(h, y) { is_explicit(h, x) }
    else { o[x - 1] < o[y - 1] }
}
pub open spec fn can_sort(h: Heap_id_placeholder, o: Seq<u32>, v: Seq<usize>) -> bool {
    wf_heap(h) && o.len() == h.v@.len() && forall|k: int| 0 <= k < v.len() ==> h.valid(#[trigger] v[k])
}
// the comparison is a strict weak order (what std::sort asks for), and total when the numbers differ
pub proof fn lemma_less(h: Heap_id_placeholder, o: Seq<u32>, x: usize, y: usize, z: usize)
    ensures !less(h, o, x, x), less(h, o, x, y) ==> !less(h, o, y, x), less(h, o, x, y) && less(h, o, y, z) ==> less(h, o, x, z),
        !less(h, o, x, y) && !less(h, o, y, x) && !less(h, o, y, z) && !less(h, o, z, y) ==> !less(h, o, x, z) && !less(h, o, z, x),
{ }
pub open spec fn sorted_of(h: Heap_id_placeholder, o: Seq<u32>, v: Seq<usize>, r: Seq<usize>) -> bool {
    &&& r.len() == v.len()
    &&& v.no_duplicates() ==> r.no_duplicates()
    &&& forall|x: usize| r.contains(x) == v.contains(x)
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> !less(h, o, #[trigger] r[j], #[trigger] r[i])
}
// boost::sort: the same elements, none before a smaller one
#[verifier::external_body]
pub fn sort_placeholders(v: Vec<usize>, c: &placeholder_compare, h: &Heap_id_placeholder) -> (r: Vec<usize>)
    requires can_sort(*h, c.order@, v@),
    ensures sorted_of(*h, c.order@, v@, r@),
{ unimplemented!() }
pub open spec fn has(h: Heap_id_placeholder, L: Seq<usize>, p: usize) -> bool { L.contains(p) }
// by number of dots, explicit ids first, then in document order; exactly the placeholders the document mentions (and their parents)
pub open spec fn in_order(h: Heap_id_placeholder, o: Seq<u32>, L: Seq<usize>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < L.len() ==> !less(h, o, #[trigger] L[j], #[trigger] L[i])
    &&& forall|k: int| 0 <= k < L.len() ==> o[#[trigger] L[k] - 1] != 0
}
// the list: pointers to different placeholders, by number of dots, with every parent
pub open spec fn wf_list(h: Heap_id_placeholder, L: Seq<usize>) -> bool {
    &&& L.len() <= h.v@.len()
    &&& L.no_duplicates()
    &&& forall|k: int| 0 <= k < L.len() ==> h.valid(#[trigger] L[k])
    &&& forall|i: int, j: int| 0 <= i < j < L.len() ==> h.o(#[trigger] L[i]).num_dots <= h.o(#[trigger] L[j]).num_dots
    &&& forall|k: int| 0 <= k < L.len() && h.o(#[trigger] L[k]).parent != 0 ==> L.contains(h.o(L[k]).parent)
}
pub open spec fn all_listed(h: Heap_id_placeholder, L: Seq<usize>, src: Seq<i8>) -> bool {
    let vs = id_values(src, 0);
    forall|k: int| 0 <= k < vs.len() ==> ({ let p = ph_of(h, id_text(src, #[trigger] vs[k])); p.is_some() && (p.unwrap() == 0 || L.contains(p.unwrap())) })
}
pub open spec fn nonzero_upto(o: Seq<u32>, L: Seq<usize>, n: int) -> bool {
    &&& L.len() <= n
    &&& forall|k: int| 0 <= k < L.len() ==> 0 < #[trigger] L[k] <= n && o[L[k] - 1] != 0
    &&& forall|i: int, j: int| 0 <= i < j < L.len() ==> #[trigger] L[i] < #[trigger] L[j]
    &&& forall|p: usize| 0 < p <= n && o[p - 1] != 0 ==> #[trigger] L.contains(p)
}
pub proof fn lemma_nonzero_push(o: Seq<u32>, L: Seq<usize>, n: int, M: Seq<usize>)
    requires nonzero_upto(o, L, n), 0 <= n < o.len() <= 0x1_0000_0000, M == (if o[n] != 0 { L.push((n + 1) as usize) } else { L }),
    ensures nonzero_upto(o, M, n + 1),
{
    assert forall|p: usize| 0 < p <= n + 1 && o[p - 1] != 0 implies #[trigger] M.contains(p) by {
        if p <= n { assert(L.contains(p)); let k = choose|k: int| 0 <= k < L.len() && L[k] == p; assert(M[k] == p); }
        else { assert(M[M.len() - 1] == p); }
    }
}
pub proof fn lemma_sorted(h: Heap_id_placeholder, o: Seq<u32>, S: Seq<usize>, R: Seq<usize>, src: Seq<i8>)
    requires wf_heap(h), wf_order(h, o, nz(o)), o == document_order(h, src), nonzero_upto(o, S, o.len() as int), sorted_of(h, o, S, R),
        all_numbered(h, o, src, id_values(src, 0), id_values(src, 0).len() as int),
    ensures wf_list(h, R), all_listed(h, R, src), in_order(h, document_order(h, src), R),
{
    assert(S.no_duplicates());
    assert forall|k: int| 0 <= k < R.len() implies h.valid(#[trigger] R[k]) && o[R[k] - 1] != 0 by {
        assert(R.contains(R[k])); assert(S.contains(R[k]));
        let i = choose|i: int| 0 <= i < S.len() && S[i] == R[k]; assert(S[i] == R[k]);
    }
    assert forall|i: int, j: int| 0 <= i < j < R.len() implies h.o(#[trigger] R[i]).num_dots <= h.o(#[trigger] R[j]).num_dots by { assert(!less(h, o, R[j], R[i])); }
    assert forall|k: int| 0 <= k < R.len() && h.o(#[trigger] R[k]).parent != 0 implies R.contains(h.o(R[k]).parent) by {
        let q = h.o(R[k]).parent;
        assert(wf_ph(h.v@, R[k] - 1));
        assert(o[R[k] - 1] != 0);
        assert(o[q - 1] != 0);
        assert(S.contains(q));
    }
    let vs = id_values(src, 0);
    assert forall|k: int| 0 <= k < vs.len() implies ({ let p = ph_of(h, id_text(src, #[trigger] vs[k])); p.is_some() && (p.unwrap() == 0 || R.contains(p.unwrap())) }) by {
        let p = ph_of(h, id_text(src, vs[k]));
        if p.unwrap() != 0 { assert(o[p.unwrap() - 1] != 0); assert(S.contains(p.unwrap())); }
    }
}
// ---------------------------------------------------------------- generating the ids
// the part of an id up to its last dot
pub open spec fn prefix_of(s: Seq<i8>) -> Seq<i8>
    decreases s.len()
{ if s.len() == 0 || s.last() == DOT { s } else { prefix_of(s.drop_last()) } }
pub proof fn lemma_prefix(s: Seq<i8>, c: int)
    requires -1 <= c < s.len(), c >= 0 ==> s[c] == DOT, no_dot(s.subrange(c + 1, s.len() as int)),
    ensures prefix_of(s) == s.subrange(0, c + 1),
    decreases s.len()
{
    if c == s.len() - 1 { assert(s.subrange(0, c + 1) =~= s); if s.len() > 0 { assert(s.last() == DOT); } }
    else {
        let t = s.drop_last();
        let u = s.subrange(c + 1, s.len() as int);
        assert(u[u.len() - 1] == s.last());
        assert forall|k: int| 0 <= k < t.len() - (c + 1) implies #[trigger] t.subrange(c + 1, t.len() as int)[k] != DOT by { assert(u[k] != DOT); }
        lemma_prefix(t, c);
        assert(t.subrange(0, c + 1) =~= s.subrange(0, c + 1));
    }
}
// a made up id: as the wanted one up to its last dot, then at most 32 characters
pub open spec fn short_id(w: Seq<i8>, r: Seq<i8>) -> bool {
    let p = prefix_of(w);
    p.len() < r.len() <= p.len() + 32 && r.subrange(0, p.len() as int) == p
}
pub proof fn lemma_short(w: Seq<i8>)
    ensures forall|b: Seq<i8>, d: Seq<i8>| 0 < d.len() && b.len() + d.len() <= 32 ==> short_id(w, #[trigger] ((prefix_of(w) + b) + d)),
        forall|n: int| n >= 0 ==> (#[trigger] dec(n)).len() > 0,
        forall|s: Seq<i8>| Seq::<i8>::empty() + s == s,
{
    let p = prefix_of(w);
    assert forall|b: Seq<i8>, d: Seq<i8>| 0 < d.len() && b.len() + d.len() <= 32 implies short_id(w, #[trigger] ((p + b) + d)) by { assert(((p + b) + d).subrange(0, p.len() as int) =~= p); }
    assert forall|n: int| n >= 0 implies (#[trigger] dec(n)).len() > 0 by { lemma_digits_no_dot(n); }
    assert forall|s: Seq<i8>| Seq::<i8>::empty() + s == s by { assert(Seq::<i8>::empty() + s =~= s); }
}
pub proof fn lemma_gen_facts(r: Seq<i8>)
    ensures
        forall|a: Seq<i8>, b: Seq<i8>| #[trigger] dots(a + b) == dots(a) + dots(b),
        dots(Seq::<i8>::empty()) == 0,
        no_dot(r) ==> dots(r) == 0,
        r.subrange(0, r.len() as int) == r,
        forall|n: int| n >= 0 ==> dots(#[trigger] dec(n)) == 0,
        forall|s: Seq<i8>, z: int| no_dot(s) ==> no_dot(#[trigger] norm_id(s, z)),
        forall|c: int| 0 <= c < r.len() && no_dot(r.subrange(c + 1, r.len() as int)) ==> dots(#[trigger] r.subrange(0, c + 1)) == dots(r),
        forall|c: int| 0 <= c < r.len() && r[c] == DOT && no_dot(r.subrange(c + 1, r.len() as int)) ==> #[trigger] r.subrange(0, c + 1) == prefix_of(r),
        no_dot(r) ==> prefix_of(r) == Seq::<i8>::empty(),
{
    assert forall|c: int| 0 <= c < r.len() && r[c] == DOT && no_dot(r.subrange(c + 1, r.len() as int)) implies #[trigger] r.subrange(0, c + 1) == prefix_of(r) by { lemma_prefix(r, c); }
    if no_dot(r) { assert(r.subrange(0, r.len() as int) =~= r); lemma_prefix(r, -1); assert(r.subrange(0, 0) =~= Seq::<i8>::empty()); }
    assert forall|a: Seq<i8>, b: Seq<i8>| #[trigger] dots(a + b) == dots(a) + dots(b) by { lemma_dots_concat(a, b); }
    lemma_no_dot(r);
    assert(r.subrange(0, r.len() as int) =~= r);
    assert forall|n: int| n >= 0 implies dots(#[trigger] dec(n)) == 0 by { lemma_digits_no_dot(n); }
    assert forall|s: Seq<i8>, z: int| no_dot(s) implies no_dot(#[trigger] norm_id(s, z)) by { lemma_norm_no_dot(s, z); }
    assert forall|c: int| 0 <= c < r.len() && no_dot(r.subrange(c + 1, r.len() as int)) implies dots(#[trigger] r.subrange(0, c + 1)) == dots(r) by {
        let t = r.subrange(c + 1, r.len() as int);
        lemma_no_dot(t); lemma_dots_concat(r.subrange(0, c + 1), t); assert(r.subrange(0, c + 1) + t =~= r);
    }
}
pub open spec fn resolved(h: Heap_id_placeholder, g: Seq<Vec<i8>>, p: usize) -> Seq<i8> {
    if h.o(p).parent == 0 { h.o(p).id@ } else { g[h.o(p).parent - 1]@ + seq![DOT] + h.o(p).id@ }
}
pub open spec fn parent_done(h: Heap_id_placeholder, g: Seq<Vec<i8>>, p: usize) -> bool {
    h.o(p).parent != 0 ==> dots(g[h.o(p).parent - 1]@) == h.o(h.o(p).parent).num_dots
}
pub proof fn lemma_resolved(h: Heap_id_placeholder, g: Seq<Vec<i8>>, p: usize)
    requires wf_heap(h), h.valid(p), parent_done(h, g, p),
    ensures dots(resolved(h, g, p)) == h.o(p).num_dots,
{
    assert(wf_ph(h.v@, p - 1));
    if h.o(p).parent != 0 {
        let q = g[h.o(p).parent - 1]@;
        assert(q.push(DOT) =~= q + seq![DOT]);
        lemma_dots_push(q, DOT); lemma_dots_concat(q + seq![DOT], h.o(p).id@);
    }
}
// the owner of a reserved id: the first with the highest category among those that would like to have it
pub open spec fn cat(h: Heap_id_placeholder, p: usize) -> int { h.o(p).category.c as int }
pub open spec fn chosen_ok(h: Heap_id_placeholder, m: Map<Seq<i8>, usize>, g: Seq<Vec<i8>>, L: Seq<usize>, a: int, k: int) -> bool {
    &&& forall|s: Seq<i8>| #[trigger] m.contains_key(s) ==> exists|w: int| a <= w < k && #[trigger] L[w] == m[s] && resolved(h, g, L[w]) == s && cat(h, L[w]) > 1
    &&& forall|i: int| a <= i < k && cat(h, #[trigger] L[i]) > 1 ==> m.contains_key(resolved(h, g, L[i]))
    &&& forall|i: int| #![trigger L[i]] a <= i < k && cat(h, L[i]) > 1 ==> cat(h, m[resolved(h, g, L[i])]) >= cat(h, L[i])
    &&& forall|i: int, w: int| #![trigger L[i], L[w]] a <= i < w < k && cat(h, L[i]) > 1 && m[resolved(h, g, L[i])] == L[w] ==> cat(h, L[w]) > cat(h, L[i])
}
pub open spec fn owner(h: Heap_id_placeholder, g: Seq<Vec<i8>>, L: Seq<usize>, a: int, b: int, i: int) -> bool {
    &&& cat(h, L[i]) > 1
    &&& forall|j: int| a <= j < b && j != i && cat(h, #[trigger] L[j]) > 1 && resolved(h, g, L[j]) == resolved(h, g, L[i]) ==> cat(h, L[j]) < cat(h, L[i]) || (cat(h, L[j]) == cat(h, L[i]) && i < j)
}
pub proof fn lemma_owner(h: Heap_id_placeholder, m: Map<Seq<i8>, usize>, g: Seq<Vec<i8>>, L: Seq<usize>, a: int, b: int, i: int)
    requires chosen_ok(h, m, g, L, a, b), owner(h, g, L, a, b, i), 0 <= a <= i < b <= L.len(),
    ensures m[resolved(h, g, L[i])] == L[i],
{
    let s = resolved(h, g, L[i]);
    assert(m.contains_key(s));
    let w = choose|w: int| a <= w < b && #[trigger] L[w] == m[s] && resolved(h, g, L[w]) == s && cat(h, L[w]) > 1;
    if w != i { assert(cat(h, L[w]) >= cat(h, L[i])); }
}
// the ids of the first k listed placeholders: as many dots as planned, all different
pub open spec fn done(h: Heap_id_placeholder, g: Seq<Vec<i8>>, L: Seq<usize>, k: int) -> bool {
    &&& g.len() == h.v@.len()
    &&& forall|i: int| 0 <= i < k ==> dots(g[#[trigger] L[i] - 1]@) == h.o(L[i]).num_dots
    &&& forall|i: int, j: int| 0 <= i < j < k ==> g[#[trigger] L[i] - 1]@ != g[#[trigger] L[j] - 1]@
}
pub open spec fn outside_kept(g: Seq<Vec<i8>>, n: Seq<Vec<i8>>, L: Seq<usize>, a: int, b: int) -> bool {
    g.len() == n.len() && forall|k: int| 0 <= k < L.len() && !(a <= k < b) ==> n[#[trigger] L[k] - 1]@ == g[L[k] - 1]@
}
pub open spec fn block_done_upto(h: Heap_id_placeholder, g: Seq<Vec<i8>>, n: Seq<Vec<i8>>, L: Seq<usize>, a: int, b: int, c: int) -> bool {
    &&& forall|i: int| a <= i < c ==> dots(n[#[trigger] L[i] - 1]@) == h.o(L[i]).num_dots
    &&& forall|i: int, j: int| a <= i < j < c ==> n[#[trigger] L[i] - 1]@ != n[#[trigger] L[j] - 1]@
    &&& forall|i: int| a <= i < c && #[trigger] owner(h, g, L, a, b, i) ==> n[L[i] - 1]@ == resolved(h, g, L[i])
    &&& forall|i: int| a <= i < c ==> n[#[trigger] L[i] - 1]@ == resolved(h, g, L[i]) || short_id(resolved(h, g, L[i]), n[L[i] - 1]@)
}
// the next id: owned by its placeholder, with the planned number of dots
pub proof fn lemma_gen_step(h: Heap_id_placeholder, g: Seq<Vec<i8>>, n: Seq<Vec<i8>>, L: Seq<usize>, a: int, b: int, c: int, m: Map<Seq<i8>, usize>, m2: Map<Seq<i8>, usize>, id: Vec<i8>)
    requires wf_list(h, L), 0 <= a <= c < b <= L.len(), g.len() == h.v@.len(), n.len() == g.len(),
        outside_kept(g, n, L, a, c), block_done_upto(h, g, n, L, a, b, c), mine(m, n, L, a, c), map_kept(m, m2),
        m2.contains_key(id@), m2[id@] == L[c], dots(id@) == h.o(L[c]).num_dots,
        owner(h, g, L, a, b, c) ==> id@ == resolved(h, g, L[c]), id@ == resolved(h, g, L[c]) || short_id(resolved(h, g, L[c]), id@),
    ensures ({ let u = n.update(L[c] - 1, id); outside_kept(g, u, L, a, c + 1) && block_done_upto(h, g, u, L, a, b, c + 1) && mine(m2, u, L, a, c + 1) }),
{
    let u = n.update(L[c] - 1, id);
    assert forall|k: int| 0 <= k < L.len() && k != c implies u[#[trigger] L[k] - 1]@ == n[L[k] - 1]@ by { assert(L[k] != L[c]); }
    assert forall|i: int, j: int| a <= i < j < c + 1 implies u[#[trigger] L[i] - 1]@ != u[#[trigger] L[j] - 1]@ by {
        if j == c { assert(m.contains_key(n[L[i] - 1]@)); assert(m2.contains_key(n[L[i] - 1]@)); assert(L[i] != L[j]); }
        else { assert(n[L[i] - 1]@ != n[L[j] - 1]@); }
    }
    assert forall|i: int| a <= i < c + 1 implies m2.contains_key(u[#[trigger] L[i] - 1]@) && m2[u[L[i] - 1]@] == L[i] by {
        if i < c { assert(m.contains_key(n[L[i] - 1]@)); assert(m2.contains_key(n[L[i] - 1]@)); }
    }
    assert forall|i: int| a <= i < c + 1 && #[trigger] owner(h, g, L, a, b, i) implies u[L[i] - 1]@ == resolved(h, g, L[i]) by { if i < c { assert(n[L[i] - 1]@ == resolved(h, g, L[i])); } }
    assert forall|i: int| a <= i < c + 1 implies u[#[trigger] L[i] - 1]@ == resolved(h, g, L[i]) || short_id(resolved(h, g, L[i]), u[L[i] - 1]@) by { if i < c { assert(u[L[i] - 1]@ == n[L[i] - 1]@); } }
    assert forall|i: int| a <= i < c + 1 implies dots(u[#[trigger] L[i] - 1]@) == h.o(L[i]).num_dots by { if i < c { assert(dots(n[L[i] - 1]@) == h.o(L[i]).num_dots); } }
}
pub open spec fn mine(m: Map<Seq<i8>, usize>, n: Seq<Vec<i8>>, L: Seq<usize>, a: int, c: int) -> bool {
    forall|i: int| a <= i < c ==> m.contains_key(n[#[trigger] L[i] - 1]@) && m[n[L[i] - 1]@] == L[i]
}
pub open spec fn map_kept(m: Map<Seq<i8>, usize>, m2: Map<Seq<i8>, usize>) -> bool {
    forall|s: Seq<i8>| #[trigger] m.contains_key(s) ==> m2.contains_key(s) && m2[s] == m[s]
}
// what generate needs of the reserved ids while it hands them out
pub open spec fn reserved(h: Heap_id_placeholder, m: Map<Seq<i8>, usize>, g: Seq<Vec<i8>>, L: Seq<usize>, a: int, b: int) -> bool {
    &&& forall|i: int| a <= i < b && cat(h, #[trigger] L[i]) > 1 ==> m.contains_key(resolved(h, g, L[i]))
    &&& forall|i: int| a <= i < b && #[trigger] owner(h, g, L, a, b, i) ==> m[resolved(h, g, L[i])] == L[i]
}
pub proof fn lemma_reserved(h: Heap_id_placeholder, m: Map<Seq<i8>, usize>, g: Seq<Vec<i8>>, L: Seq<usize>, a: int, b: int)
    requires chosen_ok(h, m, g, L, a, b), 0 <= a <= b <= L.len(),
    ensures reserved(h, m, g, L, a, b),
{ assert forall|i: int| a <= i < b && #[trigger] owner(h, g, L, a, b, i) implies m[resolved(h, g, L[i])] == L[i] by { lemma_owner(h, m, g, L, a, b, i); } }
pub proof fn lemma_reserved_kept(h: Heap_id_placeholder, m: Map<Seq<i8>, usize>, m2: Map<Seq<i8>, usize>, g: Seq<Vec<i8>>, L: Seq<usize>, a: int, b: int)
    requires reserved(h, m, g, L, a, b), map_kept(m, m2), 0 <= a <= b <= L.len(),
    ensures reserved(h, m2, g, L, a, b),
{ assert forall|i: int| a <= i < b && #[trigger] owner(h, g, L, a, b, i) implies m2[resolved(h, g, L[i])] == L[i] by { assert(cat(h, L[i]) > 1); assert(m.contains_key(resolved(h, g, L[i]))); } }
pub proof fn lemma_same_block(h: Heap_id_placeholder, g: Seq<Vec<i8>>, g2: Seq<Vec<i8>>, n: Seq<Vec<i8>>, n2: Seq<Vec<i8>>, L: Seq<usize>, a: int, b: int)
    requires wf_heap(h), wf_list(h, L), 0 <= a <= b <= L.len(), g.len() == h.v@.len(), same(g, g2), same(n, n2), n.len() == g.len(),
    ensures outside_kept(g2, n, L, a, b) ==> outside_kept(g, n2, L, a, b), block_done(h, g2, n, L, a, b) ==> block_done(h, g, n2, L, a, b),
        (forall|i: int| a <= i < b ==> parent_done(h, g, #[trigger] L[i])) ==> (forall|i: int| a <= i < b ==> parent_done(h, g2, #[trigger] L[i])),
{
    assert forall|k: int| 0 <= k < L.len() implies resolved(h, g, #[trigger] L[k]) == resolved(h, g2, L[k]) && parent_done(h, g, L[k]) == parent_done(h, g2, L[k]) && n[L[k] - 1]@ == n2[L[k] - 1]@ && g[L[k] - 1]@ == g2[L[k] - 1]@ by {
        assert(wf_ph(h.v@, L[k] - 1));
        assert(h.valid(L[k]));
        let q = h.o(L[k]).parent;
        if q != 0 { assert(0 <= q - 1 < g.len()); assert(g[q - 1]@ == g2[q - 1]@); }
    }
    if block_done(h, g2, n, L, a, b) {
        assert forall|i: int, j: int| a <= i < j < b implies n2[#[trigger] L[i] - 1]@ != n2[#[trigger] L[j] - 1]@ by { assert(n[L[i] - 1]@ != n[L[j] - 1]@); }
        assert forall|i: int| a <= i < b && #[trigger] owner(h, g, L, a, b, i) implies n2[L[i] - 1]@ == resolved(h, g, L[i]) by {
            assert(owner(h, g2, L, a, b, i)); 
        }
        assert forall|i: int| a <= i < b implies n2[#[trigger] L[i] - 1]@ == resolved(h, g, L[i]) || short_id(resolved(h, g, L[i]), n2[L[i] - 1]@) by { assert(n[L[i] - 1]@ == n2[L[i] - 1]@); }
        assert forall|i: int| a <= i < b implies dots(n2[#[trigger] L[i] - 1]@) == h.o(L[i]).num_dots by { assert(dots(n[L[i] - 1]@) == h.o(L[i]).num_dots); }
    }
}
pub proof fn lemma_same_ok(h: Heap_id_placeholder, g: Seq<Vec<i8>>, g2: Seq<Vec<i8>>, L: Seq<usize>, src: Seq<i8>)
    requires wf_heap(h), wf_list(h, L), all_listed(h, L, src), in_order(h, document_order(h, src), L), same(g, g2), done(h, g, L, L.len() as int), owners_kept(h, g, L, L.len() as int),
    ensures ids_ok(h, g2, src),
{
    let b = L.len() as int;
    lemma_same_block(h, g2, g, g, g2, L, 0, b);
    assert forall|i: int, j: int| 0 <= i < j < b implies g2[#[trigger] L[i] - 1]@ != g2[#[trigger] L[j] - 1]@ by { assert(g[L[i] - 1]@ != g[L[j] - 1]@); }
    assert(block_done(h, g, g, L, 0, b));
    assert(block_done(h, g2, g2, L, 0, b));
    assert(done(h, g2, L, b));
}
pub open spec fn block_done(h: Heap_id_placeholder, g: Seq<Vec<i8>>, n: Seq<Vec<i8>>, L: Seq<usize>, a: int, b: int) -> bool { block_done_upto(h, g, n, L, a, b, b) }
pub proof fn lemma_chosen_ptrs(h: Heap_id_placeholder, m: Map<Seq<i8>, usize>, g: Seq<Vec<i8>>, L: Seq<usize>, a: int, k: int)
    requires wf_list(h, L), 0 <= a <= k <= L.len(), chosen_ok(h, m, g, L, a, k),
    ensures forall|s: Seq<i8>| #[trigger] m.contains_key(s) ==> h.valid(m[s]),
{ }
pub proof fn lemma_chosen_step(h: Heap_id_placeholder, m: Map<Seq<i8>, usize>, g: Seq<Vec<i8>>, L: Seq<usize>, a: int, k: int)
    requires wf_list(h, L), 0 <= a <= k < L.len(), chosen_ok(h, m, g, L, a, k),
    ensures ({ let p = L[k]; let s = resolved(h, g, p);
        chosen_ok(h, if cat(h, p) > 1 && (!m.contains_key(s) || cat(h, p) > cat(h, m[s])) { m.insert(s, p) } else { m }, g, L, a, k + 1) }),
{
    let p = L[k]; let s = resolved(h, g, p);
    let put = cat(h, p) > 1 && (!m.contains_key(s) || cat(h, p) > cat(h, m[s]));
    let n = if put { m.insert(s, p) } else { m };
    assert forall|t: Seq<i8>| #[trigger] n.contains_key(t) implies exists|w: int| a <= w < k + 1 && #[trigger] L[w] == n[t] && resolved(h, g, L[w]) == t && cat(h, L[w]) > 1 by {
        if put && t == s { assert(L[k] == n[t]); }
        else { assert(m.contains_key(t)); let w = choose|w: int| a <= w < k && #[trigger] L[w] == m[t] && resolved(h, g, L[w]) == t && cat(h, L[w]) > 1; assert(L[w] == n[t]); }
    }
    assert forall|i: int| #![trigger L[i]] a <= i < k + 1 && cat(h, L[i]) > 1 implies cat(h, n[resolved(h, g, L[i])]) >= cat(h, L[i]) by { }
    assert forall|i: int, w: int| #![trigger L[i], L[w]] a <= i < w < k + 1 && cat(h, L[i]) > 1 && n[resolved(h, g, L[i])] == L[w] implies cat(h, L[w]) > cat(h, L[i]) by {
        let t = resolved(h, g, L[i]);
        assert(m.contains_key(t));
        let v = choose|v: int| a <= v < k && #[trigger] L[v] == m[t] && resolved(h, g, L[v]) == t && cat(h, L[v]) > 1;
        if put && t == s { assert(cat(h, m[t]) >= cat(h, L[i])); }
        else if w == k { assert(L[v] == L[k]); assert(v == k); }
    }
}
pub open spec fn owners_kept(h: Heap_id_placeholder, g: Seq<Vec<i8>>, L: Seq<usize>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < k && #[trigger] owner(h, g, L, 0, k, i) ==> g[L[i] - 1]@ == resolved(h, g, L[i])
    &&& forall|i: int| 0 <= i < k ==> g[#[trigger] L[i] - 1]@ == resolved(h, g, L[i]) || short_id(resolved(h, g, L[i]), g[L[i] - 1]@)
}
// the ids of a document: every placeholder it mentions gets an id of its own, and an id which nobody of its rank competes for is kept
pub open spec fn ids_ok(h: Heap_id_placeholder, g: Seq<Vec<i8>>, src: Seq<i8>) -> bool {
    exists|L: Seq<usize>| #[trigger] wf_list(h, L) && all_listed(h, L, src) && in_order(h, document_order(h, src), L) && done(h, g, L, L.len() as int) && owners_kept(h, g, L, L.len() as int)
}
pub proof fn lemma_parent_before(h: Heap_id_placeholder, L: Seq<usize>, a: int, i: int) -> (k: int)
    requires wf_heap(h), wf_list(h, L), 0 <= a <= i < L.len(), h.o(L[i]).num_dots == h.o(L[a]).num_dots, h.o(L[i]).parent != 0,
    ensures 0 <= k < a, L[k] == h.o(L[i]).parent,
{
    let q = h.o(L[i]).parent;
    assert(wf_ph(h.v@, L[i] - 1)); lemma_dots_range(h.o(L[i]).id@);
    assert(L.contains(q));
    let k = choose|k: int| 0 <= k < L.len() && L[k] == q;
    if k == a { } else if k > a { assert(h.o(L[a]).num_dots <= h.o(L[k]).num_dots); }
    k
}
pub proof fn lemma_group(h: Heap_id_placeholder, g: Seq<Vec<i8>>, L: Seq<usize>, a: int, b: int)
    requires wf_heap(h), wf_list(h, L), 0 <= a < L.len(), a <= b <= L.len(), done(h, g, L, a), owners_kept(h, g, L, a),
        forall|k: int| a <= k < b ==> h.o(#[trigger] L[k]).num_dots == h.o(L[a]).num_dots,
        0 < a ==> h.o(L[a - 1]).num_dots < h.o(L[a]).num_dots,
    ensures forall|i: int| a <= i < b ==> parent_done(h, g, #[trigger] L[i]),
        forall|i: int, j: int| a <= i < b && a <= j < b ==> h.o(#[trigger] L[i]).parent != #[trigger] L[j],
        forall|n: Seq<Vec<i8>>| outside_kept(g, n, L, a, b) && #[trigger] block_done(h, g, n, L, a, b) ==> done(h, n, L, b) && owners_kept(h, n, L, b),
        b < L.len() && h.o(L[b]).num_dots != h.o(L[a]).num_dots ==> h.o(L[a]).num_dots < h.o(L[b]).num_dots,
{
    assert forall|i: int| a <= i < b implies parent_done(h, g, #[trigger] L[i]) by {
        if h.o(L[i]).parent != 0 { let k = lemma_parent_before(h, L, a, i); assert(dots(g[L[k] - 1]@) == h.o(L[k]).num_dots); }
    }
    assert forall|i: int, j: int| a <= i < b && a <= j < b implies h.o(#[trigger] L[i]).parent != #[trigger] L[j] by {
        if h.o(L[i]).parent == L[j] { let k = lemma_parent_before(h, L, a, i); assert(L[k] == L[j]); }
    }
    assert forall|n: Seq<Vec<i8>>| outside_kept(g, n, L, a, b) && #[trigger] block_done(h, g, n, L, a, b) implies done(h, n, L, b) && owners_kept(h, n, L, b) by {
        lemma_group_done(h, g, n, L, a, b);
    }
}
pub proof fn lemma_group_done(h: Heap_id_placeholder, g: Seq<Vec<i8>>, n: Seq<Vec<i8>>, L: Seq<usize>, a: int, b: int)
    requires wf_heap(h), wf_list(h, L), 0 <= a < L.len(), a <= b <= L.len(), done(h, g, L, a), owners_kept(h, g, L, a),
        forall|k: int| a <= k < b ==> h.o(#[trigger] L[k]).num_dots == h.o(L[a]).num_dots,
        0 < a ==> h.o(L[a - 1]).num_dots < h.o(L[a]).num_dots,
        outside_kept(g, n, L, a, b), block_done(h, g, n, L, a, b),
    ensures done(h, n, L, b), owners_kept(h, n, L, b),
{
    assert forall|i: int| 0 <= i < b implies dots(n[#[trigger] L[i] - 1]@) == h.o(L[i]).num_dots by { if i < a { assert(dots(g[L[i] - 1]@) == h.o(L[i]).num_dots); } }
    assert forall|i: int, j: int| 0 <= i < j < b implies n[#[trigger] L[i] - 1]@ != n[#[trigger] L[j] - 1]@ by {
        if j < a { assert(g[L[i] - 1]@ != g[L[j] - 1]@); }
        else if i < a { if i < a - 1 { assert(h.o(L[i]).num_dots <= h.o(L[a - 1]).num_dots); } assert(dots(n[L[i] - 1]@) != dots(n[L[j] - 1]@)); }
    }
    // the resolved ids are the same as before
    assert forall|i: int| 0 <= i < b implies resolved(h, n, #[trigger] L[i]) == resolved(h, g, L[i]) by {
        if h.o(L[i]).parent != 0 {
            if i >= a { let k = lemma_parent_before(h, L, a, i); assert(n[L[k] - 1]@ == g[L[k] - 1]@); }
            else { let k = lemma_parent_before(h, L, i, i); assert(n[L[k] - 1]@ == g[L[k] - 1]@); }
        }
    }
    assert forall|i: int| 0 <= i < b && #[trigger] owner(h, n, L, 0, b, i) implies n[L[i] - 1]@ == resolved(h, n, L[i]) by {
        if i < a { assert(owner(h, g, L, 0, a, i)); assert(n[L[i] - 1]@ == g[L[i] - 1]@); }
        else { assert(owner(h, g, L, a, b, i)); }
    }
    assert forall|i: int| 0 <= i < b implies n[#[trigger] L[i] - 1]@ == resolved(h, n, L[i]) || short_id(resolved(h, n, L[i]), n[L[i] - 1]@) by {
        if i < a { assert(n[L[i] - 1]@ == g[L[i] - 1]@); }
    }
}
