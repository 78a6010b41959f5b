// ---------------------------------------------------------------- <algorithm>
pub open spec fn count_of(s: Seq<i8>, c: i8, i: int, j: int) -> int
    decreases j - i
{ if i >= j { 0 } else { count_of(s, c, i, j - 1) + (if s[j - 1] == c { 1int } else { 0 }) } }
pub fn it_count<'a>(a: It<'a>, b: It<'a>, c: i8) -> (r: i64)
    requires a.same(b), a.i <= b.i <= a.s@.len(),
    ensures r == count_of(a.s@, c, a.i as int, b.i as int), 0 <= r <= b.i - a.i,
{
    proof { ax::slice_len_bound(a.s); }
    let mut k = a.i;
    let mut r = 0i64;
    while k < b.i
        invariant a.same(b), a.i <= k <= b.i <= a.s@.len(), a.s@.len() < 0x1_0000_0000_0000, r == count_of(a.s@, c, a.i as int, k as int), 0 <= r <= k - a.i,
        decreases b.i - k
    { if a.s[k] == c { r = r + 1; } k = k + 1; }
    r
}
// ---------------------------------------------------------------- what a relative reference means
// the part of a path before its fragment
pub open spec fn doc_end(p: Seq<i8>) -> int { first_of(p, b"#", 0) }
pub open spec fn doc(p: Seq<i8>) -> Seq<i8> { p.subrange(0, doc_end(p)) }
// where the directory which contains b[..e] ends (after its last slash)
pub open spec fn dir_end(b: Seq<i8>, e: int) -> int
    decreases e
{ if e <= 0 { 0 } else if b[e - 1] == 47 { e } else { dir_end(b, e - 1) } }
pub open spec fn up_dir(b: Seq<i8>, d: int) -> int { if d <= 0 { 0 } else { dir_end(b, d - 1) } }
// a reference r which is taken from the directory b[..d]
pub open spec fn resolve_from(b: Seq<i8>, d: int, r: Seq<i8>) -> Seq<i8>
    decreases r.len()
{ if r.len() >= 3 && r[0] == 46 && r[1] == 46 && r[2] == 47 { resolve_from(b, up_dir(b, d), r.subrange(3, r.len() as int)) } else { b.subrange(0, d) + r } }
// what the reference r means in the page b (RFC 3986, without dot segments in r other than leading ones)
pub open spec fn resolve(b: Seq<i8>, r: Seq<i8>) -> Seq<i8> {
    if r.len() == 0 { doc(b) }
    else if r[0] == 35 { doc(b) + r }
    else if r[0] == 47 { r }
    else { resolve_from(b, dir_end(b, doc_end(b)), r) }
}
// an empty fragment is the page itself
pub open spec fn target(p: Seq<i8>) -> Seq<i8> { if p.len() == doc_end(p) + 1 { doc(p) } else { p } }
pub open spec fn ups(n: int) -> Seq<i8>
    decreases n
{ if n <= 0 { Seq::empty() } else { ups(n - 1) + b"../" } }
// the path of a page, perhaps with a fragment: relative, names a file, without empty or ".." segments
pub open spec fn page_path(p: Seq<i8>) -> bool {
    let e = doc_end(p);
    &&& e > 0 && p[0] != 47 && p[e - 1] != 47
    &&& forall|k: int| 0 <= k && k + 2 < e && #[trigger] p[k] == 46 && p[k + 1] == 46 ==> p[k + 2] != 47
    &&& forall|k: int| 0 <= k && k + 1 < e && #[trigger] p[k] == 47 ==> p[k + 1] != 47
}
pub proof fn lemma_ups(n: int)
    requires n >= 0,
    ensures ups(n) + b"../" == b"../" + ups(n), ups(n).len() == 3 * n, n > 0 ==> ups(n)[0] == 46,
    decreases n
{
    if n > 0 {
        lemma_ups(n - 1);
        assert(ups(n) + b"../" =~= (b"../" + ups(n - 1)) + b"../");
        assert((b"../" + ups(n - 1)) + b"../" =~= b"../" + (ups(n - 1) + b"../"));
        assert(ups(n) == b"../" + ups(n - 1));
    } else { assert(ups(n) + b"../" =~= b"../" + ups(n)); }
}
// the references to the directories between climb out of them
pub proof fn lemma_climb(b: Seq<i8>, d: int, e: int, rest: Seq<i8>)
    requires 0 <= d <= e <= b.len(), d == 0 || b[d - 1] == 47,
    ensures resolve_from(b, dir_end(b, e), ups(count_of(b, 47, d, e)) + rest) == resolve_from(b, d, rest), count_of(b, 47, d, e) >= 0,
    decreases e
{
    let n = count_of(b, 47, d, e);
    if e == d {
        assert(ups(0) + rest =~= rest);
    } else {
        lemma_climb(b, d, e - 1, rest);
        if b[e - 1] == 47 {
            lemma_ups(n - 1);
            let r = ups(n) + rest;
            assert(r =~= b"../" + (ups(n - 1) + rest));
            assert(r.subrange(3, r.len() as int) =~= ups(n - 1) + rest);
            assert(r[0] == 46 && r[1] == 46 && r[2] == 47);
        }
    }
}
pub proof fn lemma_last(b: Seq<i8>, p: Seq<i8>, d: int, up: int)
    requires page_path(p), 0 <= d < doc_end(p), d <= doc_end(b) <= b.len(), d == 0 || p[d - 1] == 47, forall|k: int| 0 <= k < d ==> p[k] == b[k], up == count_of(b, 47, d, doc_end(b)),
        forall|k: int| 0 <= k < doc_end(p) ==> #[trigger] p[k] != 35, doc_end(p) <= p.len(), doc_end(p) < p.len() ==> p[doc_end(p)] == 35,
    ensures resolve(b, ups(up) + p.subrange(d, p.len() as int)) == p,
{
    let rest = p.subrange(d, p.len() as int);
    let r = ups(up) + rest;
    let e = doc_end(p);
    if d > 0 { assert(b[d - 1] == 47); assert(p[d] != 47); }
    lemma_climb(b, d, doc_end(b), rest);
    lemma_ups(up);
    assert(rest[0] == p[d]);
    assert(p[d] != 35);
    assert(r[0] != 35 && r[0] != 47);
    if rest.len() >= 3 && rest[0] == 46 && rest[1] == 46 && rest[2] == 47 {
        assert(p[d] == 46 && p[d + 1] == 46 && p[d + 2] == 47);
        if d + 2 >= e { assert(p[e] == 35); }
    }
    assert(b.subrange(0, d) + rest =~= p);
}
pub proof fn lemma_hash(p: Seq<i8>)
    requires doc_end(p) == p.len(),
    ensures target(p + b"#") == p,
{
    let q = p + b"#";
    lemma_first_of(p, b"#", 0);
    lemma_first_of(q, b"#", 0);
    assert(b"#"[0] == 35);
    assert(b"#".contains(35));
    assert(q[p.len() as int] == 35);
    if doc_end(q) < p.len() { assert(p[doc_end(q)] == q[doc_end(q)]); }
    assert(doc(q) =~= p);
}
// ---------------------------------------------------------------- where boost: links lead
pub struct PathOrUrl { pub set: bool }
pub uninterp spec fn pou_join(r: PathOrUrl, p: Seq<i8>) -> PathOrUrl;
pub uninterp spec fn pou_relative(g: html_gen, x: PathOrUrl) -> Seq<i8>;
pub fn PathOrUrl_uninit() -> (r: PathOrUrl) { PathOrUrl { set: false } }
impl PathOrUrl {
    pub fn set(&self) -> (r: bool) ensures r == self.set { self.set }
    #[verifier::external_body]
    pub fn join(&self, p: &[i8]) -> (r: PathOrUrl) ensures r == pou_join(*self, p@), { unimplemented!() }
}
pub fn slice_starts(s: &[i8], p: &[i8]) -> (r: bool) ensures r == at(s@, 0, p@),
{
    if s.len() < p.len() { return false; }
    let mut k = 0usize;
    while k < p.len()
        invariant k <= p@.len() <= s@.len(), forall|j: int| 0 <= j < k ==> s@[j] == p@[j],
        decreases p@.len() - k
    { if s[k] != p[k] { assert(s@.subrange(0, p@.len() as int)[k as int] != p@[k as int]); return false; } k = k + 1; }
    assert(s@.subrange(0, p@.len() as int) =~= p@);
    true
}
pub open spec fn is_boost(l: Seq<i8>) -> bool { at(l, 0, b"boost:") }
pub open spec fn boost_rest(l: Seq<i8>) -> Seq<i8> { if l.len() > 6 && l[6] == 47 { l.subrange(7, l.len() as int) } else { l.subrange(6, l.len() as int) } }
pub open spec fn scheme_char(c: i8, first: bool) -> bool { (97 <= c <= 122) || (65 <= c <= 90) || (!first && ((48 <= c <= 57) || c == 43 || c == 45 || c == 46)) }
// RFC 3986: scheme ":"
pub open spec fn is_absolute(l: Seq<i8>) -> bool { let e = first_of(l, b":", 0); 0 < e < l.len() && forall|k: int| 0 <= k < e ==> scheme_char(#[trigger] l[k], k == 0) }
