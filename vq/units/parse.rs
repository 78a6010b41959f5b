// ---------------------------------------------------------------- scanning
// s holds w at i
pub open spec fn at(s: Seq<i8>, i: int, w: Seq<i8>) -> bool { occurs(s, i, w) }
// the first position >= i whose character is not in w
pub open spec fn some_of(s: Seq<i8>, w: Seq<i8>, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() || !w.contains(s[i]) { i } else { some_of(s, w, i + 1) } }
pub proof fn lemma_some_of(s: Seq<i8>, w: Seq<i8>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= some_of(s, w, i) <= s.len(),
    decreases s.len() - i
{ if i < s.len() && w.contains(s[i]) { lemma_some_of(s, w, i + 1); } }
// the position after the first w at or after i, or the end
pub open spec fn past(s: Seq<i8>, w: Seq<i8>, i: int) -> int
{ if find_from(s, w, i) <= s.len() { find_from(s, w, i) + w.len() } else { s.len() as int } }
pub proof fn lemma_past(s: Seq<i8>, w: Seq<i8>, i: int)
    requires 0 <= i <= s.len(), w.len() > 0,
    ensures i <= past(s, w, i) <= s.len(), past(s, w, i) == s.len() || past(s, w, i) >= i + w.len(),
{ lemma_find_from(s, w, i); }
pub open spec fn is_text(p: It) -> bool { p.i < p.s@.len() && cstr_end(p.s@, p.i as int) < p.s@.len() }
pub proof fn lemma_text(s: Seq<i8>, i: int)
    requires 0 <= i < s.len(), cstr_end(s, i) < s.len(),
    ensures s[i] == 0 ==> cstr(s, i).len() == 0,
        s[i] != 0 ==> i + 1 < s.len() && cstr_end(s, i + 1) == cstr_end(s, i) && cstr(s, i) =~= seq![s[i]] + cstr(s, i + 1),
        i <= cstr_end(s, i),
{
    lemma_first_of(s, seq![0i8], i);
    assert(seq![0i8][0] == 0);
    if s[i] != 0 { assert(!seq![0i8].contains(s[i])); lemma_first_of(s, seq![0i8], i + 1); }
}
pub open spec fn is_scan(it: It, end: It) -> bool { it.same(end) && end.i == end.s@.len() && it.i <= end.i }
pub fn it_find<'a>(a: It<'a>, b: It<'a>, c: i8) -> (r: It<'a>)
    requires is_scan(a, b),
    ensures r.s@ == a.s@, r.i == first_of(a.s@, seq![c], a.i as int), a.i <= r.i <= a.s@.len(),
{
    proof { lemma_first_of(a.s@, seq![c], a.i as int); assert(seq![c][0] == c); }
    let mut i = a.i;
    while i < a.s.len()
        invariant a.i <= i <= a.s@.len(), first_of(a.s@, seq![c], a.i as int) == first_of(a.s@, seq![c], i as int), seq![c][0] == c,
        decreases a.s@.len() - i
    {
        if a.s[i] == c { assert(seq![c].contains(a.s@[i as int])); return It { s: a.s, i }; }
        i = i + 1;
    }
    It { s: a.s, i }
}
pub fn psv_of<'a>(b: It<'a>, n: usize) -> (r: Psv<'a>)
    requires b.i + n <= b.s@.len(),
    ensures r.wf(), r.b == b, r.n == n,
{ Psv { b, n } }
