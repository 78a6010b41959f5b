// ---------------------------------------------------------------- dots
pub spec const DOT: i8 = 46;
pub open spec fn dots(s: Seq<i8>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { dots(s.drop_last()) + (if s.last() == DOT { 1int } else { 0 }) } }
pub proof fn lemma_dots_push(s: Seq<i8>, c: i8)
    ensures dots(s.push(c)) == dots(s) + (if c == DOT { 1int } else { 0 }),
{ assert(s.push(c).drop_last() =~= s); }
pub proof fn lemma_dots_concat(a: Seq<i8>, b: Seq<i8>)
    ensures dots(a + b) == dots(a) + dots(b),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); lemma_dots_concat(a, b.drop_last()); }
}
pub proof fn lemma_dots_range(s: Seq<i8>)
    ensures 0 <= dots(s) <= s.len(),
    decreases s.len()
{ if s.len() > 0 { lemma_dots_range(s.drop_last()); } }
pub open spec fn no_dot(s: Seq<i8>) -> bool { forall|k: int| 0 <= k < s.len() ==> s[k] != DOT }
pub proof fn lemma_no_dot(s: Seq<i8>)
    ensures no_dot(s) ==> dots(s) == 0,
    decreases s.len()
{ if no_dot(s) && s.len() > 0 { assert(no_dot(s.drop_last())); lemma_no_dot(s.drop_last()); } }
pub proof fn lemma_squeeze_no_dot(s: Seq<i8>, i: int, room: int)
    requires 0 <= i <= s.len(), no_dot(s.subrange(i, s.len() as int)),
    ensures no_dot(squeeze(s, i, room)),
    decreases s.len() - i
{
    if i < s.len() && room > 0 {
        assert(s.subrange(i, s.len() as int)[0] == s[i]);
        let j = if s[i] == US { skip_us(s, i + 1) } else { i + 1 };
        if s[i] == US { lemma_skip_us(s, i + 1); }
        assert forall|k: int| 0 <= k < s.len() - j implies s.subrange(j, s.len() as int)[k] != DOT by { assert(s.subrange(i, s.len() as int)[k + (j - i)] != DOT); }
        lemma_squeeze_no_dot(s, j, room - 1);
    }
}
pub proof fn lemma_norm_no_dot(s: Seq<i8>, size: int)
    requires no_dot(s),
    ensures no_dot(norm_id(s, size)),
{ lemma_skip_us(s, 0); let b = skip_us(s, 0); lemma_squeeze_no_dot(s, b, size); }
pub proof fn lemma_digits_no_dot(n: int)
    requires n >= 0,
    ensures no_dot(dec_digits(n)), dec_digits(n).len() > 0, dots(dec_digits(n)) == 0,
    decreases n
{ if n >= 10 { lemma_digits_no_dot(n / 10); } lemma_no_dot(dec_digits(n)); }
pub fn str_count(s: &Vec<i8>, c: i8) -> (r: i64)
    requires c == DOT, s@.len() < 0x4000_0000_0000_0000,
    ensures r == dots(s@),
{
    let mut i: usize = 0;
    let mut n: i64 = 0;
    while i < s.len()
        invariant i <= s@.len() < 0x4000_0000_0000_0000, 0 <= n <= i, n == dots(s@.subrange(0, i as int)), c == DOT,
        decreases s@.len() - i
    {
        proof { assert(s@.subrange(0, i + 1) =~= s@.subrange(0, i as int).push(s@[i as int])); lemma_dots_push(s@.subrange(0, i as int), s@[i as int]); }
        if s[i] == c { n = n + 1; }
        i = i + 1;
    }
    assert(s@.subrange(0, s@.len() as int) =~= s@);
    n
}
// ---------------------------------------------------------------- the placeholders
pub spec const BIG: int = 0x2000_0000_0000_0000;
pub open spec fn wf_ph(v: Seq<id_placeholder>, k: int) -> bool {
    let x = v[k];
    &&& x.index == k
    &&& x.parent <= k
    &&& x.num_dots == dots(x.id@) + (if x.parent == 0 { 0int } else { v[x.parent - 1].num_dots + 1 })
    &&& x.num_dots >= 0
    &&& x.unresolved_id@ == (if x.parent == 0 { x.id@ } else { v[x.parent - 1].unresolved_id@ + seq![DOT] + x.id@ })
}
pub open spec fn wf_heap(h: Heap_id_placeholder) -> bool {
    h.v@.len() < 0x1_0000_0000 && forall|k: int| 0 <= k < h.v@.len() ==> #[trigger] wf_ph(h.v@, k)
}
