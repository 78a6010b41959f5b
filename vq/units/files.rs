// ---------------------------------------------------------------- byte order marks
// s[i..] starts with w
pub open spec fn at(s: Seq<i8>, i: int, w: Seq<i8>) -> bool { occurs(s, i, w) }
pub open spec fn bom8() -> Seq<i8> { seq![-17i8, -69i8, -65i8] }
pub open spec fn bom16le() -> Seq<i8> { seq![-1i8, -2i8] }
pub open spec fn bom16be() -> Seq<i8> { seq![-2i8, -1i8] }
pub open spec fn bom32be() -> Seq<i8> { seq![0i8, 0i8, -2i8, -1i8] }
pub open spec fn unsupported(s: Seq<i8>, i: int) -> bool { at(s, i, bom16le()) || at(s, i, bom16be()) || at(s, i, bom32be()) }
pub open spec fn body_start(s: Seq<i8>, i: int) -> int { if at(s, i, bom8()) { i + 3 } else { i } }

// the n characters of s at i are those of w at j
pub open spec fn same_chars(s: Seq<i8>, i: int, w: Seq<i8>, j: int, n: int) -> bool
{ 0 <= n && i + n <= s.len() && j + n <= w.len() && forall|k: int| i <= k < i + n ==> #[trigger] s[k] == w[k - i + j] }

pub proof fn lemma_at(s: Seq<i8>, i: int, w: Seq<i8>)
    requires 0 <= i,
    ensures
        at(s, i, w) && w.len() > 0 ==> s.len() > i && s[i] == w[0],
        at(s, i, w) && w.len() > 1 ==> s.len() > i + 1 && s[i + 1] == w[1],
        at(s, i, w) && w.len() > 2 ==> s.len() > i + 2 && s[i + 2] == w[2],
        at(s, i, w) && w.len() > 3 ==> s.len() > i + 3 && s[i + 3] == w[3],
        w.len() == 2 && i + 1 < s.len() && s[i] == w[0] && s[i + 1] == w[1] ==> at(s, i, w),
        w.len() == 3 && i + 2 < s.len() && s[i] == w[0] && s[i + 1] == w[1] && s[i + 2] == w[2] ==> at(s, i, w),
        w.len() == 4 && i + 3 < s.len() && s[i] == w[0] && s[i + 1] == w[1] && s[i + 2] == w[2] && s[i + 3] == w[3] ==> at(s, i, w),
{
    let t = s.subrange(i, i + w.len());
    if at(s, i, w) {
        if w.len() > 0 { assert(t[0] == w[0]); }
        if w.len() > 1 { assert(t[1] == w[1]); }
        if w.len() > 2 { assert(t[2] == w[2]); }
        if w.len() > 3 { assert(t[3] == w[3]); }
    }
    if w.len() == 2 && i + 1 < s.len() && s[i] == w[0] && s[i + 1] == w[1] { assert(t =~= w); }
    if w.len() == 3 && i + 2 < s.len() && s[i] == w[0] && s[i + 1] == w[1] && s[i + 2] == w[2] { assert(t =~= w); }
    if w.len() == 4 && i + 3 < s.len() && s[i] == w[0] && s[i + 1] == w[1] && s[i + 2] == w[2] && s[i + 3] == w[3] { assert(t =~= w); }
}
pub open spec fn no_nl(s: Seq<i8>, a: int, b: int) -> bool { forall|k: int| a <= k < b ==> #[trigger] s[k] != 13 && s[k] != 10 }

// ---------------------------------------------------------------- newlines
// s[i..] with "\r\n" and "\r" replaced by "\n"
pub open spec fn nl(s: Seq<i8>, i: int) -> Seq<i8>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { seq![] }
    else if s[i] == 13 { seq![10i8] + nl(s, if i + 1 < s.len() && s[i + 1] == 10 { i + 2 } else { i + 1 }) }
    else { seq![s[i]] + nl(s, i + 1) }
}
// a stretch without carriage returns is copied
pub proof fn lemma_nl_plain(s: Seq<i8>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|k: int| a <= k < b ==> s[k] != 13,
    ensures nl(s, a) =~= s.subrange(a, b) + nl(s, b),
    decreases b - a
{
    if a < b {
        lemma_nl_plain(s, a + 1, b);
        assert(s.subrange(a, b) =~= seq![s[a]] + s.subrange(a + 1, b));
    }
}
// the result has no carriage return; and text without one is unchanged
pub proof fn lemma_nl_normal(s: Seq<i8>, i: int)
    requires 0 <= i,
    ensures forall|k: int| 0 <= k < nl(s, i).len() ==> nl(s, i)[k] != 13,
    decreases s.len() - i
{
    if i < s.len() {
        let j = if s[i] == 13 { if i + 1 < s.len() && s[i + 1] == 10 { i + 2 } else { i + 1 } } else { i + 1 };
        let c = if s[i] == 13 { 10i8 } else { s[i] };
        lemma_nl_normal(s, j);
        assert(nl(s, i) == seq![c] + nl(s, j));
        assert forall|k: int| 0 <= k < nl(s, i).len() implies nl(s, i)[k] != 13 by {
            if k > 0 { assert(nl(s, i)[k] == nl(s, j)[k - 1]); }
        }
    }
}
pub proof fn lemma_nl_idempotent(s: Seq<i8>)
    ensures nl(nl(s, 0), 0) == nl(s, 0),
{
    lemma_nl_normal(s, 0);
    lemma_nl_plain(nl(s, 0), 0, nl(s, 0).len() as int);
    assert(nl(nl(s, 0), 0) =~= nl(s, 0));
}

// ---------------------------------------------------------------- lines and columns
pub open spec fn newlines(s: Seq<i8>, a: int, b: int) -> int
    decreases b - a
{
    if a >= b { 0 } else { newlines(s, a, b - 1) + (if s[b - 1] == 10 { 1int } else { 0int }) }
}
// start of the line holding position b (at least a)
pub open spec fn line_start(s: Seq<i8>, a: int, b: int) -> int
    decreases b - a
{
    if a >= b { a } else if s[b - 1] == 10 { b } else { line_start(s, a, b - 1) }
}
pub proof fn lemma_newlines(s: Seq<i8>, a: int, b: int)
    requires a <= b,
    ensures 0 <= newlines(s, a, b) <= b - a, a <= line_start(s, a, b) <= b,
        forall|k: int| line_start(s, a, b) <= k < b ==> s[k] != 10,
        line_start(s, a, b) > a ==> s[line_start(s, a, b) - 1] == 10,
    decreases b - a
{
    if a < b { lemma_newlines(s, a, b - 1); }
}
