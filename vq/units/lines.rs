// ---------------------------------------------------------------- lines, indentation
pub open spec fn ws(c: i8) -> bool { c == 32 || c == 9 }
// first position >= i which is not a space or tab
pub open spec fn skip(s: Seq<i8>, i: int) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { i } else if ws(s[i]) { skip(s, i + 1) } else { i }
}
// the position after the n-th newline from a
pub open spec fn gl(o: Seq<i8>, a: int, n: int) -> int
    decreases o.len() - a
{
    if n <= 0 || a < 0 || a >= o.len() { a } else if o[a] == 10 { gl(o, a + 1, n - 1) } else { gl(o, a + 1, n) }
}
pub proof fn lemma_nl_front(s: Seq<i8>, a: int, b: int)
    requires a < b,
    ensures newlines(s, a, b) == (if s[a] == 10 { 1int } else { 0int }) + newlines(s, a + 1, b),
    decreases b - a
{
    if a + 1 < b { lemma_nl_front(s, a, b - 1); }
    else { assert(newlines(s, a, b - 1) == 0); assert(newlines(s, a + 1, b) == 0); }
}
pub proof fn lemma_nl_split(s: Seq<i8>, a: int, m: int, b: int)
    requires a <= m <= b,
    ensures newlines(s, a, b) == newlines(s, a, m) + newlines(s, m, b),
    decreases b - m
{
    if m < b { lemma_nl_split(s, a, m, b - 1); }
}
pub proof fn lemma_nl_none(s: Seq<i8>, a: int, b: int)
    requires a <= b, forall|k: int| a <= k < b ==> s[k] != 10,
    ensures newlines(s, a, b) == 0, line_start(s, a, b) == a,
    decreases b - a
{
    if a < b { lemma_nl_none(s, a, b - 1); }
}
pub proof fn lemma_nl_shift(s: Seq<i8>, a: int, b: int, t: Seq<i8>, d: int)
    requires a <= b, forall|k: int| a <= k < b ==> #[trigger] s[k] == t[k + d],
    ensures newlines(t, a + d, b + d) == newlines(s, a, b), line_start(t, a + d, b + d) == line_start(s, a, b) + d,
    decreases b - a
{
    if a < b { assert(s[b - 1] == t[b - 1 + d]); lemma_nl_shift(s, a, b - 1, t, d); }
}
// line_start from a later point
pub proof fn lemma_ls_split(s: Seq<i8>, a: int, m: int, b: int)
    requires a <= m <= b,
    ensures newlines(s, m, b) > 0 ==> line_start(s, a, b) == line_start(s, m, b),
        newlines(s, m, b) == 0 ==> line_start(s, a, b) == line_start(s, a, m) && line_start(s, m, b) == m,
    decreases b - m
{
    lemma_newlines(s, m, b);
    if m < b {
        lemma_ls_split(s, a, m, b - 1);
        lemma_newlines(s, m, b - 1);
    }
}
pub proof fn lemma_skip(s: Seq<i8>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= skip(s, i) <= s.len(),
        forall|k: int| i <= k < skip(s, i) ==> ws(#[trigger] s[k]),
        skip(s, i) < s.len() ==> !ws(s[skip(s, i)]),
    decreases s.len() - i
{
    if i < s.len() && ws(s[i]) { lemma_skip(s, i + 1); }
}
pub proof fn lemma_skip_is(s: Seq<i8>, i: int, j: int)
    requires 0 <= i <= j <= s.len(), forall|k: int| i <= k < j ==> ws(#[trigger] s[k]), j == s.len() || !ws(s[j]),
    ensures skip(s, i) == j,
    decreases j - i
{
    if i < j { assert(ws(s[i])); lemma_skip_is(s, i + 1, j); }
}
pub proof fn lemma_skip_from(s: Seq<i8>, i: int, m: int)
    requires 0 <= i <= m <= skip(s, i), i <= s.len(),
    ensures skip(s, m) == skip(s, i),
{
    lemma_skip(s, i);
    lemma_skip_is(s, m, skip(s, i));
}
pub proof fn lemma_skip_agree(s: Seq<i8>, t: Seq<i8>, i: int, d: int, p: int)
    requires 0 <= i <= p < s.len(), 0 <= i + d, p + d < t.len(), forall|k: int| i <= k <= p ==> #[trigger] s[k] == t[k + d],
    ensures (skip(s, i) <= p) == (skip(t, i + d) <= p + d), skip(s, i) <= p ==> skip(t, i + d) == skip(s, i) + d,
    decreases p - i
{
    assert(s[i] == t[i + d]);
    if ws(s[i]) {
        if i < p { lemma_skip_agree(s, t, i + 1, d, p); }
        else { lemma_skip(s, i + 1); lemma_skip(t, i + d + 1); }
    }
}
pub proof fn lemma_gl(o: Seq<i8>, a: int, n: int)
    requires 0 <= a <= o.len(), 0 <= n <= newlines(o, a, o.len() as int),
    ensures a <= gl(o, a, n) <= o.len(), newlines(o, a, gl(o, a, n)) == n, n > 0 ==> a < gl(o, a, n) && o[gl(o, a, n) - 1] == 10,
        n == 0 ==> gl(o, a, n) == a,
    decreases o.len() - a
{
    if n > 0 {
        if a >= o.len() { assert(newlines(o, a, o.len() as int) == 0); }
        else {
            lemma_nl_front(o, a, o.len() as int);
            lemma_gl(o, a + 1, if o[a] == 10 { n - 1 } else { n });
            lemma_nl_front(o, a, gl(o, a, n));
        }
    } else { assert(newlines(o, a, a) == 0); }
}
// no newline before b: the count may start at b
pub proof fn lemma_gl_from(o: Seq<i8>, a: int, b: int, n: int)
    requires 0 <= a <= b <= o.len(), forall|k: int| a <= k < b ==> o[k] != 10, n > 0,
    ensures gl(o, a, n) == gl(o, b, n),
    decreases b - a
{
    if a < b { lemma_gl_from(o, a + 1, b, n); }
}
// n lines, then k more
pub proof fn lemma_gl_add(o: Seq<i8>, a: int, n: int, k: int)
    requires 0 <= a <= o.len(), 0 <= n, 0 <= k, n + k <= newlines(o, a, o.len() as int),
    ensures gl(o, a, n + k) == gl(o, gl(o, a, n), k),
    decreases o.len() - a
{
    if n > 0 {
        if a >= o.len() { assert(newlines(o, a, o.len() as int) == 0); }
        else {
            lemma_nl_front(o, a, o.len() as int);
            lemma_gl_add(o, a + 1, if o[a] == 10 { n - 1 } else { n }, k);
        }
    }
}
pub proof fn lemma_gl_is(s: Seq<i8>, a: int, p: int)
    requires 0 <= a <= p <= s.len(),
    ensures gl(s, a, newlines(s, a, p)) == line_start(s, a, p),
    decreases p - a
{
    lemma_newlines(s, a, p);
    if a < p {
        lemma_nl_front(s, a, p);
        lemma_newlines(s, a + 1, p);
        lemma_gl_is(s, a + 1, p);
        lemma_ls_split(s, a, a + 1, p);
        assert(newlines(s, a, a + 1) == (if s[a] == 10 { 1int } else { 0int })) by { assert(newlines(s, a, a) == 0); }
        assert(line_start(s, a, a + 1) == (if s[a] == 10 { a + 1 } else { a })) by { assert(line_start(s, a, a) == a); }
        if newlines(s, a + 1, p) == 0 { lemma_nl_zero(s, a + 1, p); }
    }
}
pub proof fn lemma_nl_zero(s: Seq<i8>, a: int, b: int)
    requires a <= b, newlines(s, a, b) == 0,
    ensures forall|k: int| a <= k < b ==> s[k] != 10, line_start(s, a, b) == a,
    decreases b - a
{
    if a < b { lemma_newlines(s, a, b - 1); lemma_nl_zero(s, a, b - 1); }
}
pub proof fn lemma_gl_shift(s: Seq<i8>, a: int, n: int, t: Seq<i8>, d: int)
    requires 0 <= a <= s.len(), 0 <= a + d, s.len() + d <= t.len(), 0 <= n <= newlines(s, a, s.len() as int), forall|k: int| a <= k < s.len() ==> #[trigger] s[k] == t[k + d],
    ensures gl(t, a + d, n) == gl(s, a, n) + d,
    decreases s.len() - a
{
    if n > 0 {
        if a < s.len() {
            lemma_nl_front(s, a, s.len() as int);
            assert(s[a] == t[a + d]);
            lemma_gl_shift(s, a + 1, if s[a] == 10 { n - 1 } else { n }, t, d);
        } else { assert(newlines(s, a, s.len() as int) == 0); }
    }
}
// ---------------------------------------------------------------- text without the spaces at the start of its lines
pub open spec fn bol(s: Seq<i8>) -> bool
    decreases s.len()
{ s.len() == 0 || s.last() == 10 || (ws(s.last()) && bol(s.drop_last())) }
pub open spec fn content(s: Seq<i8>) -> Seq<i8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if ws(s.last()) && bol(s.drop_last()) { content(s.drop_last()) }
    else { content(s.drop_last()).push(s.last()) }
}
pub proof fn lemma_content_ws(s: Seq<i8>, w: Seq<i8>)
    requires bol(s), forall|k: int| 0 <= k < w.len() ==> ws(#[trigger] w[k]),
    ensures content(s + w) == content(s), bol(s + w),
    decreases w.len()
{
    if w.len() > 0 {
        assert((s + w).drop_last() =~= s + w.drop_last());
        assert((s + w).last() == w[w.len() - 1]);
        lemma_content_ws(s, w.drop_last());
    } else { assert(s + w =~= s); }
}
pub proof fn lemma_content_same(s: Seq<i8>, t: Seq<i8>, w: Seq<i8>)
    requires content(s) == content(t), bol(s) == bol(t),
    ensures content(s + w) == content(t + w), bol(s + w) == bol(t + w),
    decreases w.len()
{
    if w.len() > 0 {
        assert((s + w).drop_last() =~= s + w.drop_last());
        assert((t + w).drop_last() =~= t + w.drop_last());
        assert((s + w).last() == w[w.len() - 1]);
        assert((t + w).last() == w[w.len() - 1]);
        lemma_content_same(s, t, w.drop_last());
    } else { assert(s + w =~= s); assert(t + w =~= t); }
}
pub proof fn lemma_content(q: Seq<i8>)
    ensures ({
        let n = q.len() as int;
        let t = content(q);
        let l = line_start(q, 0, n);
        &&& newlines(t, 0, t.len() as int) == newlines(q, 0, n)
        &&& bol(q) == (skip(q, l) == n)
        &&& t.len() - line_start(t, 0, t.len() as int) == n - skip(q, l)
        &&& 0 <= l <= skip(q, l) <= n
    }),
    decreases q.len()
{
    let n = q.len() as int;
    lemma_newlines(q, 0, n);
    lemma_skip(q, line_start(q, 0, n));
    if n > 0 {
        let r = q.drop_last();
        let x = q.last();
        lemma_content(r);
        lemma_nl_shift(r, 0, n - 1, q, 0);
        let l = line_start(r, 0, n - 1);
        assert(q[n - 1] == x);
        if x == 10 {
            let t = content(q);
            assert(t.drop_last() =~= content(r));
            lemma_nl_shift(content(r), 0, t.len() - 1, t, 0);
        } else {
            lemma_skip(q, l);
            lemma_skip(r, l);
            assert forall|k: int| l <= k < skip(r, l) implies ws(#[trigger] q[k]) by { assert(ws(r[k])); }
            if ws(x) && bol(r) {
                lemma_skip_is(q, l, n);
            } else {
                let t = content(q);
                lemma_nl_shift(content(r), 0, t.len() - 1, t, 0);
                if skip(r, l) < n - 1 { assert(q[skip(r, l)] == r[skip(r, l)]); }
                lemma_skip_is(q, l, skip(r, l));
            }
        }
    }
}
pub proof fn lemma_content_prefix(s: Seq<i8>, p: int)
    requires 0 <= p <= s.len(),
    ensures content(s.subrange(0, p)).len() <= content(s).len(), content(s).subrange(0, content(s.subrange(0, p)).len() as int) == content(s.subrange(0, p)),
    decreases s.len() - p
{
    if p < s.len() {
        lemma_content_prefix(s, p + 1);
        assert(s.subrange(0, p + 1).drop_last() =~= s.subrange(0, p));
        let a = content(s.subrange(0, p));
        let b = content(s.subrange(0, p + 1));
        assert(b.subrange(0, a.len() as int) =~= a);
        assert(content(s).subrange(0, a.len() as int) =~= content(s).subrange(0, b.len() as int).subrange(0, a.len() as int));
    } else {
        assert(s.subrange(0, p) =~= s);
        assert(content(s).subrange(0, content(s).len() as int) =~= content(s));
    }
}
// a character which is not at the start of its line, and its place in the content
pub open spec fn kept(s: Seq<i8>, p: int) -> bool { 0 <= p < s.len() && skip(s, line_start(s, 0, p)) <= p }
pub open spec fn place(s: Seq<i8>, p: int) -> int { content(s.subrange(0, p)).len() as int }
pub proof fn lemma_kept_place(s: Seq<i8>, p: int)
    requires kept(s, p),
    ensures place(s, p) < content(s).len(), content(s)[place(s, p)] == s[p], newlines(content(s), 0, place(s, p)) == newlines(s, 0, p),
        place(s, p) - line_start(content(s), 0, place(s, p)) == p - skip(s, line_start(s, 0, p)),
{
    let q = s.subrange(0, p);
    let k = place(s, p);
    lemma_content(q);
    lemma_nl_shift(q, 0, p, s, 0);
    let l = line_start(s, 0, p);
    lemma_newlines(s, 0, p);
    lemma_skip(s, l);
    lemma_skip(q, l);
    let c = skip(s, l);
    assert forall|j: int| l <= j < c implies ws(#[trigger] q[j]) by { assert(ws(s[j])); }
    if c < p { assert(q[c] == s[c]); }
    lemma_skip_is(q, l, c);
    let q1 = s.subrange(0, p + 1);
    assert(q1.drop_last() =~= q);
    assert(q1.last() == s[p]);
    assert(!(ws(s[p]) && bol(q)));
    lemma_content_prefix(s, p + 1);
    assert(content(q1) == content(q).push(s[p]));
    assert(content(s)[k] == content(s).subrange(0, content(q1).len() as int)[k]);
    assert forall|j: int| 0 <= j < k implies #[trigger] content(q)[j] == content(s)[j + 0] by {
        assert(content(s).subrange(0, content(q1).len() as int)[j] == content(q1)[j]);
    }
    lemma_nl_shift(content(q), 0, k, content(s), 0);
}
pub proof fn lemma_place_found(s: Seq<i8>, k: int) -> (p: int)
    requires 0 <= k < content(s).len(),
    ensures kept(s, p), place(s, p) == k,
    decreases s.len()
{
    let r = s.drop_last();
    let n = s.len() as int;
    lemma_content(r);
    if content(r).len() <= k {
        assert(s.subrange(0, n - 1) =~= r);
        lemma_nl_shift(r, 0, n - 1, s, 0);
        let l = line_start(s, 0, n - 1);
        lemma_skip(r, l);
        lemma_skip(s, l);
        if skip(s, l) == n { assert forall|j: int| l <= j < n - 1 implies ws(#[trigger] r[j]) by { assert(ws(s[j])); } lemma_skip_is(r, l, n - 1); assert(ws(s[n - 1])); }
        n - 1
    } else {
        let p = lemma_place_found(r, k);
        assert(s.subrange(0, p) =~= r.subrange(0, p));
        lemma_nl_shift(r, 0, p, s, 0);
        let l = line_start(s, 0, p);
        lemma_newlines(s, 0, p);
        lemma_skip_agree(r, s, l, 0, p);
        p
    }
}
// the same character in a text with the same content
pub proof fn lemma_content_at(u: Seq<i8>, t: Seq<i8>, p: int)
    requires content(u) == content(t), kept(u, p),
    ensures ({
        let n = newlines(u, 0, p);
        let x = skip(t, gl(t, 0, n)) + (p - skip(u, line_start(u, 0, p)));
        0 <= gl(t, 0, n) <= skip(t, gl(t, 0, n)) <= x < t.len() && t[x] == u[p] && 0 <= n <= newlines(t, 0, t.len() as int)
    }),
{
    lemma_kept_place(u, p);
    let k = place(u, p);
    let q = lemma_place_found(t, k);
    lemma_kept_place(t, q);
    lemma_gl_is(t, 0, q);
    lemma_newlines(u, 0, p);
    lemma_newlines(t, 0, q);
    lemma_newlines(t, q, t.len() as int);
    lemma_nl_split(t, 0, q, t.len() as int);
    lemma_skip(t, line_start(t, 0, q));
    lemma_skip(u, line_start(u, 0, p));
}
