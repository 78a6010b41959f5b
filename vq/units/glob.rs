// ---- what a glob pattern means (independent of the code)
pub open spec fn uc(c: i8) -> int { if c < 0 { c + 256 } else { c as int } }

// i is inside a bracket expression; index just after its ']' , or -1 when the bracket is malformed
pub open spec fn br_end(p: Seq<i8>, i: int) -> int
    decreases p.len() - i
{
    if i < 0 || i >= p.len() { -1 }
    else if p[i] == 92 {        // backslash
        if i + 1 >= p.len() || p[i + 1] == 92 || p[i + 1] == 47 { -1 } else { br_end(p, i + 2) }
    }
    else if p[i] == 91 { -1 }   // [
    else if p[i] == 93 { i + 1 }
    else if p[i] == 47 { -1 }   // /
    else { br_end(p, i + 1) }
}

// x is one of the bracket's items, reading from i up to the ']'
pub open spec fn br_has(p: Seq<i8>, i: int, x: i8) -> bool
    decreases p.len() - i
{
    if i < 0 || i >= p.len() || p[i] == 93 { false }
    else {
        let esc = p[i] == 92 && i + 1 < p.len();
        let lo = if esc { uc(p[i + 1]) } else { uc(p[i]) };
        let j = if esc { i + 2 } else { i + 1 };
        if j < p.len() && p[j] == 45 && j + 1 < p.len() {
            if p[j + 1] == 93 { lo == x || x == 45 }
            else {
                let esc2 = p[j + 1] == 92 && j + 2 < p.len();
                let hi = if esc2 { uc(p[j + 2]) } else { uc(p[j + 1]) };
                let k = if esc2 { j + 3 } else { j + 2 };
                (lo <= x && x <= hi) || br_has(p, k, x)
            }
        }
        else { lo == x || br_has(p, j, x) }
    }
}

pub open spec fn br_start(p: Seq<i8>, i: int) -> int { if i + 1 < p.len() && p[i + 1] == 94 { i + 2 } else { i + 1 } }

// the whole bracket expression whose '[' is at i
pub open spec fn br_valid(p: Seq<i8>, i: int) -> bool { i + 1 < p.len() && p[i + 1] != 93 && br_end(p, i + 1) > i }
pub open spec fn br_match(p: Seq<i8>, i: int, x: i8) -> bool {
    (i + 1 < p.len() && p[i + 1] == 94) != br_has(p, br_start(p, i), x)
}

pub open spec fn valid(p: Seq<i8>, i: int) -> bool
    decreases p.len() - i
{
    if i < 0 { false } else if i >= p.len() { true }
    else if p[i] == 92 { i + 1 < p.len() && p[i + 1] != 92 && p[i + 1] != 47 && valid(p, i + 2) }
    else if p[i] == 91 { br_valid(p, i) && br_end(p, i + 1) <= p.len() && valid(p, br_end(p, i + 1)) }
    else if p[i] == 93 { false }
    else if p[i] == 42 { !(i + 1 < p.len() && p[i + 1] == 42) && valid(p, i + 1) }
    else { valid(p, i + 1) }
}

// an unescaped wildcard occurs at or after i
pub open spec fn wild(p: Seq<i8>, i: int) -> bool
    decreases p.len() - i
{
    if i < 0 || i >= p.len() { false }
    else if p[i] == 92 { i + 2 <= p.len() && wild(p, i + 2) }
    else if p[i] == 91 || p[i] == 63 || p[i] == 42 { true }
    else { wild(p, i + 1) }
}

// no control or non-ascii character among the literals and wildcards (brackets and escaped characters apart)
pub open spec fn plain_ascii(p: Seq<i8>, i: int) -> bool
    decreases p.len() - i
{
    if i < 0 || i >= p.len() { true }
    else if p[i] < 32 { false }
    else if p[i] == 92 { i + 2 > p.len() || plain_ascii(p, i + 2) }
    else if p[i] == 91 { if i < br_end(p, i + 1) <= p.len() { plain_ascii(p, br_end(p, i + 1)) } else { true } }
    else { plain_ascii(p, i + 1) }
}

// next pattern position after the one-character element at i, and whether that element accepts x
pub open spec fn next(p: Seq<i8>, i: int) -> int {
    if p[i] == 92 { i + 2 } else if p[i] == 91 { if i < br_end(p, i + 1) <= p.len() { br_end(p, i + 1) } else { p.len() as int } } else { i + 1 }
}
pub open spec fn one(p: Seq<i8>, i: int, x: i8) -> bool {
    if p[i] == 92 { i + 1 < p.len() && p[i + 1] == x }
    else if p[i] == 91 { br_match(p, i, x) }
    else if p[i] == 63 { true }
    else { p[i] == x }
}

// the declarative meaning: does the pattern from i match the name from j?
pub open spec fn matches(p: Seq<i8>, i: int, f: Seq<i8>, j: int) -> bool
    decreases (p.len() - i) + (f.len() - j), f.len() - j
{
    if i < 0 || j < 0 || j > f.len() { false }
    else if i >= p.len() { j == f.len() }
    else if p[i] == 42 { matches(p, i + 1, f, j) || (j < f.len() && matches(p, i, f, j + 1)) }
    else { j < f.len() && one(p, i, f[j]) && i < next(p, i) <= p.len() && matches(p, next(p, i), f, j + 1) }
}

pub open spec fn glob_meaning(p: Seq<i8>, f: Seq<i8>) -> bool {
    if f.len() == 0 { p.len() == 0 } else { matches(p, 0, f, 0) }
}

// ---- the section (run of one-character elements up to the next '*') at (i, j)
pub struct Sec { pub ok: bool, pub i: int, pub j: int }
pub open spec fn sec(p: Seq<i8>, i: int, f: Seq<i8>, j: int) -> Sec
    decreases p.len() - i
{
    if i < 0 || j < 0 || j > f.len() { Sec { ok: false, i, j } }
    else if i >= p.len() { Sec { ok: j == f.len(), i, j } }
    else if p[i] == 42 { Sec { ok: true, i, j } }
    else if j < f.len() && one(p, i, f[j]) && i < next(p, i) <= p.len() { sec(p, next(p, i), f, j + 1) }
    else { Sec { ok: false, i, j } }
}

pub proof fn lemma_br_end(p: Seq<i8>, i: int)
    ensures br_end(p, i) == -1 || i < br_end(p, i) <= p.len(),
    decreases p.len() - i
{
    if 0 <= i < p.len() {
        if p[i] == 92 { if i + 1 < p.len() { lemma_br_end(p, i + 2); } }
        else if p[i] != 91 && p[i] != 93 && p[i] != 47 { lemma_br_end(p, i + 1); }
    }
}

pub proof fn lemma_sec(p: Seq<i8>, i: int, f: Seq<i8>, j: int)
    requires 0 <= i <= p.len(), valid(p, i), 0 <= j <= f.len(),
    ensures
        matches(p, i, f, j) == (sec(p, i, f, j).ok && matches(p, sec(p, i, f, j).i, f, sec(p, i, f, j).j)),
        sec(p, i, f, j).ok ==> {
            let s = sec(p, i, f, j);
            i <= s.i <= p.len() && j <= s.j <= f.len() && valid(p, s.i) && (s.i == p.len() || p[s.i] == 42)
            && (s.i == p.len() ==> s.j == f.len())
        },
    decreases p.len() - i
{
    if i < p.len() && p[i] != 42 && j < f.len() && one(p, i, f[j]) {
        lemma_br_end(p, i + 1);
        lemma_sec(p, next(p, i), f, j + 1);
    }
}

// a section consumes the same pattern and the same number of characters wherever it matches
pub proof fn lemma_sec_shift(p: Seq<i8>, i: int, f: Seq<i8>, j: int, k: int)
    requires 0 <= i <= p.len(), valid(p, i), 0 <= j <= f.len(), 0 <= k <= f.len(), sec(p, i, f, j).ok, sec(p, i, f, k).ok,
    ensures sec(p, i, f, j).i == sec(p, i, f, k).i, sec(p, i, f, j).j - j == sec(p, i, f, k).j - k,
    decreases p.len() - i
{
    if i < p.len() && p[i] != 42 {
        lemma_br_end(p, i + 1);
        lemma_sec_shift(p, next(p, i), f, j + 1, k + 1);
    }
}

// what a '*' pattern matches, it matches with more characters in front
pub proof fn lemma_star_mono(p: Seq<i8>, i: int, f: Seq<i8>, j: int, k: int)
    requires 0 <= i < p.len(), p[i] == 42, 0 <= j <= k <= f.len(), matches(p, i, f, k),
    ensures matches(p, i, f, j),
    decreases k - j
{
    if j < k { lemma_star_mono(p, i, f, j + 1, k); }
}

// leftmost section match is enough
pub proof fn lemma_leftmost(p: Seq<i8>, i: int, f: Seq<i8>, j: int, k: int)
    requires
        0 <= i, i + 1 < p.len(), p[i] == 42, p[i + 1] != 42, valid(p, i), 0 <= j <= k <= f.len(),
        sec(p, i + 1, f, j).ok, matches(p, i, f, k),
    ensures matches(p, sec(p, i + 1, f, j).i, f, sec(p, i + 1, f, j).j),
    decreases f.len() - k
{
    lemma_sec(p, i + 1, f, j);
    if matches(p, i + 1, f, k) {
        lemma_sec(p, i + 1, f, k);
        lemma_sec_shift(p, i + 1, f, j, k);
        let s = sec(p, i + 1, f, j);
        let t = sec(p, i + 1, f, k);
        if s.i < p.len() { lemma_star_mono(p, s.i, f, s.j, t.j); }
    } else {
        lemma_leftmost(p, i, f, j, k + 1);
    }
}

pub proof fn lemma_star_step(p: Seq<i8>, i: int, f: Seq<i8>, j: int)
    requires 0 <= i, i + 1 < p.len(), p[i] == 42, p[i + 1] != 42, valid(p, i), 0 <= j <= f.len(),
    ensures
        j == f.len() ==> !matches(p, i, f, j),
        !sec(p, i + 1, f, j).ok && j < f.len() ==> matches(p, i, f, j) == matches(p, i, f, j + 1),
        sec(p, i + 1, f, j).ok ==> matches(p, i, f, j) == matches(p, sec(p, i + 1, f, j).i, f, sec(p, i + 1, f, j).j),
{
    lemma_sec(p, i + 1, f, j);
    if sec(p, i + 1, f, j).ok && matches(p, i, f, j) { lemma_leftmost(p, i, f, j, j); }
}

// bits
pub broadcast proof fn lemma_hi_bit(c: i32)
    ensures -128 <= c <= 127 ==> ((#[trigger] (c & 128)) != 0 <==> c < 0),
{
    assert(-128 <= c && c <= 127 ==> ((c & 128) != 0 <==> c < 0)) by (bit_vector);
}

// ---- find_glob_char / glob_unescape
pub open spec fn specials() -> Seq<i8> { seq![91i8, 93i8, 63i8, 42i8, 92i8] }   // []?*\
// first unescaped wildcard character ([ ] ? *) at or after i, or the length
pub open spec fn first_special(p: Seq<i8>, i: int) -> int
    decreases p.len() - i
{
    if i < 0 || i >= p.len() { p.len() as int }
    else if p[i] == 92 { if i + 2 <= p.len() { first_special(p, i + 2) } else { p.len() as int } }
    else if p[i] == 91 || p[i] == 93 || p[i] == 63 || p[i] == 42 { i }
    else { first_special(p, i + 1) }
}

// every backslash is followed by a character
pub open spec fn esc_ok(p: Seq<i8>, i: int) -> bool
    decreases p.len() - i
{
    if i < 0 || i >= p.len() { true }
    else if p[i] == 92 { i + 2 <= p.len() && esc_ok(p, i + 2) }
    else { esc_ok(p, i + 1) }
}

// drop each escaping backslash (a trailing one is dropped too)
pub open spec fn unescaped(p: Seq<i8>, i: int) -> Seq<i8>
    decreases p.len() - i
{
    if i < 0 || i >= p.len() { Seq::empty() }
    else if p[i] == 92 { if i + 1 < p.len() { seq![p[i + 1]] + unescaped(p, i + 2) } else { Seq::empty() } }
    else { seq![p[i]] + unescaped(p, i + 1) }
}

// reading on from the n characters that are left
pub proof fn lemma_find_step(p: Seq<i8>, n: int)
    requires 0 <= n <= p.len(),
    ensures ({
        let k = p.len() - n;
        let j = first_of(p.subrange(k, p.len() as int), specials(), 0);
        &&& j >= n ==> first_special(p, k) == p.len()
        &&& j < n && p[k + j] != 92 ==> first_special(p, k) == k + j
        &&& j < n && p[k + j] == 92 ==> first_special(p, k) == (if k + j + 2 <= p.len() { first_special(p, k + j + 2) } else { p.len() as int })
        &&& j < n && p[k + j] == 92 && esc_ok(p, k) ==> k + j + 2 <= p.len() && esc_ok(p, k + j + 2)
    }),
{
    let k = p.len() - n;
    let s = p.subrange(k, p.len() as int);
    let j = first_of(s, specials(), 0);
    lemma_first_of(s, specials(), 0);
    assert forall|q: int| k <= q < k + j implies p[q] != 92 && p[q] != 91 && p[q] != 93 && p[q] != 63 && p[q] != 42 by {
        assert(!specials().contains(s[q - k]));
        assert(specials()[0] == 91 && specials()[1] == 93 && specials()[2] == 63 && specials()[3] == 42 && specials()[4] == 92);
    }
    lemma_first_special_skip(p, k, k + j);
    if j < n { assert(s[j] == p[k + j]); }
}
pub proof fn lemma_first_special_skip(p: Seq<i8>, i: int, k: int)
    requires 0 <= i <= k <= p.len(), forall|q: int| i <= q < k ==> p[q] != 92 && p[q] != 91 && p[q] != 93 && p[q] != 63 && p[q] != 42,
    ensures first_special(p, i) == first_special(p, k), esc_ok(p, i) == esc_ok(p, k), i <= first_special(p, i) <= p.len(),
    decreases p.len() - i
{
    lemma_first_special_bound(p, i);
    if i < k { lemma_first_special_skip(p, i + 1, k); }
}
pub proof fn lemma_first_special_bound(p: Seq<i8>, i: int)
    requires 0 <= i <= p.len(),
    ensures i <= first_special(p, i) <= p.len(),
    decreases p.len() - i
{
    if i < p.len() {
        if p[i] == 92 { if i + 2 <= p.len() { lemma_first_special_bound(p, i + 2); } }
        else { lemma_first_special_bound(p, i + 1); }
    }
}
pub proof fn lemma_unescape_step(p: Seq<i8>, n: int)
    requires 0 <= n <= p.len(),
    ensures ({
        let k = p.len() - n;
        let s = p.subrange(k, p.len() as int);
        let j = first_of(s, seq![92i8], 0);
        &&& j >= n ==> unescaped(p, k) == s
        &&& j < n ==> s[j] == 92
        &&& j < n && j + 1 < n ==> unescaped(p, k) == s.subrange(0, j) + seq![s[j + 1]] + unescaped(p, k + j + 2)
        &&& j < n && j + 1 >= n ==> unescaped(p, k) == s.subrange(0, j)
    }),
{
    let k = p.len() - n;
    let s = p.subrange(k, p.len() as int);
    let j = first_of(s, seq![92i8], 0);
    lemma_first_of(s, seq![92i8], 0);
    assert forall|q: int| k <= q < k + j implies p[q] != 92 by {
        assert(!seq![92i8].contains(s[q - k]));
        assert(seq![92i8][0] == 92);
    }
    lemma_unescaped_skip(p, k, k + j);
    assert(s.subrange(0, j) =~= p.subrange(k, k + j));
    if j < n {
        assert(s[j] == p[k + j]);
        if j + 1 < n {
            assert(unescaped(p, k) =~= s.subrange(0, j) + seq![s[j + 1]] + unescaped(p, k + j + 2));
        } else {
            assert(unescaped(p, k) =~= s.subrange(0, j));
        }
    } else {
        assert(unescaped(p, k) =~= s);
    }
}
pub proof fn lemma_unescaped_skip(p: Seq<i8>, i: int, k: int)
    requires 0 <= i <= k <= p.len(), forall|q: int| i <= q < k ==> p[q] != 92,
    ensures unescaped(p, i) == p.subrange(i, k) + unescaped(p, k),
    decreases k - i
{
    if i < k {
        lemma_unescaped_skip(p, i + 1, k);
        assert(p.subrange(i, k) =~= seq![p[i]] + p.subrange(i + 1, k));
        assert(unescaped(p, i) =~= p.subrange(i, k) + unescaped(p, k));
    } else {
        assert(p.subrange(i, k) =~= Seq::empty());
        assert(unescaped(p, i) =~= p.subrange(i, k) + unescaped(p, k));
    }
}
pub proof fn lemma_tail_star(p: Seq<i8>, i: int, f: Seq<i8>, j: int)
    requires 0 <= i, i + 1 == p.len(), p[i] == 42, 0 <= j <= f.len(),
    ensures matches(p, i, f, j),
    decreases f.len() - j
{
    if j < f.len() { lemma_tail_star(p, i, f, j + 1); } else { assert(matches(p, i + 1, f, j)); }
}
