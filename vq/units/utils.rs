// ---- XML text escaping
pub open spec fn esc1(c: i8) -> Seq<i8> {
    if c == 60 { seq![38i8, 108, 116, 59] }                      // < -> &lt;
    else if c == 62 { seq![38i8, 103, 116, 59] }                 // > -> &gt;
    else if c == 38 { seq![38i8, 97, 109, 112, 59] }             // & -> &amp;
    else if c == 34 { seq![38i8, 113, 117, 111, 116, 59] }       // " -> &quot;
    else { seq![c] }
}
// the first n characters, escaped
pub open spec fn esc(s: Seq<i8>, n: int) -> Seq<i8>
    decreases n
{
    if n <= 0 { Seq::empty() } else { esc(s, n - 1) + esc1(s[n - 1]) }
}
// reading markup back: what an XML parser makes of character data from position i
pub open spec fn at(t: Seq<i8>, i: int, w: Seq<i8>) -> bool { i + w.len() <= t.len() && t.subrange(i, i + w.len()) == w }
pub open spec fn unesc(t: Seq<i8>, i: int) -> Seq<i8>
    decreases t.len() - i
{
    if i < 0 || i >= t.len() { Seq::empty() }
    else if at(t, i, esc1(60)) { seq![60i8] + unesc(t, i + 4) }
    else if at(t, i, esc1(62)) { seq![62i8] + unesc(t, i + 4) }
    else if at(t, i, esc1(38)) { seq![38i8] + unesc(t, i + 5) }
    else if at(t, i, esc1(34)) { seq![34i8] + unesc(t, i + 6) }
    else { seq![t[i]] + unesc(t, i + 1) }
}
pub proof fn lemma_esc_split(s: Seq<i8>, n: int, m: int)
    requires 0 <= n <= m <= s.len(),
    ensures esc(s, m) == esc(s, n) + esc(s.subrange(n, m), m - n),
    decreases m - n
{
    if n == m { assert(esc(s, m) =~= esc(s, n) + esc(s.subrange(n, m), 0)); }
    else {
        lemma_esc_split(s, n, m - 1);
        lemma_esc_prefix(s.subrange(n, m), s.subrange(n, m - 1), m - 1 - n);
        assert(esc(s, m) =~= esc(s, n) + esc(s.subrange(n, m), m - n));
    }
}
pub proof fn lemma_esc_prefix(s: Seq<i8>, t: Seq<i8>, n: int)
    requires 0 <= n <= s.len(), n <= t.len(), forall|k: int| 0 <= k < n ==> s[k] == t[k],
    ensures esc(s, n) == esc(t, n),
    decreases n
{
    if n > 0 { lemma_esc_prefix(s, t, n - 1); }
}
// the unescaping of an output is the input: no information is lost, nothing can be read as markup
pub proof fn lemma_esc_roundtrip(s: Seq<i8>, n: int)
    requires 0 <= n <= s.len(),
    ensures unesc(esc(s, s.len() as int), esc(s, n).len() as int) == s.subrange(n, s.len() as int),
    decreases s.len() - n
{
    let t = esc(s, s.len() as int);
    let i = esc(s, n).len() as int;
    if n == s.len() {
        assert(unesc(t, i) =~= s.subrange(n, n));
    } else {
        let e = esc1(s[n]);
        lemma_esc_split(s, n + 1, s.len() as int);
        assert(t == (esc(s, n) + e) + esc(s.subrange(n + 1, s.len() as int), s.len() - n - 1));
        assert(t.subrange(i, i + e.len()) =~= e);
        assert(t[i] == e[0]);
        assert(forall|w: Seq<i8>| #[trigger] at(t, i, w) && w.len() > 0 ==> t[i] == t.subrange(i, i + w.len())[0]);
        assert(esc1(60)[1] == 108 && esc1(62)[1] == 103 && esc1(38)[1] == 97 && esc1(34)[1] == 113);
        assert(forall|w: Seq<i8>| #[trigger] at(t, i, w) && w.len() > 1 ==> t[i + 1] == t.subrange(i, i + w.len())[1]);
        lemma_esc_roundtrip(s, n + 1);
        assert(esc(s, n + 1).len() == i + e.len());
        if e.len() > 1 { assert(t[i + 1] == e[1]); }
        assert(unesc(t, i) == seq![s[n]] + unesc(t, i + e.len()));
        assert(seq![s[n]] + s.subrange(n + 1, s.len() as int) =~= s.subrange(n, s.len() as int));
    }
}
pub proof fn lemma_esc_no_markup(s: Seq<i8>, n: int)
    requires 0 <= n <= s.len(),
    ensures forall|k: int| 0 <= k < esc(s, n).len() ==> (#[trigger] esc(s, n)[k]) != 60 && esc(s, n)[k] != 62 && esc(s, n)[k] != 34,
    decreases n
{
    if n > 0 {
        lemma_esc_no_markup(s, n - 1);
        let p = esc(s, n - 1);
        assert forall|k: int| 0 <= k < esc(s, n).len() implies (#[trigger] esc(s, n)[k]) != 60 && esc(s, n)[k] != 62 && esc(s, n)[k] != 34 by {
            if k < p.len() { assert(esc(s, n)[k] == p[k]); }
            else { assert(esc(s, n)[k] == esc1(s[n - 1])[k - p.len()]); }
        }
    }
}

// ---- identifiers
pub open spec fn ident1(c: i8) -> int { if is_alnum(c as int) { to_lower(c as int) } else { 95 } }
pub open spec fn ident(s: Seq<i8>) -> Seq<i8> { Seq::new(s.len(), |k: int| ident1(s[k]) as i8) }

// ---- UTF-8
pub open spec fn byte(x: int) -> i8 { (if x >= 128 { x - 256 } else { x }) as i8 }
pub open spec fn utf8(c: int) -> Seq<i8> {
    if c < 0x80 { seq![byte(c)] }
    else if c < 0x800 { seq![byte(0xc0 + c / 64), byte(0x80 + c % 64)] }
    else if c < 0x10000 { seq![byte(0xe0 + c / 4096), byte(0x80 + (c / 64) % 64), byte(0x80 + c % 64)] }
    else if c < 0x110000 { seq![byte(0xf0 + c / 262144), byte(0x80 + (c / 4096) % 64), byte(0x80 + (c / 64) % 64), byte(0x80 + c % 64)] }
    else { seq![byte(0xef), byte(0xbf), byte(0xbd)] }
}
pub proof fn lemma_shift(c: u32)
    ensures
        (c & 63) == c % 64, (c >> 6) == c / 64, (c >> 12) == c / 4096, (c >> 18) == c / 262144,
        ((c >> 6) & 63) == (c / 64) % 64, ((c >> 12) & 63) == (c / 4096) % 64,
        // the same with | instead of +
        forall|d: u32| d < 64 ==> #[trigger] (128u32 | d) == 128 + d,
        c < 0x800 ==> 192u32 | (c >> 6) == 192 + c / 64, c < 0x10000 ==> 224u32 | (c >> 12) == 224 + c / 4096, c < 0x110000 ==> 240u32 | (c >> 18) == 240 + c / 262144,
{
    assert forall|d: u32| d < 64 implies #[trigger] (128u32 | d) == 128 + d by { assert(d < 64 ==> 128u32 | d == add(128u32, d)) by (bit_vector); }
    assert(c < 0x800 ==> 192u32 | (c >> 6) == add(192u32, c / 64)) by (bit_vector);
    assert(c < 0x10000 ==> 224u32 | (c >> 12) == add(224u32, c / 4096)) by (bit_vector);
    assert(c < 0x110000 ==> 240u32 | (c >> 18) == add(240u32, c / 262144)) by (bit_vector);
    assert((c & 63) == c % 64 && (c >> 6) == c / 64 && (c >> 12) == c / 4096 && (c >> 18) == c / 262144) by (bit_vector);
    assert(((c >> 6) & 63) == (c / 64) % 64 && ((c >> 12) & 63) == (c / 4096) % 64) by (bit_vector);
}

// ---- URI escaping
pub open spec fn ub(c: i8) -> int { if c < 0 { c + 256 } else { c as int } }
pub open spec fn hexdig(v: int) -> i8 { (if v < 10 { 48 + v } else { 87 + v }) as i8 }
pub open spec fn pct(c: i8) -> Seq<i8> { seq![37i8, hexdig(ub(c) / 16), hexdig(ub(c) % 16)] }
pub open spec fn valid_pct(s: Seq<i8>, n: int) -> bool { n + 2 < s.len() && is_xdigit(s[n + 1] as int) && is_xdigit(s[n + 2] as int) }
pub open spec fn uri_plain(s: Seq<i8>, n: int, mark: Seq<i8>) -> bool {
    s[n] > 0 && (is_alnum(s[n] as int) || mark.contains(s[n])) && (s[n] == 37 ==> valid_pct(s, n))
}
pub open spec fn uri1(s: Seq<i8>, n: int, mark: Seq<i8>) -> Seq<i8> { if uri_plain(s, n, mark) { seq![s[n]] } else { pct(s[n]) } }
pub open spec fn enc_uri(s: Seq<i8>, n: int, mark: Seq<i8>) -> Seq<i8>
    decreases n
{
    if n <= 0 { Seq::empty() } else { enc_uri(s, n - 1, mark) + uri1(s, n - 1, mark) }
}
pub open spec fn marks() -> Seq<i8> { seq![45i8, 95, 46, 33, 126, 42, 39, 40, 41, 63, 92, 47] }   // -_.!~*'()?\/
pub open spec fn marks2() -> Seq<i8> { seq![45i8, 95, 46, 33, 126, 42, 39, 40, 41, 63, 92, 47, 58, 38, 61, 35, 37, 43] }                // ... :&=#%+
// all characters of the output are URI characters
pub proof fn lemma_uri_chars(s: Seq<i8>, n: int, mark: Seq<i8>)
    requires 0 <= n <= s.len(),
    ensures forall|k: int| 0 <= k < enc_uri(s, n, mark).len() ==> { let c = #[trigger] enc_uri(s, n, mark)[k]; c > 0 && (is_alnum(c as int) || c == 37 || mark.contains(c)) },
    decreases n
{
    if n > 0 {
        lemma_uri_chars(s, n - 1, mark);
        lemma_pct(s[n - 1]);
        let p = enc_uri(s, n - 1, mark);
        assert forall|k: int| 0 <= k < enc_uri(s, n, mark).len() implies { let c = #[trigger] enc_uri(s, n, mark)[k]; c > 0 && (is_alnum(c as int) || c == 37 || mark.contains(c)) } by {
            if k < p.len() { assert(enc_uri(s, n, mark)[k] == p[k]); }
            else { assert(enc_uri(s, n, mark)[k] == uri1(s, n - 1, mark)[k - p.len()]); }
        }
    }
}
pub open spec fn hexval(c: i8) -> int { if is_digit(c as int) { c - 48 } else if c >= 97 { c - 87 } else { c - 55 } }
pub proof fn lemma_pct(c: i8)
    ensures pct(c).len() == 3, is_xdigit(pct(c)[1] as int), is_xdigit(pct(c)[2] as int),
        16 * hexval(pct(c)[1]) + hexval(pct(c)[2]) == ub(c),
        is_alnum(pct(c)[1] as int), is_alnum(pct(c)[2] as int), pct(c)[1] > 0, pct(c)[2] > 0, pct(c)[0] == 37,
{
    let v = ub(c);
    assert(0 <= v / 16 < 16 && 0 <= v % 16 < 16 && v == 16 * (v / 16) + v % 16);
}
