// Library model.  Everything here is ordinary verified Rust unless marked external_body/axiom
// (listed as trusted in the evidence); what is trusted is that these contracts describe the C++
// operation named beside each.
use vstd::prelude::*;
verus! {

global size_of usize == 8;

// ---------------------------------------------------------------- iterators (char const*, string_view::const_iterator)
#[derive(Clone, Copy)]
pub struct It<'a> { pub s: &'a [i8], pub i: usize }

impl<'a> It<'a> {
    pub open spec fn wf(self) -> bool { self.i <= self.s@.len() }
    pub open spec fn same(self, o: It) -> bool { self.s@ == o.s@ }

    // *it
    pub fn deref(self) -> (r: i8)
        requires self.i < self.s@.len(),
        ensures r == self.s@[self.i as int],
    { self.s[self.i] }

    // ++it
    pub fn inc(self) -> (r: It<'a>)
        requires self.i < self.s@.len(),
        ensures r.s@ == self.s@, r.i == self.i + 1,
    { It { s: self.s, i: self.i + 1 } }

    // --it
    pub fn dec(self) -> (r: It<'a>)
        requires 0 < self.i,
        ensures r.s@ == self.s@, r.i == self.i - 1,
    { It { s: self.s, i: self.i - 1 } }

    // it + n : must stay inside the buffer
    pub fn add(self, n: i64) -> (r: It<'a>)
        requires 0 <= self.i + n <= self.s@.len(),
        ensures r.s@ == self.s@, r.i == self.i + n,
    {
        if n >= 0 { It { s: self.s, i: self.i + (n as usize) } }
        else if n == i64::MIN { It { s: self.s, i: self.i - 0x8000_0000_0000_0000usize } }
        else { It { s: self.s, i: self.i - ((-n) as usize) } }
    }
    pub fn sub(self, n: i64) -> (r: It<'a>)
        requires 0 <= self.i - n <= self.s@.len(), n > i64::MIN,
        ensures r.s@ == self.s@, r.i == self.i - n,
    { self.add(-n) }
}

// objects are smaller than the x86-64 user address space (2^47 bytes)
pub mod ax {
use vstd::prelude::*;
#[verifier::external_body]
pub broadcast proof fn slice_len_bound(s: &[i8])
    ensures #[trigger] s@.len() <= 0x7fff_ffff_ffff,
{ }

#[verifier::external_body]
pub broadcast proof fn vec_len_bound(s: Vec<i8>)
    ensures #[trigger] s@.len() <= 0x7fff_ffff_ffff,
{ }
pub broadcast group group_lib { slice_len_bound, vec_len_bound }
}
broadcast use ax::group_lib;

pub fn it_eq(a: It, b: It) -> (r: bool) requires a.same(b) ensures r == (a.i == b.i) { a.i == b.i }
pub fn it_ne(a: It, b: It) -> (r: bool) requires a.same(b) ensures r == (a.i != b.i) { a.i != b.i }
pub fn it_lt(a: It, b: It) -> (r: bool) requires a.same(b) ensures r == (a.i < b.i) { a.i < b.i }
pub fn it_gt(a: It, b: It) -> (r: bool) requires a.same(b) ensures r == (a.i > b.i) { a.i > b.i }
pub fn it_le(a: It, b: It) -> (r: bool) requires a.same(b) ensures r == (a.i <= b.i) { a.i <= b.i }
pub fn it_ge(a: It, b: It) -> (r: bool) requires a.same(b) ensures r == (a.i >= b.i) { a.i >= b.i }
// a - b
pub fn it_diff(a: It, b: It) -> (r: i64)
    requires a.same(b), a.wf(), b.wf(),
    ensures r == a.i - b.i,
{
    
    (a.i as i64) - (b.i as i64)
}

// ---------------------------------------------------------------- string_view
pub fn sv_begin<'a>(s: &'a [i8]) -> (r: It<'a>) ensures r.s@ == s@, r.i == 0 { It { s, i: 0 } }
pub fn sv_end<'a>(s: &'a [i8]) -> (r: It<'a>) ensures r.s@ == s@, r.i == s@.len() { It { s, i: s.len() } }
pub fn sv_at(s: &[i8], n: usize) -> (r: i8) requires n < s@.len() ensures r == s@[n as int] { s[n] }
pub fn sv_substr<'a>(s: &'a [i8], pos: usize, n: usize) -> (r: Result<&'a [i8], Exn>)
    ensures
        r.is_ok() <==> pos <= s@.len(),
        r.is_ok() ==> r->Ok_0@ == s@.subrange(pos as int, min_int(pos + n, s@.len() as int)),
        r.is_err() ==> r->Err_0.kind == EXN_out_of_range,
{
    if pos > s.len() { return Err(Exn { kind: EXN_out_of_range }); }
    let rest = s.len() - pos;
    let m = if n < rest { n } else { rest };
    Ok(vstd::slice::slice_subrange(s, pos, pos + m))
}
// boost asserts n <= size()
pub fn sv_remove_prefix<'a>(s: &'a [i8], n: usize) -> (r: &'a [i8])
    requires n <= s@.len(),
    ensures r@ == s@.subrange(n as int, s@.len() as int),
{ vstd::slice::slice_subrange(s, n, s.len()) }
pub fn sv_remove_suffix<'a>(s: &'a [i8], n: usize) -> (r: &'a [i8])
    requires n <= s@.len(),
    ensures r@ == s@.subrange(0, s@.len() - n),
{ vstd::slice::slice_subrange(s, 0, s.len() - n) }
// string_view(ptr, n) : must lie inside the buffer
pub fn sv_part<'a>(s: &'a [i8], i: usize, n: usize) -> (r: &'a [i8])
    requires i + n <= s@.len(),
    ensures r@ == s@.subrange(i as int, i + n),
{ vstd::slice::slice_subrange(s, i, i + n) }
pub fn it_slice<'a>(p: It<'a>, n: usize) -> (r: &'a [i8])
    requires p.i + n <= p.s@.len(),
    ensures r@ == p.s@.subrange(p.i as int, p.i + n),
{ vstd::slice::slice_subrange(p.s, p.i, p.i + n) }
pub fn it_range<'a>(a: It<'a>, b: It<'a>) -> (r: &'a [i8])
    requires a.same(b), a.i <= b.i <= b.s@.len(),
    ensures r@ == a.s@.subrange(a.i as int, b.i as int),
{ vstd::slice::slice_subrange(a.s, a.i, b.i) }

// a string_view that is part of a larger buffer
#[derive(Clone, Copy)]
pub struct Psv<'a> { pub b: It<'a>, pub n: usize }
impl<'a> Psv<'a> {
    pub open spec fn wf(self) -> bool { self.b.i + self.n <= self.b.s@.len() }
    pub open spec fn text(self) -> Seq<i8> { self.b.s@.subrange(self.b.i as int, self.b.i + self.n) }
}
pub fn psv_slice<'a>(x: Psv<'a>) -> (r: &'a [i8]) requires x.wf() ensures r@ == x.text() { it_slice(x.b, x.n) }
pub fn psv_end<'a>(x: Psv<'a>) -> (r: It<'a>) requires x.wf() ensures r.s@ == x.b.s@, r.i == x.b.i + x.n { It { s: x.b.s, i: x.b.i + x.n } }

pub const NPOS: usize = 0xffff_ffff_ffff_ffff;

// first position >= from whose character is in set, or len
pub open spec fn first_of(s: Seq<i8>, set: Seq<i8>, from: int) -> int
    decreases s.len() - from
{
    if from >= s.len() || from < 0 { s.len() as int }
    else if set.contains(s[from]) { from }
    else { first_of(s, set, from + 1) }
}
pub open spec fn npos_or(s: Seq<i8>, r: int) -> usize { if 0 <= r < s.len() { r as usize } else { NPOS } }

pub proof fn lemma_first_of(s: Seq<i8>, set: Seq<i8>, from: int)
    requires 0 <= from <= s.len(),
    ensures
        from <= first_of(s, set, from) <= s.len(),
        first_of(s, set, from) < s.len() ==> set.contains(s[first_of(s, set, from)]),
        forall|k: int| from <= k < first_of(s, set, from) ==> !set.contains(#[trigger] s[k]),
    decreases s.len() - from
{
    if from < s.len() && !set.contains(s[from]) { lemma_first_of(s, set, from + 1); }
}

fn slice_contains(set: &[i8], c: i8) -> (r: bool)
    ensures r == set@.contains(c),
{
    let mut i: usize = 0;
    while i < set.len()
        invariant 0 <= i <= set@.len(), forall|k: int| 0 <= k < i ==> set@[k] != c,
        decreases set@.len() - i,
    {
        if set[i] == c { return true; }
        i = i + 1;
    }
    false
}

pub fn sv_find_first_of(s: &[i8], set: &[i8]) -> (r: usize)
    ensures
        r == npos_or(s@, first_of(s@, set@, 0)),
        r == NPOS || r < s@.len(),
        r == NPOS <==> first_of(s@, set@, 0) >= s@.len(),
        r != NPOS ==> r == first_of(s@, set@, 0),
        r != NPOS ==> set@.contains(s@[r as int]),
        forall|k: int| 0 <= k < s@.len() && (r == NPOS || k < r) ==> !set@.contains(#[trigger] s@[k]),
{
    proof { lemma_first_of(s@, set@, 0); }
    let mut i: usize = 0;
    while i < s.len()
        invariant 0 <= i <= s@.len(), first_of(s@, set@, 0) == first_of(s@, set@, i as int), s@.len() < NPOS,
            forall|k: int| 0 <= k < i ==> !set@.contains(#[trigger] s@[k]),
        decreases s@.len() - i,
    {
        if slice_contains(set, s[i]) { return i; }
        i = i + 1;
    }
    NPOS
}

// ---------------------------------------------------------------- std::string
pub fn str_from(s: &[i8]) -> (r: Vec<i8>) ensures r@ == s@ {
    let mut v: Vec<i8> = Vec::new();
    str_append(&mut v, s);
    assert(v@ =~= s@);
    v
}
pub fn str_clone(s: &Vec<i8>) -> (r: Vec<i8>) ensures r@ == s@ { str_from(s.as_slice()) }
pub fn str_append(v: &mut Vec<i8>, s: &[i8]) ensures final(v)@ == old(v)@ + s@ {
    let mut i: usize = 0;
    assert(s@.subrange(0, 0) =~= Seq::<i8>::empty());
    assert(v@ =~= old(v)@ + s@.subrange(0, 0));
    while i < s.len()
        invariant 0 <= i <= s@.len(), v@ == old(v)@ + s@.subrange(0, i as int),
        decreases s@.len() - i,
    {
        v.push(s[i]);
        assert(s@.subrange(0, i + 1) =~= s@.subrange(0, i as int).push(s@[i as int]));
        assert(v@ =~= old(v)@ + s@.subrange(0, i + 1));
        i = i + 1;
    }
    assert(s@.subrange(0, i as int) =~= s@);
}
// v += (char const*) : up to the first NUL, which must exist inside the buffer
pub open spec fn cstr_end(s: Seq<i8>, from: int) -> int { first_of(s, seq![0i8], from) }
pub open spec fn cstr(s: Seq<i8>, from: int) -> Seq<i8> { s.subrange(from, cstr_end(s, from)) }
pub open spec fn is_cstr(p: It) -> bool { p.i <= p.s@.len() && p.s@.subrange(p.i as int, p.s@.len() as int).contains(0i8) }

pub proof fn lemma_cstr(s: Seq<i8>)
    ensures s.len() > 0 && s.last() == 0 && (forall|k: int| 0 <= k < s.len() - 1 ==> s[k] != 0)
        ==> cstr_end(s, 0) == s.len() - 1 && cstr(s, 0) == s.subrange(0, s.len() - 1),
{
    lemma_first_of(s, seq![0i8], 0);
    if s.len() > 0 && s.last() == 0 && (forall|k: int| 0 <= k < s.len() - 1 ==> s[k] != 0) {
        let e = cstr_end(s, 0);
        assert(seq![0i8][0] == s[s.len() - 1]);
        assert(e <= s.len() - 1);
        if e < s.len() - 1 { assert(s[e] != 0); }
    }
}
pub fn cstr_slice<'a>(p: It<'a>) -> (r: &'a [i8])
    requires p.i < p.s@.len(), cstr_end(p.s@, p.i as int) < p.s@.len(),
    ensures r@ == cstr(p.s@, p.i as int),
{
    let mut j = p.i;
    proof { lemma_first_of(p.s@, seq![0i8], p.i as int); }
    while p.s[j] != 0
        invariant p.i <= j < p.s@.len(), cstr_end(p.s@, p.i as int) == cstr_end(p.s@, j as int), cstr_end(p.s@, p.i as int) < p.s@.len(),
        decreases p.s@.len() - j,
    {
        assert(seq![0i8].contains(p.s@[j as int]) ==> p.s@[j as int] == 0);
        proof { lemma_first_of(p.s@, seq![0i8], j as int + 1); }
        j = j + 1;
    }
    assert(seq![0i8][0] == p.s@[j as int]);
    assert(cstr_end(p.s@, j as int) == j);
    vstd::slice::slice_subrange(p.s, p.i, j)
}

#[verifier::external_body]
pub fn uninit_i8() -> (r: i8) { 0 }
#[verifier::external_body]
pub fn uninit_u8() -> (r: u8) { 0 }
#[verifier::external_body]
pub fn uninit_i32() -> (r: i32) { 0 }
#[verifier::external_body]
pub fn uninit_u32() -> (r: u32) { 0 }
#[verifier::external_body]
pub fn uninit_i64() -> (r: i64) { 0 }
#[verifier::external_body]
pub fn uninit_usize() -> (r: usize) { 0 }
#[verifier::external_body]
pub fn uninit_bool() -> (r: bool) { false }
pub fn empty_slice<'a>() -> (r: &'a [i8]) ensures r@.len() == 0 { let a: &'a [i8] = &[]; a }

// ---------------------------------------------------------------- std::string, element access and iterators (an iterator is an index)
pub fn str_at(s: &Vec<i8>, i: usize) -> (r: i8) requires i < s@.len() ensures r == s@[i as int] { s[i] }
pub fn str_set(s: &mut Vec<i8>, i: usize, c: i8) requires i < old(s)@.len() ensures final(s)@ == old(s)@.update(i as int, c) { s.set(i, c); }
pub fn idx_inc(i: usize, s: &Vec<i8>) -> (r: usize) requires i < s@.len() ensures r == i + 1 { let n_ = s.len(); i + 1 }
pub fn idx_dec(i: usize, s: &Vec<i8>) -> (r: usize) requires 0 < i ensures r == i - 1 { i - 1 }
pub fn idx_add(i: usize, n: i64, s: &Vec<i8>) -> (r: usize)
    requires 0 <= i + n <= s@.len(), i <= s@.len(),
    ensures r == i + n,
{ ((i as i64) + n) as usize }
pub fn idx_sub(i: usize, n: i64, s: &Vec<i8>) -> (r: usize)
    requires 0 <= i - n <= s@.len(), i <= s@.len(),
    ensures r == i - n,
{ ((i as i64) - n) as usize }
pub fn idx_diff(a: usize, b: usize) -> (r: i64)
    requires a <= 0x7fff_ffff_ffff_ffff, b <= 0x7fff_ffff_ffff_ffff,
    ensures r == a - b,
{ (a as i64) - (b as i64) }
pub fn str_range<'a>(s: &'a Vec<i8>, a: usize, b: usize) -> (r: &'a [i8])
    requires a <= b <= s@.len(),
    ensures r@ == s@.subrange(a as int, b as int),
{ vstd::slice::slice_subrange(s.as_slice(), a, b) }
pub fn str_slice<'a>(s: &'a Vec<i8>, i: usize, n: usize) -> (r: &'a [i8])
    requires i + n <= s@.len(),
    ensures r@ == s@.subrange(i as int, i + n),
{ vstd::slice::slice_subrange(s.as_slice(), i, i + n) }
// vector iterators are indices too
pub fn vidx_inc<T>(i: usize, s: &Vec<T>) -> (r: usize) requires i < s@.len() ensures r == i + 1 { let n_ = s.len(); i + 1 }
pub fn vidx_dec<T>(i: usize, s: &Vec<T>) -> (r: usize) requires 0 < i ensures r == i - 1 { i - 1 }
pub fn str_pop(s: &mut Vec<i8>) requires old(s)@.len() > 0 ensures final(s)@ == old(s)@.drop_last() { s.pop(); }
pub fn vec_pop<T>(s: &mut Vec<T>) requires old(s)@.len() > 0 ensures final(s)@ == old(s)@.drop_last() { s.pop(); }
pub open spec fn fill(n: int, c: i8) -> Seq<i8> { Seq::new(n as nat, |i: int| c) }
pub fn str_append_fill(v: &mut Vec<i8>, n: usize, c: i8)
    ensures final(v)@ == old(v)@ + fill(n as int, c),
{
    let mut i: usize = 0;
    assert(v@ =~= old(v)@ + fill(0, c));
    while i < n
        invariant 0 <= i <= n, v@ == old(v)@ + fill(i as int, c),
        decreases n - i,
    {
        v.push(c);
        i = i + 1;
        assert(v@ =~= old(v)@ + fill(i as int, c));
    }
}
pub fn str_fill(n: usize, c: i8) -> (r: Vec<i8>)
    ensures r@ == fill(n as int, c),
{
    let mut v: Vec<i8> = Vec::new();
    str_append_fill(&mut v, n, c);
    assert(v@ =~= fill(n as int, c));
    v
}
pub fn str_resize(v: &mut Vec<i8>, n: usize)
    ensures n <= old(v)@.len() ==> final(v)@ == old(v)@.subrange(0, n as int),
        n > old(v)@.len() ==> final(v)@ == old(v)@ + fill(n - old(v)@.len(), 0),
{
    if n <= v.len() { v.truncate(n); assert(v@ =~= old(v)@.subrange(0, n as int)); }
    else { let k = n - v.len(); str_append_fill(v, k, 0); }
}
// s.erase(pos, n)
pub fn str_erase(v: &mut Vec<i8>, pos: usize, n: usize)
    requires pos <= old(v)@.len(),
    ensures final(v)@ == old(v)@.subrange(0, pos as int) + old(v)@.subrange(min_int(pos + n, old(v)@.len() as int), old(v)@.len() as int),
{
    let rest = v.len() - pos;
    let m = if n < rest { n } else { rest };
    str_erase_range(v, pos, pos + m);
}
pub fn str_erase_range(v: &mut Vec<i8>, a: usize, b: usize)
    requires a <= b <= old(v)@.len(),
    ensures final(v)@ == old(v)@.subrange(0, a as int) + old(v)@.subrange(b as int, old(v)@.len() as int),
{
    let t = str_from(vstd::slice::slice_subrange(v.as_slice(), b, v.len()));
    v.truncate(a);
    assert(v@ =~= old(v)@.subrange(0, a as int));
    str_append(v, t.as_slice());
}
pub fn str_insert(v: &mut Vec<i8>, a: usize, s: &[i8])
    requires a <= old(v)@.len(),
    ensures final(v)@ == old(v)@.subrange(0, a as int) + s@ + old(v)@.subrange(a as int, old(v)@.len() as int),
{
    let t = str_from(vstd::slice::slice_subrange(v.as_slice(), a, v.len()));
    v.truncate(a);
    assert(v@ =~= old(v)@.subrange(0, a as int));
    str_append(v, s);
    str_append(v, t.as_slice());
}
// ==
pub fn slice_eq(a: &[i8], b: &[i8]) -> (r: bool)
    ensures r == (a@ == b@),
{
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len()
        invariant 0 <= i <= a@.len(), a@.len() == b@.len(), forall|k: int| 0 <= k < i ==> a@[k] == b@[k],
        decreases a@.len() - i,
    {
        if a[i] != b[i] { return false; }
        i = i + 1;
    }
    assert(a@ =~= b@);
    true
}

// searching: the first position >= from where the text w occurs, or len + 1
pub open spec fn occurs(s: Seq<i8>, i: int, w: Seq<i8>) -> bool { 0 <= i && i + w.len() <= s.len() && s.subrange(i, i + w.len()) == w }
pub open spec fn find_from(s: Seq<i8>, w: Seq<i8>, from: int) -> int
    decreases s.len() + 1 - from
{
    if from < 0 || from + w.len() > s.len() { (s.len() + 1) as int }
    else if occurs(s, from, w) { from }
    else { find_from(s, w, from + 1) }
}
pub open spec fn npos_of(s: Seq<i8>, r: int) -> usize { if 0 <= r <= s.len() { r as usize } else { NPOS } }
pub proof fn lemma_find_from(s: Seq<i8>, w: Seq<i8>, from: int)
    requires 0 <= from,
    ensures
        from <= find_from(s, w, from) || find_from(s, w, from) == s.len() + 1,
        find_from(s, w, from) <= s.len() ==> occurs(s, find_from(s, w, from), w),
        forall|k: int| from <= k < find_from(s, w, from) ==> !occurs(s, k, w),
    decreases s.len() + 1 - from
{
    if from + w.len() <= s.len() && !occurs(s, from, w) { lemma_find_from(s, w, from + 1); }
}
pub fn str_find(s: &[i8], w: &[i8], pos: usize) -> (r: usize)
    ensures
        r == npos_of(s@, find_from(s@, w@, pos as int)),
        r == NPOS || occurs(s@, r as int, w@),
        r != NPOS ==> pos <= r && r + w@.len() <= s@.len(),
        r == NPOS <==> find_from(s@, w@, pos as int) == s@.len() + 1,
        forall|k: int| pos <= k && (r == NPOS || k < r) ==> !occurs(s@, k, w@),
{
    proof { lemma_find_from(s@, w@, pos as int); }
    if w.len() > s.len() || pos > s.len() - w.len() {
        assert(find_from(s@, w@, pos as int) == s@.len() + 1);
        return NPOS;
    }
    let last = s.len() - w.len();
    let mut i = pos;
    while i <= last
        invariant pos <= i <= last + 1, last == s@.len() - w@.len(), find_from(s@, w@, pos as int) == find_from(s@, w@, i as int),
            forall|k: int| pos <= k < i ==> !occurs(s@, k, w@), s@.len() < NPOS,
        decreases last + 1 - i,
    {
        if slice_eq(vstd::slice::slice_subrange(s, i, i + w.len()), w) { return i; }
        i = i + 1;
    }
    NPOS
}
pub fn sv_find(s: &[i8], w: &[i8]) -> (r: usize)
    ensures
        r == npos_of(s@, find_from(s@, w@, 0)),
        r == NPOS || occurs(s@, r as int, w@),
        r != NPOS ==> r + w@.len() <= s@.len(),
        r == NPOS <==> find_from(s@, w@, 0) == s@.len() + 1,
        forall|k: int| 0 <= k && (r == NPOS || k < r) ==> !occurs(s@, k, w@),
{ str_find(s, w, 0) }
pub fn sv_starts_with(s: &[i8], w: &[i8]) -> (r: bool)
    ensures r == occurs(s@, 0, w@),
{
    if w.len() > s.len() { return false; }
    slice_eq(vstd::slice::slice_subrange(s, 0, w.len()), w)
}
pub fn str_find_first_of(s: &[i8], set: &[i8], pos: usize) -> (r: usize)
    ensures
        pos <= s@.len() ==> r == npos_or(s@, first_of(s@, set@, pos as int)),
        pos > s@.len() ==> r == NPOS,
        r == NPOS || pos <= r < s@.len(),
        r != NPOS ==> set@.contains(s@[r as int]),
        forall|k: int| pos <= k < s@.len() && (r == NPOS || k < r) ==> !set@.contains(#[trigger] s@[k]),
{
    if pos > s.len() { return NPOS; }
    proof { lemma_first_of(s@, set@, pos as int); }
    let mut i: usize = pos;
    while i < s.len()
        invariant pos <= i <= s@.len(), first_of(s@, set@, pos as int) == first_of(s@, set@, i as int), s@.len() < NPOS,
            forall|k: int| pos <= k < i ==> !set@.contains(#[trigger] s@[k]),
        decreases s@.len() - i,
    {
        if slice_contains(set, s[i]) { return i; }
        i = i + 1;
    }
    NPOS
}
pub fn str_find_first_not_of(s: &[i8], set: &[i8], pos: usize) -> (r: usize)
    ensures
        r == NPOS || pos <= r < s@.len(),
        r != NPOS ==> !set@.contains(s@[r as int]),
        forall|k: int| pos <= k < s@.len() && (r == NPOS || k < r) ==> set@.contains(#[trigger] s@[k]),
{
    if pos > s.len() { return NPOS; }
    let mut i: usize = pos;
    while i < s.len()
        invariant pos <= i <= s@.len(), s@.len() < NPOS,
            forall|k: int| pos <= k < i ==> set@.contains(#[trigger] s@[k]),
        decreases s@.len() - i,
    {
        if !slice_contains(set, s[i]) { return i; }
        i = i + 1;
    }
    NPOS
}
pub fn sv_find_first_not_of(s: &[i8], set: &[i8]) -> (r: usize)
    ensures
        r == NPOS || r < s@.len(),
        r != NPOS ==> !set@.contains(s@[r as int]),
        forall|k: int| 0 <= k < s@.len() && (r == NPOS || k < r) ==> set@.contains(#[trigger] s@[k]),
{ str_find_first_not_of(s, set, 0) }
// last position <= pos (and < len) in / not in the set
pub fn str_find_last_of(s: &[i8], set: &[i8], pos: usize) -> (r: usize)
    ensures
        r == NPOS || (r <= pos && r < s@.len()),
        r != NPOS ==> set@.contains(s@[r as int]),
        forall|k: int| 0 <= k < s@.len() && k <= pos && (r == NPOS || r < k) ==> !set@.contains(#[trigger] s@[k]),
{
    let mut i: usize = if pos < s.len() { pos + 1 } else { s.len() };
    while i > 0
        invariant 0 <= i <= s@.len(), i <= pos + 1, s@.len() < NPOS,
            forall|k: int| i <= k < s@.len() && k <= pos ==> !set@.contains(#[trigger] s@[k]),
        decreases i,
    {
        i = i - 1;
        if slice_contains(set, s[i]) { return i; }
    }
    NPOS
}
pub fn str_find_last_not_of(s: &[i8], set: &[i8], pos: usize) -> (r: usize)
    ensures
        r == NPOS || (r <= pos && r < s@.len()),
        r != NPOS ==> !set@.contains(s@[r as int]),
        forall|k: int| 0 <= k < s@.len() && k <= pos && (r == NPOS || r < k) ==> set@.contains(#[trigger] s@[k]),
{
    let mut i: usize = if pos < s.len() { pos + 1 } else { s.len() };
    while i > 0
        invariant 0 <= i <= s@.len(), i <= pos + 1, s@.len() < NPOS,
            forall|k: int| i <= k < s@.len() && k <= pos ==> set@.contains(#[trigger] s@[k]),
        decreases i,
    {
        i = i - 1;
        if !slice_contains(set, s[i]) { return i; }
    }
    NPOS
}
// vector<string>(n), vector<unsigned>(n)
pub fn vec_str_sized(n: usize) -> (r: Vec<Vec<i8>>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@.len() == 0,
{
    let mut v: Vec<Vec<i8>> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, v@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] v@[k])@.len() == 0,
        decreases n - i
    { v.push(Vec::new()); i = i + 1; }
    v
}
pub fn vec_sized_u32(n: usize) -> (r: Vec<u32>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]) == 0,
{
    let mut v: Vec<u32> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, v@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] v@[k]) == 0,
        decreases n - i
    { v.push(0); i = i + 1; }
    v
}
pub fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if b < a { b } else { a } }
pub fn max_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b } else { a }) { if a < b { b } else { a } }
pub fn min_i32(a: i32, b: i32) -> (r: i32) ensures r == (if a < b { a } else { b }) { if b < a { b } else { a } }
pub fn max_i32(a: i32, b: i32) -> (r: i32) ensures r == (if a < b { b } else { a }) { if a < b { b } else { a } }
pub fn min_i64(a: i64, b: i64) -> (r: i64) ensures r == (if a < b { a } else { b }) { if b < a { b } else { a } }
pub fn max_i64(a: i64, b: i64) -> (r: i64) ensures r == (if a < b { b } else { a }) { if a < b { b } else { a } }
// os << integer (decimal)
pub open spec fn dec_digits(n: int) -> Seq<i8>
    decreases n
{
    if n < 10 { seq![(48 + n) as i8] } else { dec_digits(n / 10).push((48 + n % 10) as i8) }
}
pub open spec fn dec(n: int) -> Seq<i8> { if n < 0 { seq![45i8] + dec_digits(-n) } else { dec_digits(n) } }
fn put_digits(v: &mut Vec<i8>, n: u64)
    ensures final(v)@ == old(v)@ + dec_digits(n as int),
    decreases n,
{
    if n >= 10 {
        put_digits(v, n / 10);
        v.push((48 + (n % 10) as i8) as i8);
        assert(v@ =~= old(v)@ + dec_digits(n as int));
    } else {
        v.push((48 + n as i8) as i8);
        assert(v@ =~= old(v)@ + dec_digits(n as int));
    }
}
pub fn os_put_usize(v: &mut Vec<i8>, n: usize) ensures final(v)@ == old(v)@ + dec(n as int) { put_digits(v, n as u64); }
pub fn os_put_u32(v: &mut Vec<i8>, n: u32) ensures final(v)@ == old(v)@ + dec(n as int) { put_digits(v, n as u64); }
pub fn os_put_i32(v: &mut Vec<i8>, n: i32) ensures final(v)@ == old(v)@ + dec(n as int) {
    if n < 0 { v.push(45); put_digits(v, (-(n as i64)) as u64); assert(v@ =~= old(v)@ + dec(n as int)); } else { put_digits(v, n as u64); }
}

pub fn vec_copy_clone<T: Copy>(v: &Vec<T>) -> (r: Vec<T>) ensures r@ == v@ {
    let mut r: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r@ == v@.subrange(0, i as int),
        decreases v@.len() - i
    {
        r.push(v[i]);
        assert(v@.subrange(0, i + 1) =~= v@.subrange(0, i as int).push(v@[i as int]));
        i = i + 1;
    }
    assert(v@.subrange(0, v@.len() as int) =~= v@);
    r
}
pub open spec fn min_int(a: int, b: int) -> int { if a < b { a } else { b } }

// ---------------------------------------------------------------- exceptions
pub struct Exn { pub kind: u32 }
pub fn exn_is_err<T>(r: &Result<T, Exn>) -> (b: bool) ensures b == r.is_err() { r.is_err() }
pub fn exn_kind_of<T>(r: &Result<T, Exn>) -> (k: u32) requires r.is_err() ensures k == r->Err_0.kind {
    match r { Ok(_) => 0, Err(e) => e.kind }
}
pub fn exn_ok<T>(r: Result<T, Exn>) -> (v: T) requires r.is_ok() ensures v == r->Ok_0 { match r { Ok(v) => v, Err(_) => vstd::pervasive::unreached() } }
// an exception leaving a function whose contract says it does not throw
pub fn unexpected_throw<T>() -> (r: T) requires false { vstd::pervasive::unreached() }
pub fn unreachable_end<T>() -> (r: T) requires false { vstd::pervasive::unreached() }
// assert(e) of the C++ source
pub fn cpp_assert(b: bool) requires b { }

// ---------------------------------------------------------------- integer conversions (C++11 semantics on x86-64 / gcc)
pub fn cast_i8_u8(x: i8) -> (r: u8) ensures r == (if x < 0 { x + 256 } else { x as int }) { proof { assert(x < 0 ==> (x as u8) as int == x + 256) by (bit_vector); assert(x >= 0 ==> (x as u8) as int == x) by (bit_vector); } x as u8 }
pub fn cast_u8_i8(x: u8) -> (r: i8) ensures r == (if x >= 128 { x - 256 } else { x as int }) { proof { assert(x >= 128u8 ==> (x as i8) as int == x - 256) by (bit_vector); assert(x < 128u8 ==> (x as i8) as int == x) by (bit_vector); } x as i8 }
pub fn cast_i32_i8(x: i32) -> (r: i8)
    ensures -128 <= x <= 127 ==> r == x, 128 <= x <= 255 ==> r == x - 256,
{ proof { assert(-128 <= x && x <= 127 ==> (x as i8) as int == x) by (bit_vector); assert(128 <= x && x <= 255 ==> (x as i8) as int == x - 256) by (bit_vector); } x as i8 }
pub fn cast_u32_i8(x: u32) -> (r: i8)
    ensures x <= 127 ==> r == x, 128 <= x <= 255 ==> r == x - 256,
{ proof { assert(x <= 127u32 ==> (x as i8) as int == x) by (bit_vector); assert(128u32 <= x && x <= 255u32 ==> (x as i8) as int == x - 256) by (bit_vector); } x as i8 }
pub fn cast_i32_u8(x: i32) -> (r: u8)
    ensures 0 <= x <= 255 ==> r == x, -128 <= x < 0 ==> r == x + 256,
{ proof { assert(0 <= x && x <= 255 ==> (x as u8) as int == x) by (bit_vector); assert(-128 <= x && x < 0 ==> (x as u8) as int == x + 256) by (bit_vector); } x as u8 }
pub fn cast_i8_usize(x: i8) -> (r: usize) ensures x >= 0 ==> r == x, x < 0 ==> r == x + 0x1_0000_0000_0000_0000 { proof { assert(x >= 0 ==> (x as u64) as int == x) by (bit_vector); assert(x < 0 ==> (x as u64) as int == x + 0x1_0000_0000_0000_0000) by (bit_vector); } (x as u64) as usize }
pub fn cast_i32_usize(x: i32) -> (r: usize) ensures x >= 0 ==> r == x, x < 0 ==> r == x + 0x1_0000_0000_0000_0000 { proof { assert(x >= 0 ==> (x as u64) as int == x) by (bit_vector); assert(x < 0 ==> (x as u64) as int == x + 0x1_0000_0000_0000_0000) by (bit_vector); } (x as u64) as usize }
pub fn cast_i32_u32(x: i32) -> (r: u32) ensures x >= 0 ==> r == x, x < 0 ==> r == x + 0x1_0000_0000 { proof { assert(x >= 0 ==> (x as u32) as int == x) by (bit_vector); assert(x < 0 ==> (x as u32) as int == x + 0x1_0000_0000) by (bit_vector); } x as u32 }
pub fn cast_u32_i32(x: u32) -> (r: i32) ensures x < 0x8000_0000 ==> r == x, x >= 0x8000_0000 ==> r == x - 0x1_0000_0000 { proof { assert(x < 0x8000_0000u32 ==> (x as i32) as int == x) by (bit_vector); assert(x >= 0x8000_0000u32 ==> (x as i32) as int == x - 0x1_0000_0000) by (bit_vector); } x as i32 }
pub fn cast_i64_usize(x: i64) -> (r: usize) ensures x >= 0 ==> r == x, x < 0 ==> r == x + 0x1_0000_0000_0000_0000 { proof { assert(x >= 0 ==> (x as u64) as int == x) by (bit_vector); assert(x < 0 ==> (x as u64) as int == x + 0x1_0000_0000_0000_0000) by (bit_vector); } (x as u64) as usize }
pub fn cast_usize_i64(x: usize) -> (r: i64) ensures x < 0x8000_0000_0000_0000 ==> r == x, x >= 0x8000_0000_0000_0000 ==> r == x - 0x1_0000_0000_0000_0000 { let y = x as u64; proof { assert(y < 0x8000_0000_0000_0000u64 ==> (y as i64) as int == y) by (bit_vector); assert(y >= 0x8000_0000_0000_0000u64 ==> (y as i64) as int == y - 0x1_0000_0000_0000_0000) by (bit_vector); } y as i64 }
pub fn cast_usize_i32(x: usize) -> (r: i32) ensures x < 0x8000_0000 ==> r == x { let y = x as u64; proof { assert(y < 0x8000_0000u64 ==> (y as i32) as int == y) by (bit_vector); } y as i32 }
pub fn cast_i64_i32(x: i64) -> (r: i32) ensures -0x8000_0000 <= x < 0x8000_0000 ==> r == x { proof { assert(-0x8000_0000 <= x && x < 0x8000_0000 ==> (x as i32) as int == x) by (bit_vector); } x as i32 }
// division and remainder truncate toward zero
pub open spec fn cdiv(a: int, b: int) -> int { if a >= 0 { if b >= 0 { a / b } else { -(a / (-b)) } } else { if b >= 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn cmod(a: int, b: int) -> int { a - b * cdiv(a, b) }
pub fn cdiv_i32(a: i32, b: i32) -> (r: i32)
    requires b > 0,
    ensures r == cdiv(a as int, b as int),
{
    if a >= 0 { ((a as u32) / (b as u32)) as i32 }
    else if a == i32::MIN { proof { assert(0x8000_0000int / (b as int) <= 0x8000_0000int) by (nonlinear_arith) requires b > 0; assert(0x8000_0000int / (b as int) >= 0) by (nonlinear_arith) requires b > 0;  } let q: i64 = (0x8000_0000u64 / (b as u64)) as i64; (-q) as i32 }
    else { proof { assert((-a) as int / (b as int) <= -a) by (nonlinear_arith) requires b > 0, a < 0; } -((((-a) as u32) / (b as u32)) as i32) }
}
pub fn cmod_i32(a: i32, b: i32) -> (r: i32)
    requires b > 0,
    ensures r == cmod(a as int, b as int),
        a >= 0 ==> r == a % b, a < 0 ==> r == -((-a) % (b as int)),
        a >= 0 ==> 0 <= r < b, a < 0 ==> -b < r <= 0,
{
    proof {
        if a >= 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a as int, b as int); }
        else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(-(a as int), b as int);
               let q = (-(a as int)) / (b as int);
               assert((b as int) * (-q) == -((b as int) * q)) by (nonlinear_arith);
        }
    }
    if a >= 0 { ((a as u32) % (b as u32)) as i32 }
    else { (-(((-(a as i64)) as u64 % (b as u64)) as i64)) as i32 }
}

// ---------------------------------------------------------------- <cctype>, "C" locale; the argument must be EOF or an unsigned char value
// (isdigit and isspace: also a plain char; glibc's tables cover -128..255)
pub open spec fn is_digit(c: int) -> bool { 48 <= c <= 57 }
pub open spec fn is_upper(c: int) -> bool { 65 <= c <= 90 }
pub open spec fn is_lower(c: int) -> bool { 97 <= c <= 122 }
pub open spec fn is_alpha(c: int) -> bool { is_upper(c) || is_lower(c) }
pub open spec fn is_alnum(c: int) -> bool { is_digit(c) || is_alpha(c) }
pub open spec fn is_space(c: int) -> bool { c == 32 || 9 <= c <= 13 }
pub open spec fn is_punct(c: int) -> bool { 33 <= c <= 126 && !is_alnum(c) }
pub open spec fn is_cntrl(c: int) -> bool { 0 <= c < 32 || c == 127 }
pub open spec fn is_xdigit(c: int) -> bool { is_digit(c) || 65 <= c <= 70 || 97 <= c <= 102 }
pub open spec fn to_lower(c: int) -> int { if is_upper(c) { c + 32 } else { c } }
pub fn c_isalnum(c: i32) -> (r: i32) requires -1 <= c <= 255 ensures (r != 0) == is_alnum(c as int) { if (48 <= c && c <= 57) || (65 <= c && c <= 90) || (97 <= c && c <= 122) { 1 } else { 0 } }
pub fn c_isalpha(c: i32) -> (r: i32) requires -1 <= c <= 255 ensures (r != 0) == is_alpha(c as int) { if (65 <= c && c <= 90) || (97 <= c && c <= 122) { 1 } else { 0 } }
pub fn c_isdigit(c: i32) -> (r: i32) requires -128 <= c <= 255 ensures (r != 0) == is_digit(c as int) { if 48 <= c && c <= 57 { 1 } else { 0 } }
pub fn c_isupper(c: i32) -> (r: i32) requires -1 <= c <= 255 ensures (r != 0) == is_upper(c as int) { if 65 <= c && c <= 90 { 1 } else { 0 } }
pub fn c_islower(c: i32) -> (r: i32) requires -1 <= c <= 255 ensures (r != 0) == is_lower(c as int) { if 97 <= c && c <= 122 { 1 } else { 0 } }
pub fn c_isspace(c: i32) -> (r: i32) requires -128 <= c <= 255 ensures (r != 0) == is_space(c as int) { if c == 32 || (9 <= c && c <= 13) { 1 } else { 0 } }
pub fn c_ispunct(c: i32) -> (r: i32) requires -1 <= c <= 255 ensures (r != 0) == is_punct(c as int) { if 33 <= c && c <= 126 && !((48 <= c && c <= 57) || (65 <= c && c <= 90) || (97 <= c && c <= 122)) { 1 } else { 0 } }
pub fn c_isxdigit(c: i32) -> (r: i32) requires -1 <= c <= 255 ensures (r != 0) == is_xdigit(c as int) { if (48 <= c && c <= 57) || (65 <= c && c <= 70) || (97 <= c && c <= 102) { 1 } else { 0 } }
pub fn c_tolower(c: i32) -> (r: i32) requires -1 <= c <= 255 ensures r == to_lower(c as int) { if 65 <= c && c <= 90 { c + 32 } else { c } }

// strchr(s, c) != 0 : note that the terminating NUL is found
pub struct OptIt { pub is_some: bool, pub i: usize }
pub fn c_strchr(p: It, c: i32) -> (r: OptIt)
    requires p.i < p.s@.len(), cstr_end(p.s@, p.i as int) < p.s@.len(), -128 <= c <= 127,
    ensures r.is_some <==> (c == 0 || cstr(p.s@, p.i as int).contains(#[verifier::truncate] (c as i8))),
{
    proof { lemma_first_of(p.s@, seq![0i8], p.i as int); }
    let t = cstr_slice(p);
    if c == 0 { return OptIt { is_some: true, i: p.i + t.len() }; }
    let cc = c as i8;
    let mut j: usize = 0;
    while j < t.len()
        invariant 0 <= j <= t@.len(), forall|k: int| 0 <= k < j ==> t@[k] != cc, cc == c, t@ == cstr(p.s@, p.i as int), p.i + t@.len() < p.s@.len(), c != 0,
        decreases t@.len() - j,
    {
        if t[j] == cc { return OptIt { is_some: true, i: p.i + j }; }
        j = j + 1;
    }
    OptIt { is_some: false, i: 0 }
}

} // verus!
