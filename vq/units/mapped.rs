pub spec const NORMAL: int = 0;
pub spec const EMPTY: int = 1;
pub spec const INDENTED: int = 2;

// what upper_bound needs of the comparator, and its definition: the first element the value is less than
pub fn upper_bound_sections(v: &Vec<mapped_file_section>, x: usize) -> (r: usize)
    requires sorted(v@),
    ensures r <= v@.len(),
        forall|k: int| 0 <= k < r ==> (#[trigger] v@[k]).our_pos <= x,
        forall|k: int| r <= k < v@.len() ==> x < (#[trigger] v@[k]).our_pos,
{
    let mut i: usize = 0;
    while i < v.len()
        invariant 0 <= i <= v@.len(), sorted(v@), forall|k: int| 0 <= k < i ==> (#[trigger] v@[k]).our_pos <= x,
        decreases v@.len() - i,
    {
        let (b, c_) = pos_less(mapped_section_pos_cmp {}, x, v[i]);
        if b { return i; }
        i = i + 1;
    }
    i
}
pub open spec fn sorted(v: Seq<mapped_file_section>) -> bool
{ forall|i: int, j: int| 0 <= i <= j < v.len() ==> (#[trigger] v[i]).our_pos <= (#[trigger] v[j]).our_pos }

// the section that covers position p: the last one starting at or before it
pub open spec fn sect(v: Seq<mapped_file_section>, p: int) -> int
    decreases v.len()
{
    if v.len() == 0 { -1 } else if v.last().our_pos <= p { v.len() - 1 } else { sect(v.drop_last(), p) }
}
pub proof fn lemma_sect(v: Seq<mapped_file_section>, p: int)
    requires sorted(v),
    ensures -1 <= sect(v, p) < v.len(),
        forall|k: int| 0 <= k <= sect(v, p) ==> (#[trigger] v[k]).our_pos <= p,
        forall|k: int| sect(v, p) < k < v.len() ==> p < (#[trigger] v[k]).our_pos,
    decreases v.len()
{
    if v.len() > 0 {
        if v.last().our_pos > p {
            let d = v.drop_last();
            assert forall|i: int, j: int| 0 <= i <= j < d.len() implies (#[trigger] d[i]).our_pos <= (#[trigger] d[j]).our_pos by { assert(v[i].our_pos <= v[j].our_pos); }
            lemma_sect(d, p);
            assert forall|k: int| 0 <= k <= sect(v, p) implies (#[trigger] v[k]).our_pos <= p by { assert(d[k].our_pos <= p); }
            assert forall|k: int| sect(v, p) < k < v.len() implies p < (#[trigger] v[k]).our_pos by { if k < d.len() { assert(p < d[k].our_pos); } }
        } else {
            assert forall|k: int| 0 <= k <= sect(v, p) implies (#[trigger] v[k]).our_pos <= p by { assert(v[k].our_pos <= v[v.len() - 1].our_pos); }
        }
    }
}
pub proof fn lemma_sect_unique(v: Seq<mapped_file_section>, p: int, i: int)
    requires sorted(v), -1 <= i < v.len(), i >= 0 ==> v[i].our_pos <= p, i + 1 < v.len() ==> p < v[i + 1].our_pos,
    ensures sect(v, p) == i,
{
    lemma_sect(v, p);
    let j = sect(v, p);
    if j < i { assert(p < v[i].our_pos); }
    if i < j { assert(v[i + 1].our_pos <= v[j].our_pos); }
}

// original position of position p of section s
pub open spec fn ind_content(src: Seq<i8>, s: mapped_file_section, p: int) -> int { skip(src, line_start(src, s.our_pos as int, p)) }
pub open spec fn ind_line(src: Seq<i8>, o: Seq<i8>, s: mapped_file_section, p: int) -> int { gl(o, s.original_pos as int, newlines(src, s.our_pos as int, p)) }
pub open spec fn orig_in(src: Seq<i8>, o: Seq<i8>, s: mapped_file_section, p: int) -> int {
    if s.section_type == NORMAL { p - s.our_pos + s.original_pos }
    else if s.section_type == INDENTED {
        // the same line; the same distance from the start of its content
        let c = ind_content(src, s, p);
        let g = ind_line(src, o, s, p);
        if c > p || c == src.len() { g } else { skip(o, g) + (p - c) }
    }
    else { s.original_pos as int }
}
pub open spec fn orig(m: mapped_file, p: int) -> int
{ orig_in(m.source_@, m.original.source_@, m.mapped_sections@[sect(m.mapped_sections@, p)], p) }
// end of the text of section i
pub open spec fn sect_end(m: mapped_file, i: int) -> int
{ if i + 1 < m.mapped_sections@.len() { m.mapped_sections@[i + 1].our_pos as int } else { m.source_@.len() as int } }

pub open spec fn wf(m: mapped_file) -> bool {
    let v = m.mapped_sections@;
    &&& sorted(v)
    &&& m.source_@.len() > 0 ==> v.len() > 0
    &&& v.len() > 0 ==> v[0].our_pos == 0
    &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).our_pos <= m.source_@.len() && v[k].original_pos <= m.original.source_@.len()
            && 0 <= v[k].section_type <= 2
    &&& forall|k: int| 0 <= k < v.len() && (#[trigger] v[k]).section_type == NORMAL ==> copied(m, k)
    &&& forall|k: int| 0 <= k < v.len() && (#[trigger] v[k]).section_type == INDENTED ==> unindented(m, k)
}
// an indented section holds lines of the original, with other indentation
pub open spec fn ind_at(src: Seq<i8>, o: Seq<i8>, s: mapped_file_section, p: int) -> bool {
    let c = ind_content(src, s, p);
    let x = skip(o, ind_line(src, o, s, p)) + (p - c);
    c <= p ==> x < o.len() && o[x] == src[p]
}
pub open spec fn unindented(m: mapped_file, k: int) -> bool
{ unindented_to(m.source_@, m.original.source_@, m.mapped_sections@[k], sect_end(m, k)) }
pub open spec fn unindented_to(src: Seq<i8>, o: Seq<i8>, s: mapped_file_section, e: int) -> bool {
    &&& newlines(o, s.original_pos as int, o.len() as int) >= newlines(src, s.our_pos as int, e)
    &&& forall|p: int| s.our_pos <= p < e ==> #[trigger] ind_at(src, o, s, p)
}
// a normal section holds exactly the text it was copied from
pub open spec fn copied(m: mapped_file, k: int) -> bool {
    let s = m.mapped_sections@[k];
    s.original_pos + (sect_end(m, k) - s.our_pos) <= m.original.source_@.len()
    && m.source_@.subrange(s.our_pos as int, sect_end(m, k)) == m.original.source_@.subrange(s.original_pos as int, s.original_pos + (sect_end(m, k) - s.our_pos))
}

// m1 is m0 with text appended: everything said about m0's text still holds
pub open spec fn extends(m0: mapped_file, m1: mapped_file) -> bool {
    &&& m1.original == m0.original
    &&& m0.source_@.len() <= m1.source_@.len() && m1.source_@.subrange(0, m0.source_@.len() as int) == m0.source_@
    &&& forall|p: int| 0 <= p < m0.source_@.len() ==> #[trigger] m1.mapped_sections@[sect(m1.mapped_sections@, p)] == m0.mapped_sections@[sect(m0.mapped_sections@, p)]
    &&& forall|p: int| 0 <= p < m0.source_@.len() ==> #[trigger] orig(m1, p) == orig(m0, p)
}
// the same lines of text elsewhere (d further on)
pub proof fn lemma_ind_shift(src: Seq<i8>, o: Seq<i8>, s: mapped_file_section, p: int, src1: Seq<i8>, s1: mapped_file_section, d: int)
    requires s.our_pos <= p < src.len(), p + d < src1.len(), s1.our_pos == s.our_pos + d, s1.original_pos == s.original_pos, s1.section_type == s.section_type,
        forall|k: int| s.our_pos <= k <= p ==> #[trigger] src[k] == src1[k + d],
    ensures orig_in(src1, o, s1, p + d) == orig_in(src, o, s, p), ind_at(src1, o, s1, p + d) == ind_at(src, o, s, p),
{
    let a = s.our_pos as int;
    lemma_nl_shift(src, a, p, src1, d);
    lemma_newlines(src, a, p);
    lemma_skip_agree(src, src1, line_start(src, a, p), d, p);
    lemma_skip(src, line_start(src, a, p));
    lemma_skip(src1, line_start(src, a, p) + d);
    assert(src[p] == src1[p + d]);
}
pub proof fn lemma_unind_shift(src: Seq<i8>, o: Seq<i8>, s: mapped_file_section, e: int, src1: Seq<i8>, s1: mapped_file_section, e1: int, d: int)
    requires s.our_pos <= e <= src.len(), s1.our_pos <= e1 <= src1.len(), e1 <= e + d, s1.our_pos == s.our_pos + d, s1.original_pos == s.original_pos, s1.section_type == s.section_type,
        forall|k: int| s.our_pos <= k < e1 - d ==> #[trigger] src[k] == src1[k + d],
        unindented_to(src, o, s, e),
    ensures unindented_to(src1, o, s1, e1),
{
    let a = s.our_pos as int;
    lemma_nl_shift(src, a, e1 - d, src1, d);
    lemma_nl_split(src, a, e1 - d, e);
    lemma_newlines(src, e1 - d, e);
    assert forall|p: int| s1.our_pos <= p < e1 implies #[trigger] ind_at(src1, o, s1, p) by {
        assert(ind_at(src, o, s, p - d));
        lemma_ind_shift(src, o, s, p - d, src1, s1, d);
    }
}
// the part of an indented section from b on
pub proof fn lemma_ind_line(src: Seq<i8>, o: Seq<i8>, s: mapped_file_section, e: int, b: int)
    requires s.our_pos <= b < e <= src.len(), s.original_pos <= o.len(), s.section_type == INDENTED, unindented_to(src, o, s, e),
    ensures ({
        let x = orig_in(src, o, s, b);
        let g = ind_line(src, o, s, b);
        &&& s.original_pos <= g <= x <= o.len()
        &&& newlines(o, s.original_pos as int, g) == newlines(src, s.our_pos as int, b)
        &&& newlines(src, s.our_pos as int, b) <= newlines(o, s.original_pos as int, o.len() as int)
        &&& forall|k: int| g <= k < x ==> o[k] != 10
    }),
{
    let a = s.our_pos as int;
    let g = ind_line(src, o, s, b);
    let c = ind_content(src, s, b);
    lemma_nl_split(src, a, b, e);
    lemma_newlines(src, b, e);
    lemma_newlines(src, a, b);
    lemma_gl(o, s.original_pos as int, newlines(src, a, b));
    lemma_skip(o, g);
    lemma_skip(src, line_start(src, a, b));
    if c <= b {
        let y = skip(o, g);
        assert(ind_at(src, o, s, b));
        assert forall|k: int| g <= k < y + (b - c) implies o[k] != 10 by {
            if k >= y {
                let q = c + (k - y);
                lemma_same_line(src, a, q, b);
                assert(ind_at(src, o, s, q));
            } else { assert(ws(o[k])); }
        }
    }
}
// q is in the line of b
pub proof fn lemma_same_line(src: Seq<i8>, a: int, q: int, b: int)
    requires a <= line_start(src, a, b) <= q <= b,
    ensures line_start(src, a, q) == line_start(src, a, b), newlines(src, a, q) == newlines(src, a, b), q < b ==> src[q] != 10,
{
    lemma_newlines(src, a, b);
    lemma_nl_none(src, q, b);
    lemma_nl_split(src, a, q, b);
    lemma_ls_split(src, a, q, b);
}
// spaces at the start of a part of an indented section
pub open spec fn blank(src: Seq<i8>, b: int, p: int) -> bool { forall|k: int| b <= k <= p ==> ws(#[trigger] src[k]) }
pub proof fn lemma_ind_cut(src: Seq<i8>, o: Seq<i8>, s: mapped_file_section, e: int, b: int, p: int, src1: Seq<i8>, s1: mapped_file_section, d: int)
    requires s.our_pos <= b <= p < e <= src.len(), s.original_pos <= o.len(), s.section_type == INDENTED, unindented_to(src, o, s, e),
        s1.section_type == INDENTED, s1.our_pos == b + d, s1.original_pos == orig_in(src, o, s, b), p + d < src1.len(),
        forall|k: int| b <= k <= p ==> #[trigger] src[k] == src1[k + d],
    ensures blank(src, b, p) ==> orig_in(src1, o, s1, p + d) == orig_in(src, o, s, b) && ind_content(src1, s1, p + d) > p + d,
        !blank(src, b, p) ==> orig_in(src1, o, s1, p + d) == orig_in(src, o, s, p),
        ind_at(src1, o, s1, p + d),
{
    let a = s.our_pos as int;
    let x = orig_in(src, o, s, b);
    lemma_ind_line(src, o, s, e, b);
    lemma_ind_line(src, o, s, e, p);
    assert(ind_at(src, o, s, p));
    lemma_nl_split(src, a, b, p);
    lemma_newlines(src, a, b);
    lemma_newlines(src, a, p);
    lemma_newlines(src, b, p);
    lemma_nl_shift(src, b, p, src1, d);
    lemma_ls_split(src, a, b, p);
    let n = newlines(src, b, p);
    assert(src[p] == src1[p + d]);
    if n > 0 {
        lemma_gl_add(o, s.original_pos as int, newlines(src, a, b), n);
        lemma_gl_from(o, ind_line(src, o, s, b), x, n);
        let l = line_start(src, b, p);
        lemma_nl_some(src, b, p);
        assert(!blank(src, b, p)) by { assert(!ws(src[l - 1])); }
        lemma_skip_agree(src, src1, l, d, p);
        lemma_skip(src, l);
        lemma_skip(src1, l + d);
    } else {
        let l = line_start(src, a, b);
        let g = ind_line(src, o, s, b);
        let c = skip(src, l);
        lemma_skip(src, l);
        lemma_skip(src, b);
        lemma_skip(src1, b + d);
        lemma_skip_agree(src, src1, b, d, p);
        let c1 = skip(src, b);
        assert(gl(o, x, 0) == x);
        if c1 > p {
            assert(blank(src, b, p));
        } else {
            assert(!blank(src, b, p)) by { assert(!ws(src[c1])); }
            if c <= b {
                assert(ind_at(src, o, s, b));
                assert forall|k: int| b <= k <= c1 implies o[#[trigger] skip_to(x, b, k)] == src[k] && x + (k - b) < o.len() by {
                    lemma_same_line(src, a, k, p);
                    assert(ind_at(src, o, s, k));
                }
                assert forall|k: int| x <= k < x + (c1 - b) implies ws(#[trigger] o[k]) by {
                    assert(o[skip_to(x, b, b + (k - x))] == src[b + (k - x)]);
                }
                assert(o[skip_to(x, b, c1)] == src[c1]);
                lemma_skip_is(o, x, x + (c1 - b));
            } else {
                lemma_skip_from(src, l, b);
            }
        }
    }
}
pub open spec fn skip_to(x: int, b: int, k: int) -> int { x + (k - b) }
pub proof fn lemma_unind_cut(src: Seq<i8>, o: Seq<i8>, s: mapped_file_section, e: int, b: int, src1: Seq<i8>, s1: mapped_file_section, e1: int, d: int)
    requires s.our_pos <= b < e <= src.len(), s.original_pos <= o.len(), s.section_type == INDENTED, unindented_to(src, o, s, e),
        s1.section_type == INDENTED, s1.our_pos == b + d, s1.original_pos == orig_in(src, o, s, b), b + d <= e1 <= src1.len(), e1 <= e + d,
        forall|k: int| b <= k < e1 - d ==> #[trigger] src[k] == src1[k + d],
    ensures unindented_to(src1, o, s1, e1),
{
    let a = s.our_pos as int;
    let x = orig_in(src, o, s, b);
    let g = ind_line(src, o, s, b);
    lemma_ind_line(src, o, s, e, b);
    lemma_nl_split(src, a, b, e);
    lemma_nl_split(src, b, e1 - d, e);
    lemma_newlines(src, e1 - d, e);
    lemma_nl_shift(src, b, e1 - d, src1, d);
    lemma_nl_split(o, s.original_pos as int, g, o.len() as int);
    lemma_nl_split(o, g, x, o.len() as int);
    lemma_nl_none(o, g, x);
    assert forall|p: int| s1.our_pos <= p < e1 implies #[trigger] ind_at(src1, o, s1, p) by {
        lemma_ind_cut(src, o, s, e, b, p - d, src1, s1, d);
    }
}

pub proof fn lemma_copied_same(m0: mapped_file, m1: mapped_file, k: int)
    requires wf(m0), 0 <= k < m0.mapped_sections@.len(), k < m1.mapped_sections@.len(), m1.mapped_sections@[k] == m0.mapped_sections@[k],
        m1.original == m0.original, sect_end(m1, k) == sect_end(m0, k), sect_end(m0, k) <= m0.source_@.len() <= m1.source_@.len(),
        m0.mapped_sections@[k].our_pos <= sect_end(m0, k),
        m1.source_@.subrange(0, m0.source_@.len() as int) == m0.source_@, m0.mapped_sections@[k].section_type == NORMAL,
    ensures copied(m1, k),
{
    assert(copied(m0, k));
    let a = m0.mapped_sections@[k].our_pos as int;
    let b = sect_end(m0, k);
    assert(m1.source_@.subrange(a, b) =~= m1.source_@.subrange(0, m0.source_@.len() as int).subrange(a, b));
}
pub proof fn lemma_kept(m0: mapped_file, m1: mapped_file, p: int)
    requires wf(m0), m1.original == m0.original, 0 <= p < m0.source_@.len() <= m1.source_@.len(), m1.source_@.subrange(0, m0.source_@.len() as int) == m0.source_@,
        m1.mapped_sections@[sect(m1.mapped_sections@, p)] == m0.mapped_sections@[sect(m0.mapped_sections@, p)],
    ensures orig(m1, p) == orig(m0, p),
{
    let s = m0.mapped_sections@[sect(m0.mapped_sections@, p)];
    lemma_sect(m0.mapped_sections@, p);
    assert(m0.mapped_sections@[0].our_pos <= p);
    assert forall|k: int| s.our_pos <= k <= p implies #[trigger] m0.source_@[k] == m1.source_@[k + 0] by {
        assert(m1.source_@.subrange(0, m0.source_@.len() as int)[k] == m0.source_@[k]);
    }
    if s.section_type == INDENTED { lemma_ind_shift(m0.source_@, m0.original.source_@, s, p, m1.source_@, s, 0); }
}
// a section pushed at the end of the text, and text appended to it
pub proof fn lemma_append(m0: mapped_file, m1: mapped_file)
    requires wf(m0), m1.original == m0.original, m0.source_@.len() <= m1.source_@.len(),
        m1.source_@.subrange(0, m0.source_@.len() as int) == m0.source_@,
        m1.mapped_sections@.len() > 0,
        m1.mapped_sections@.last().original_pos <= m1.original.source_@.len(),
        0 <= m1.mapped_sections@.last().section_type <= 2,
        (m1.mapped_sections@ == m0.mapped_sections@ && m0.mapped_sections@.last().section_type == EMPTY)
        || (m1.mapped_sections@.drop_last() == m0.mapped_sections@ && m1.mapped_sections@.last().our_pos == m0.source_@.len()),
        m1.mapped_sections@.last().section_type == NORMAL ==> copied(m1, m1.mapped_sections@.len() - 1),
        m1.mapped_sections@.last().section_type == INDENTED ==> unindented(m1, m1.mapped_sections@.len() - 1),
    ensures wf(m1), extends(m0, m1),
        forall|p: int| m0.source_@.len() <= p <= m1.source_@.len() ==> #[trigger] sect(m1.mapped_sections@, p) == m1.mapped_sections@.len() - 1,
{
    let v0 = m0.mapped_sections@;
    let v1 = m1.mapped_sections@;
    assert forall|i: int, j: int| 0 <= i <= j < v1.len() implies (#[trigger] v1[i]).our_pos <= (#[trigger] v1[j]).our_pos by {
        if v1 != v0 {
            if i < v1.len() - 1 { assert(v1.drop_last()[i] == v0[i]); }
            if j < v1.len() - 1 { assert(v1.drop_last()[j] == v0[j]); }
        }
    }
    assert forall|k: int| 0 <= k < v1.len() implies (#[trigger] v1[k]).our_pos <= m1.source_@.len() && v1[k].original_pos <= m1.original.source_@.len()
            && 0 <= v1[k].section_type <= 2 by {
        if v1 != v0 && k < v1.len() - 1 { assert(v1.drop_last()[k] == v0[k]); }
    }
    assert forall|k: int| 0 <= k < v1.len() && (#[trigger] v1[k]).section_type == NORMAL implies copied(m1, k) by {
        if k < v1.len() - 1 {
            if v1 != v0 { assert(v1.drop_last()[k] == v0[k]); }
            if k + 1 < v1.len() - 1 && v1 != v0 { assert(v1.drop_last()[k + 1] == v0[k + 1]); }
            if k + 1 < v0.len() { assert(v0[k].our_pos <= v0[k + 1].our_pos); assert(v0[k + 1].our_pos <= m0.source_@.len()); }
            lemma_copied_same(m0, m1, k);
        }
    }
    assert forall|k: int| 0 <= k < v1.len() && (#[trigger] v1[k]).section_type == INDENTED implies unindented(m1, k) by {
        if k < v1.len() - 1 {
            if v1 != v0 { assert(v1.drop_last()[k] == v0[k]); }
            if k + 1 < v1.len() - 1 && v1 != v0 { assert(v1.drop_last()[k + 1] == v0[k + 1]); }
            if k + 1 < v0.len() { assert(v0[k].our_pos <= v0[k + 1].our_pos); assert(v0[k + 1].our_pos <= m0.source_@.len()); }
            assert(unindented(m0, k));
            assert forall|q: int| v0[k].our_pos <= q < sect_end(m0, k) implies #[trigger] m0.source_@[q] == m1.source_@[q + 0] by {
                assert(m1.source_@.subrange(0, m0.source_@.len() as int)[q] == m0.source_@[q]);
            }
            lemma_unind_shift(m0.source_@, m0.original.source_@, v0[k], sect_end(m0, k), m1.source_@, v1[k], sect_end(m1, k), 0);
        }
    }
    assert(v1.len() > 0 ==> v1[0].our_pos == 0) by {
        if v1 != v0 { if v1.len() > 1 { assert(v1.drop_last()[0] == v0[0]); } }
    }
    assert(wf(m1));
    assert forall|p: int| 0 <= p < m0.source_@.len() implies #[trigger] v1[sect(v1, p)] == v0[sect(v0, p)] by {
        lemma_sect(v0, p);
        if v1 != v0 {
            let i = sect(v0, p);
            assert(v0[0].our_pos <= p);
            assert(i >= 0);
            assert(v1.drop_last()[i] == v0[i]);
            if i + 1 < v0.len() { assert(v1.drop_last()[i + 1] == v0[i + 1]); }
            lemma_sect_unique(v1, p, i);
        }
    }
    assert forall|p: int| 0 <= p < m0.source_@.len() implies #[trigger] orig(m1, p) == orig(m0, p) by {
        lemma_kept(m0, m1, p);
    }
    assert forall|p: int| m0.source_@.len() <= p <= m1.source_@.len() implies #[trigger] sect(v1, p) == v1.len() - 1 by {
        if v1 == v0 { assert(v0[v0.len() - 1].our_pos <= m0.source_@.len()); }
        lemma_sect_unique(v1, p, v1.len() - 1);
    }
}

// sections f+1 .. e of x, moved; the first one starts at begin
pub open spec fn moved(v0: Seq<mapped_file_section>, v1: Seq<mapped_file_section>, xv: Seq<mapped_file_section>, begin: int, size: int, f: int, e: int, ob: int) -> bool {
    &&& v1.len() == v0.len() + (e - f)
    &&& forall|k: int| 0 <= k < v0.len() ==> #[trigger] v1[k] == v0[k]
    &&& v1[v0.len() as int].our_pos == size && v1[v0.len() as int].section_type == xv[f].section_type && v1[v0.len() as int].original_pos == ob
    &&& forall|k: int| v0.len() < k < v1.len() ==> (#[trigger] v1[k]).our_pos == xv[k - v0.len() + f].our_pos - begin + size
            && v1[k].section_type == xv[k - v0.len() + f].section_type && v1[k].original_pos == xv[k - v0.len() + f].original_pos
}
pub proof fn lemma_orig_bound(m: mapped_file, p: int, i: int)
    requires wf(m), 0 <= p <= m.source_@.len(), i == sect(m.mapped_sections@, p), 0 <= i,
    ensures m.mapped_sections@[i].our_pos <= p, 0 <= orig(m, p) <= m.original.source_@.len(),
        i + 1 < m.mapped_sections@.len() ==> p < sect_end(m, i),
{
    lemma_sect(m.mapped_sections@, p);
    let s = m.mapped_sections@[i];
    if s.section_type == NORMAL {
        assert(copied(m, i));
        if i + 1 < m.mapped_sections@.len() { assert(p < m.mapped_sections@[i + 1].our_pos); }
    }
    if s.section_type == INDENTED {
        assert(unindented(m, i));
        if p < m.source_@.len() { lemma_ind_line(m.source_@, m.original.source_@, s, sect_end(m, i), p); }
        else { lemma_ind_end(m.source_@, m.original.source_@, s); }
    }
}
// the end of the text, in an indented section
pub proof fn lemma_ind_end(src: Seq<i8>, o: Seq<i8>, s: mapped_file_section)
    requires s.our_pos <= src.len(), s.original_pos <= o.len(), s.section_type == INDENTED, unindented_to(src, o, s, src.len() as int),
    ensures s.original_pos <= orig_in(src, o, s, src.len() as int) <= o.len(),
        newlines(src, s.our_pos as int, src.len() as int) <= newlines(o, s.original_pos as int, o.len() as int),
{
    let a = s.our_pos as int;
    let p = src.len() as int;
    let g = ind_line(src, o, s, p);
    let c = ind_content(src, s, p);
    lemma_newlines(src, a, p);
    lemma_gl(o, s.original_pos as int, newlines(src, a, p));
    lemma_skip(o, g);
    lemma_skip(src, line_start(src, a, p));
    if c < p {
        lemma_same_line(src, a, p - 1, p);
        assert(ind_at(src, o, s, p - 1));
    }
}
pub open spec fn moved_pre(m0: mapped_file, x: mapped_file, m1: mapped_file, begin: int, end: int, f: int, e: int) -> bool {
    &&& wf(m0) && wf(x) && m1.original == m0.original && m0.original.source_@ == x.original.source_@
    &&& 0 <= begin < end <= x.source_@.len()
    &&& f == sect(x.mapped_sections@, begin) && 0 <= f < e <= x.mapped_sections@.len()
    &&& e < x.mapped_sections@.len() ==> end <= x.mapped_sections@[e].our_pos
    &&& forall|k: int| f < k < e ==> (#[trigger] x.mapped_sections@[k]).our_pos < end
    &&& m1.source_@ == m0.source_@ + x.source_@.subrange(begin, end)
    &&& moved(m0.mapped_sections@, m1.mapped_sections@, x.mapped_sections@, begin, m0.source_@.len() as int, f, e, orig(x, begin))
}
pub proof fn lemma_moved_sorted(m0: mapped_file, x: mapped_file, m1: mapped_file, begin: int, end: int, f: int, e: int)
    requires moved_pre(m0, x, m1, begin, end, f, e),
    ensures sorted(m1.mapped_sections@), m1.mapped_sections@[0].our_pos == 0,
        forall|k: int| 0 <= k < m1.mapped_sections@.len() ==> (#[trigger] m1.mapped_sections@[k]).our_pos <= m1.source_@.len()
            && m1.mapped_sections@[k].original_pos <= m1.original.source_@.len() && 0 <= m1.mapped_sections@[k].section_type <= 2,
{
    let v0 = m0.mapped_sections@;
    let v1 = m1.mapped_sections@;
    let xv = x.mapped_sections@;
    let n0 = v0.len() as int;
    let size = m0.source_@.len() as int;
    lemma_sect(xv, begin);
    lemma_orig_bound(x, begin, f);
    assert forall|k: int| n0 < k < v1.len() implies begin < xv[k - n0 + f].our_pos && xv[k - n0 + f].our_pos < end && size < (#[trigger] v1[k]).our_pos < m1.source_@.len() by { }
    assert forall|i: int, j: int| 0 <= i <= j < v1.len() implies (#[trigger] v1[i]).our_pos <= (#[trigger] v1[j]).our_pos by {
        if i < n0 { assert(v1[i] == v0[i]); }
        if j < n0 { assert(v1[j] == v0[j]); }
        if i > n0 { assert(xv[i - n0 + f].our_pos <= xv[j - n0 + f].our_pos); }
    }
    assert forall|k: int| 0 <= k < v1.len() implies (#[trigger] v1[k]).our_pos <= m1.source_@.len() && v1[k].original_pos <= m1.original.source_@.len()
            && 0 <= v1[k].section_type <= 2 by {
        if k < n0 { assert(v1[k] == v0[k]); }
        else if k > n0 { assert(0 <= xv[k - n0 + f].section_type <= 2); }
    }
    assert(v1[0].our_pos == 0) by { if n0 > 0 { assert(v1[0] == v0[0]); } else { assert(size == 0); } }
}
pub proof fn lemma_moved_copied(m0: mapped_file, x: mapped_file, m1: mapped_file, begin: int, end: int, f: int, e: int, k: int)
    requires moved_pre(m0, x, m1, begin, end, f, e), sorted(m1.mapped_sections@), 0 <= k < m1.mapped_sections@.len(), m1.mapped_sections@[k].section_type == NORMAL,
    ensures copied(m1, k),
{
    let v0 = m0.mapped_sections@;
    let v1 = m1.mapped_sections@;
    let xv = x.mapped_sections@;
    let n0 = v0.len() as int;
    let size = m0.source_@.len() as int;
    lemma_sect(xv, begin);
    assert(m1.source_@.subrange(0, size) =~= m0.source_@);
    if k < n0 {
        assert(v1[k] == v0[k]);
        if k + 1 < n0 { assert(v1[k + 1] == v0[k + 1]); assert(v0[k].our_pos <= v0[k + 1].our_pos); assert(v0[k + 1].our_pos <= m0.source_@.len()); }
        lemma_copied_same(m0, m1, k);
    } else {
        let j = k - n0 + f;
        assert(copied(x, j)) by { assert(xv[j].section_type == NORMAL); }
        let a = if k == n0 { begin } else { xv[j].our_pos as int };
        let xe = sect_end(x, j);
        let b = if end < xe { end } else { xe };
        // v1[k] covers [a, b) of x, moved by size - begin
        if k + 1 < v1.len() { assert(xv[j + 1].our_pos < end); assert(xv[j].our_pos <= xv[j + 1].our_pos); }
        assert(sect_end(m1, k) == b - begin + size);
        assert(a <= b);
        let d = xv[j].original_pos - xv[j].our_pos;
        assert(v1[k].original_pos == a + d);
        let l = m1.source_@.subrange(a - begin + size, b - begin + size);
        let r = m1.original.source_@.subrange(a + d, b + d);
        assert forall|q: int| 0 <= q < b - a implies #[trigger] l[q] == r[q] by {
            assert(m1.source_@[a - begin + size + q] == x.source_@[a + q]);
            let z = a + q - xv[j].our_pos;
            assert(x.source_@.subrange(xv[j].our_pos as int, xe)[z] == x.original.source_@.subrange(xv[j].original_pos as int, xv[j].original_pos + (xe - xv[j].our_pos))[z]);
        }
        assert(l =~= r);
    }
}
pub proof fn lemma_moved_at(m0: mapped_file, x: mapped_file, m1: mapped_file, begin: int, end: int, f: int, e: int, j: int, q: int)
    requires moved_pre(m0, x, m1, begin, end, f, e), begin <= q < end, f <= j < e, j == sect(x.mapped_sections@, q),
    ensures ({
        let i = j - f + m0.mapped_sections@.len() as int;
        let o = x.original.source_@;
        orig_in(m1.source_@, o, m1.mapped_sections@[i], q + (m0.source_@.len() - begin)) == part_orig(x, begin, q)
    }),
{
    let v1 = m1.mapped_sections@;
    let xv = x.mapped_sections@;
    let size = m0.source_@.len() as int;
    let o = x.original.source_@;
    let i = j - f + m0.mapped_sections@.len() as int;
    let a = if j == f { begin } else { xv[j].our_pos as int };
    lemma_sect(xv, q);
    lemma_sect(xv, begin);
    if xv[j].section_type == INDENTED {
        assert(unindented(x, j));
        assert forall|k: int| a <= k <= q implies #[trigger] x.source_@[k] == m1.source_@[k + (size - begin)] by { assert(m1.source_@[size + (k - begin)] == x.source_@.subrange(begin, end)[k - begin]); }
        if j == f { lemma_ind_cut(x.source_@, o, xv[j], sect_end(x, j), begin, q, m1.source_@, v1[i], size - begin); }
        else { lemma_ind_shift(x.source_@, o, xv[j], q, m1.source_@, v1[i], size - begin); }
    } else if xv[j].section_type == NORMAL && j == f {
        assert(v1[i].original_pos == orig(x, begin));
    }
}
pub proof fn lemma_moved_sect(m0: mapped_file, x: mapped_file, m1: mapped_file, begin: int, end: int, f: int, e: int)
    requires moved_pre(m0, x, m1, begin, end, f, e), sorted(m1.mapped_sections@),
    ensures forall|p: int| 0 <= p < m0.source_@.len() ==> #[trigger] m1.mapped_sections@[sect(m1.mapped_sections@, p)] == m0.mapped_sections@[sect(m0.mapped_sections@, p)],
        forall|p: int| 0 <= p < m0.source_@.len() ==> #[trigger] orig(m1, p) == orig(m0, p),
        forall|p: int| m0.source_@.len() <= p < m1.source_@.len() ==> #[trigger] orig(m1, p) == part_orig(x, begin, begin + (p - m0.source_@.len())),
{
    let v0 = m0.mapped_sections@;
    let v1 = m1.mapped_sections@;
    let xv = x.mapped_sections@;
    let n0 = v0.len() as int;
    let size = m0.source_@.len() as int;
    lemma_sect(xv, begin);
    assert forall|p: int| 0 <= p < size implies #[trigger] v1[sect(v1, p)] == v0[sect(v0, p)] by {
        lemma_sect(v0, p);
        let i = sect(v0, p);
        assert(v0[0].our_pos <= p);
        assert(i >= 0);
        assert(v1[i] == v0[i]);
        if i + 1 < n0 { assert(v1[i + 1] == v0[i + 1]); }
        lemma_sect_unique(v1, p, i);
    }
    assert(m1.source_@.subrange(0, size) =~= m0.source_@);
    assert forall|p: int| 0 <= p < size implies #[trigger] orig(m1, p) == orig(m0, p) by { lemma_kept(m0, m1, p); }
    assert forall|p: int| size <= p < m1.source_@.len() implies #[trigger] orig(m1, p) == part_orig(x, begin, begin + (p - size)) by {
        let q = begin + (p - size);
        let o = x.original.source_@;
        lemma_sect(xv, q);
        let j = sect(xv, q);
        if j < f { assert(q < xv[f].our_pos); }
        if j >= e { assert(xv[e].our_pos <= xv[j].our_pos); }
        let i = j - f + n0;
        if j > f { assert(v1[i].our_pos <= p); }
        if i + 1 < v1.len() { assert(v1[i + 1].our_pos == xv[j + 1].our_pos - begin + size); }
        lemma_sect_unique(v1, p, i);
        lemma_moved_at(m0, x, m1, begin, end, f, e, j, q);
    }
}
// where a character of a part of x starting at begin is said to come from: where x says it comes from, except that
// spaces and tabs at the start of the part, in an indented block, are all at the start of the part
pub open spec fn part_orig(x: mapped_file, begin: int, q: int) -> int {
    let f = sect(x.mapped_sections@, begin);
    if sect(x.mapped_sections@, q) == f && x.mapped_sections@[f].section_type == INDENTED && blank(x.source_@, begin, q) { orig(x, begin) } else { orig(x, q) }
}
pub proof fn lemma_moved_unindented(m0: mapped_file, x: mapped_file, m1: mapped_file, begin: int, end: int, f: int, e: int, k: int)
    requires moved_pre(m0, x, m1, begin, end, f, e), sorted(m1.mapped_sections@), 0 <= k < m1.mapped_sections@.len(), m1.mapped_sections@[k].section_type == INDENTED,
    ensures unindented(m1, k),
{
    let v0 = m0.mapped_sections@;
    let v1 = m1.mapped_sections@;
    let xv = x.mapped_sections@;
    let n0 = v0.len() as int;
    let size = m0.source_@.len() as int;
    let o = x.original.source_@;
    lemma_sect(xv, begin);
    if k < n0 {
        assert(v1[k] == v0[k]);
        assert(unindented(m0, k));
        if k + 1 < n0 { assert(v1[k + 1] == v0[k + 1]); assert(v0[k].our_pos <= v0[k + 1].our_pos); assert(v0[k + 1].our_pos <= m0.source_@.len()); }
        lemma_unind_shift(m0.source_@, o, v0[k], sect_end(m0, k), m1.source_@, v1[k], sect_end(m1, k), 0);
    } else {
        let j = k - n0 + f;
        assert(unindented(x, j)) by { assert(xv[j].section_type == INDENTED); }
        if k + 1 < v1.len() { assert(xv[j + 1].our_pos < end); assert(xv[j].our_pos <= xv[j + 1].our_pos); assert(v1[k + 1].our_pos == xv[j + 1].our_pos - begin + size); }
        else if j + 1 < xv.len() { assert(end <= xv[j + 1].our_pos); }
        assert(sect_end(m1, k) <= sect_end(x, j) + (size - begin));
        let a = if k == n0 { begin } else { xv[j].our_pos as int };
        assert forall|q: int| a <= q < sect_end(m1, k) - (size - begin) implies #[trigger] x.source_@[q] == m1.source_@[q + (size - begin)] by {
            assert(m1.source_@[size + (q - begin)] == x.source_@.subrange(begin, end)[q - begin]); }
        if k == n0 { lemma_unind_cut(x.source_@, o, xv[j], sect_end(x, j), begin, m1.source_@, v1[k], sect_end(m1, k), size - begin); }
        else { lemma_unind_shift(x.source_@, o, xv[j], sect_end(x, j), m1.source_@, v1[k], sect_end(m1, k), size - begin); }
    }
}
pub proof fn lemma_moved(m0: mapped_file, x: mapped_file, m1: mapped_file, begin: int, end: int, f: int, e: int)
    requires moved_pre(m0, x, m1, begin, end, f, e),
    ensures wf(m1), extends(m0, m1),
        forall|p: int| m0.source_@.len() <= p < m1.source_@.len() ==> #[trigger] orig(m1, p) == part_orig(x, begin, begin + (p - m0.source_@.len())),
{
    lemma_moved_sorted(m0, x, m1, begin, end, f, e);
    let v1 = m1.mapped_sections@;
    assert forall|k: int| 0 <= k < v1.len() && (#[trigger] v1[k]).section_type == NORMAL implies copied(m1, k) by {
        lemma_moved_copied(m0, x, m1, begin, end, f, e, k);
    }
    assert forall|k: int| 0 <= k < v1.len() && (#[trigger] v1[k]).section_type == INDENTED implies unindented(m1, k) by {
        lemma_moved_unindented(m0, x, m1, begin, end, f, e, k);
    }
    lemma_moved_sect(m0, x, m1, begin, end, f, e);
    assert(m1.source_@.subrange(0, m0.source_@.len() as int) =~= m0.source_@);
}
// machine arithmetic: newlines are counted in 32 bits
pub open spec fn small(m: mapped_file) -> bool { m.source_@.len() <= 0xffff_ffff }

pub proof fn lemma_nl_some(s: Seq<i8>, a: int, b: int)
    requires a <= b, newlines(s, a, b) > 0,
    ensures a < line_start(s, a, b) <= b, s[line_start(s, a, b) - 1] == 10,
    decreases b - a
{
    if a < b && s[b - 1] != 10 { lemma_nl_some(s, a, b - 1); }
}
// the content of the line of p
pub proof fn lemma_at_content(m: mapped_file, i: int, p: int)
    requires wf(m), 0 <= p <= m.source_@.len(), i == sect(m.mapped_sections@, p), 0 <= i, m.mapped_sections@[i].section_type == INDENTED,
    ensures ({
        let c = ind_content(m.source_@, m.mapped_sections@[i], p);
        let o = m.original.source_@;
        let y = skip(o, ind_line(m.source_@, o, m.mapped_sections@[i], p));
        c <= p && c < m.source_@.len() ==> 0 <= y < o.len() && o[y] == m.source_@[c] && y + (p - c) <= o.len()
    }),
{
    let s = m.mapped_sections@[i];
    let c = ind_content(m.source_@, s, p);
    lemma_orig_bound(m, p, i);
    lemma_sect(m.mapped_sections@, p);
    lemma_newlines(m.source_@, s.our_pos as int, p);
    lemma_skip(m.source_@, line_start(m.source_@, s.our_pos as int, p));
    assert(unindented(m, i));
    if c <= p && c < m.source_@.len() {
        lemma_same_line(m.source_@, s.our_pos as int, c, p);
        assert(ind_at(m.source_@, m.original.source_@, s, c));
        lemma_nl_split(m.source_@, s.our_pos as int, p, sect_end(m, i));
        lemma_newlines(m.source_@, p, sect_end(m, i));
        lemma_gl(m.original.source_@, s.original_pos as int, newlines(m.source_@, s.our_pos as int, p));
        lemma_skip(m.original.source_@, ind_line(m.source_@, m.original.source_@, s, p));
    }
}

pub proof fn lemma_line_count(m: mapped_file, i: int, p: int)
    requires wf(m), 0 <= p <= m.source_@.len(), i == sect(m.mapped_sections@, p), 0 <= i, m.mapped_sections@[i].section_type == INDENTED,
    ensures ({
        let s = m.mapped_sections@[i];
        let o = m.original.source_@;
        &&& s.our_pos <= p && s.original_pos <= o.len()
        &&& 0 <= newlines(m.source_@, s.our_pos as int, p) <= newlines(o, s.original_pos as int, o.len() as int)
        &&& 0 <= newlines(m.source_@, s.our_pos as int, p) <= p
    }),
{
    let s = m.mapped_sections@[i];
    lemma_orig_bound(m, p, i);
    lemma_sect(m.mapped_sections@, p);
    assert(unindented(m, i));
    lemma_newlines(m.source_@, s.our_pos as int, p);
    lemma_newlines(m.source_@, p, sect_end(m, i));
    lemma_nl_split(m.source_@, s.our_pos as int, p, sect_end(m, i));
}

// an indented section whose text has the content of a part of the original
pub proof fn lemma_content_unind(src: Seq<i8>, o: Seq<i8>, s: mapped_file_section, e: int, t: Seq<i8>)
    requires s.our_pos <= e <= src.len(), s.section_type == INDENTED, s.original_pos + t.len() <= o.len(), t == o.subrange(s.original_pos as int, s.original_pos + t.len()),
        content(src.subrange(s.our_pos as int, e)) == content(t),
    ensures unindented_to(src, o, s, e),
{
    let a = s.our_pos as int;
    let b = s.original_pos as int;
    let u = src.subrange(a, e);
    let tl = t.len() as int;
    lemma_content(u);
    lemma_content(t);
    assert forall|k: int| 0 <= k < u.len() implies #[trigger] u[k] == src[k + a] by { }
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] == o[k + b] by { }
    lemma_nl_shift(u, 0, e - a, src, a);
    lemma_nl_shift(t, 0, tl, o, b);
    lemma_nl_split(o, b, b + tl, o.len() as int);
    lemma_newlines(o, b + tl, o.len() as int);
    assert forall|p: int| a <= p < e implies #[trigger] ind_at(src, o, s, p) by {
        let q = p - a;
        lemma_nl_shift(u, 0, q, src, a);
        lemma_newlines(u, 0, q);
        let l = line_start(u, 0, q);
        lemma_skip_agree(u, src, l, a, q);
        if ind_content(src, s, p) <= p {
            assert(kept(u, q));
            lemma_content_at(u, t, q);
            let n = newlines(u, 0, q);
            lemma_gl_shift(t, 0, n, o, b);
            let g = gl(t, 0, n);
            let x = skip(t, g) + (q - skip(u, l));
            lemma_skip(t, g);
            lemma_skip_agree(t, o, g, b, x);
        }
    }
}

// ---------------------------------------------------------------- blocks without their indentation
pub open spec fn no_cr(s: Seq<i8>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != 13 }
pub open spec fn first_text(s: Seq<i8>, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() { s.len() as int } else if ws(s[i]) || s[i] == 10 { first_text(s, i + 1) } else { i } }
// the start of the first line which is not blank
pub open spec fn block_of(s: Seq<i8>) -> int { line_start(s, 0, first_text(s, 0)) }
pub open spec fn block(s: Seq<i8>, a: int) -> bool { a == block_of(s) && 0 <= a <= first_text(s, 0) < s.len() && s[a] != 10 }
pub open spec fn new_text(m0: mapped_file, m1: mapped_file) -> Seq<i8> { m1.source_@.subrange(m0.source_@.len() as int, m1.source_@.len() as int) }
pub open spec fn added_block(m0: mapped_file, m1: mapped_file, at: int) -> bool {
    &&& m1.mapped_sections@.len() > 0 && m1.mapped_sections@.drop_last() == m0.mapped_sections@
    &&& m1.mapped_sections@.last().our_pos == m0.source_@.len() && m1.mapped_sections@.last().section_type == INDENTED && m1.mapped_sections@.last().original_pos == at
}
// position p comes from the line of the same number in the block at at: the same character, or the start of the line for a space at its start
pub open spec fn from_block(m0: mapped_file, m1: mapped_file, at: int, p: int) -> bool {
    let q = orig(m1, p);
    let a = m0.source_@.len() as int;
    let line = gl(m1.original.source_@, at, newlines(m1.source_@, a, p));
    if skip(m1.source_@, line_start(m1.source_@, a, p)) > p { q == line }
    else { line <= q < m1.original.source_@.len() && m1.original.source_@[q] == m1.source_@[p] && q - skip(m1.original.source_@, line) == p - skip(m1.source_@, line_start(m1.source_@, a, p)) }
}
pub proof fn lemma_sets()
    ensures forall|s: Seq<i8>, c: i8| s.len() == 2 && s[0] == 13 && s[1] == 10 ==> #[trigger] s.contains(c) == (c == 13 || c == 10),
        forall|s: Seq<i8>, c: i8| s.len() == 2 && s[0] == 32 && s[1] == 9 ==> #[trigger] s.contains(c) == ws(c),
        forall|s: Seq<i8>, c: i8| s.len() == 4 && s[0] == 32 && s[1] == 9 && s[2] == 13 && s[3] == 10 ==> #[trigger] s.contains(c) == (ws(c) || c == 13 || c == 10),
{
}
pub proof fn lemma_first_text(s: Seq<i8>, i: int, f: int)
    requires 0 <= i <= f <= s.len(), forall|k: int| i <= k < f ==> ws(#[trigger] s[k]) || s[k] == 10, f < s.len() ==> !ws(s[f]) && s[f] != 10,
    ensures first_text(s, i) == f,
    decreases f - i
{
    if i < f { assert(ws(s[i]) || s[i] == 10); lemma_first_text(s, i + 1, f); }
}
pub proof fn lemma_block_is(s: Seq<i8>, a: int)
    ensures 0 <= a <= first_text(s, 0) < s.len() && (a == 0 || s[a - 1] == 10) && (forall|k: int| a <= k <= first_text(s, 0) ==> #[trigger] s[k] != 10) ==> block(s, a)
{
    if 0 <= a <= first_text(s, 0) < s.len() && (a == 0 || s[a - 1] == 10) && (forall|k: int| a <= k <= first_text(s, 0) ==> #[trigger] s[k] != 10) {
        lemma_first_text_is(s, 0);
        let f = first_text(s, 0);
        lemma_nl_none(s, a, f);
        lemma_ls_split(s, 0, a, f);
        if a > 0 { assert(line_start(s, 0, a) == a); }
    }
}
pub proof fn lemma_first_text_is(s: Seq<i8>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= first_text(s, i) <= s.len(), forall|k: int| i <= k < first_text(s, i) ==> ws(#[trigger] s[k]) || s[k] == 10,
        first_text(s, i) < s.len() ==> !ws(s[first_text(s, i)]) && s[first_text(s, i)] != 10,
    decreases s.len() - i
{
    if i < s.len() && (ws(s[i]) || s[i] == 10) { lemma_first_text_is(s, i + 1); }
}
pub proof fn lemma_step_rest(s: Seq<i8>, a: int)
    requires 0 <= a <= s.len(),
    ensures forall|u: Seq<i8>, c: int, p: int| a <= c <= p <= s.len() && content(u) == content(s.subrange(a, c)) && bol(u) == bol(s.subrange(a, c)) ==> content(#[trigger] (u + s.subrange(c, p))) == content(s.subrange(a, p)) && bol(u + s.subrange(c, p)) == bol(s.subrange(a, p)),
{
    assert forall|u: Seq<i8>, c: int, p: int| a <= c <= p <= s.len() && content(u) == content(s.subrange(a, c)) && bol(u) == bol(s.subrange(a, c)) implies content(#[trigger] (u + s.subrange(c, p))) == content(s.subrange(a, p)) && bol(u + s.subrange(c, p)) == bol(s.subrange(a, p)) by {
        lemma_content_same(u, s.subrange(a, c), s.subrange(c, p));
        assert(s.subrange(a, c) + s.subrange(c, p) =~= s.subrange(a, p));
    }
}
pub proof fn lemma_unindent_step(s: Seq<i8>, a: int)
    requires 0 <= a <= s.len(),
    ensures
        forall|p: int| a <= p <= s.len() && (p == a || s[p - 1] == 10) ==> bol(#[trigger] s.subrange(a, p)),
        forall|p: int, c: int| a <= p <= c <= s.len() && bol(s.subrange(a, p)) && (forall|k: int| p <= k < c ==> ws(#[trigger] s[k])) ==> content(#[trigger] s.subrange(a, c)) == content(#[trigger] s.subrange(a, p)) && bol(s.subrange(a, c)),
        forall|u: Seq<i8>, w: Seq<i8>| bol(u) && (forall|k: int| 0 <= k < w.len() ==> ws(#[trigger] w[k])) ==> content(#[trigger] (u + w)) == content(u) && bol(u + w),
{
    assert forall|p: int| a <= p <= s.len() && (p == a || s[p - 1] == 10) implies bol(#[trigger] s.subrange(a, p)) by {
        if p > a { assert(s.subrange(a, p).last() == 10); }
    }
    assert forall|u: Seq<i8>, w: Seq<i8>| bol(u) && (forall|k: int| 0 <= k < w.len() ==> ws(#[trigger] w[k])) implies content(#[trigger] (u + w)) == content(u) && bol(u + w) by {
        lemma_content_ws(u, w);
    }
    assert forall|p: int, c: int| a <= p <= c <= s.len() && bol(s.subrange(a, p)) && (forall|k: int| p <= k < c ==> ws(#[trigger] s[k])) implies content(#[trigger] s.subrange(a, c)) == content(#[trigger] s.subrange(a, p)) && bol(s.subrange(a, c)) by {
        lemma_content_ws(s.subrange(a, p), s.subrange(p, c));
        assert(s.subrange(a, p) + s.subrange(p, c) =~= s.subrange(a, c));
    }
}
pub proof fn lemma_unindent_done(m0: mapped_file, m1: mapped_file, s: Seq<i8>, xb: int, a: int, u: Seq<i8>)
    ensures
        forall|w: Seq<i8>| m1.source_@ == #[trigger] (m0.source_@ + w) ==> new_text(m0, m1) == w,
        wf(m0) && block(s, a) && 0 <= xb && xb + s.len() <= m0.original.source_@.len() && s == m0.original.source_@.subrange(xb, xb + s.len())
        && content(u) == content(s.subrange(a, s.len() as int)) && m1.original == m0.original && added_block(m0, m1, xb + a) && m1.source_@ == m0.source_@ + u
        ==> wf(m1) && extends(m0, m1) && new_text(m0, m1) == u && (forall|p: int| m0.source_@.len() <= p < m1.source_@.len() ==> #[trigger] from_block(m0, m1, xb + a, p)),
{
    assert forall|w: Seq<i8>| m1.source_@ == #[trigger] (m0.source_@ + w) implies new_text(m0, m1) == w by { assert(new_text(m0, m1) =~= w); }
    if wf(m0) && block(s, a) && 0 <= xb && xb + s.len() <= m0.original.source_@.len() && s == m0.original.source_@.subrange(xb, xb + s.len())
        && content(u) == content(s.subrange(a, s.len() as int)) && m1.original == m0.original && added_block(m0, m1, xb + a) && m1.source_@ == m0.source_@ + u {
        let o = m0.original.source_@;
        let n = m0.source_@.len() as int;
        let t = s.subrange(a, s.len() as int);
        assert(t =~= o.subrange(xb + a, xb + a + t.len()));
        assert(m1.source_@.subrange(n, m1.source_@.len() as int) =~= u);
        assert(m1.source_@.subrange(0, n) =~= m0.source_@);
        lemma_content_unind(m1.source_@, o, m1.mapped_sections@.last(), m1.source_@.len() as int, t);
        lemma_append(m0, m1);
        let i = m1.mapped_sections@.len() - 1;
        let sec = m1.mapped_sections@.last();
        assert forall|p: int| n <= p < m1.source_@.len() implies #[trigger] from_block(m0, m1, xb + a, p) by {
            assert(sect(m1.mapped_sections@, p) == i);
            assert(ind_at(m1.source_@, o, sec, p));
            lemma_ind_line(m1.source_@, o, sec, m1.source_@.len() as int, p);
        }
    }
}
