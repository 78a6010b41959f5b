// lists written with indentation: the lists and items that are open
pub struct ListStack { pub v: Vec<list_stack_item> }
pub fn lstack_empty(t: &ListStack) -> (r: bool) ensures r == (t.v@.len() == 0) { t.v.len() == 0 }
pub fn lstack_top(t: &ListStack) -> (r: list_stack_item) requires t.v@.len() > 0 ensures r == t.v@.last() { t.v[t.v.len() - 1] }
pub fn lstack_push(t: &mut ListStack, x: list_stack_item) ensures final(t).v@ == old(t).v@.push(x) { t.v.push(x); }
pub fn lstack_pop(t: &mut ListStack) requires old(t).v@.len() > 0 ensures final(t).v@ == old(t).v@.drop_last() { t.v.pop(); }
pub fn ListStack_uninit() -> ListStack { ListStack { v: Vec::new() } }
// what is written: the start and the end of lists and of their items
pub enum Ev { Sl(i8), El(i8), Si, Ei }
pub struct Events { pub v: Ghost<Seq<Ev>> }
pub fn Events_uninit() -> Events { Events { v: Ghost(Seq::empty()) } }

// the lists open after ev (their mark; whether an item is open); None: the tags do not match up
pub open spec fn run(ev: Seq<Ev>) -> Option<Seq<(i8, bool)>>
    decreases ev.len()
{
    if ev.len() == 0 { Some(Seq::empty()) } else {
        match run(ev.drop_last()) {
            None => None,
            Some(o) => step(o, ev.last()),
        }
    }
}
pub open spec fn step(o: Seq<(i8, bool)>, e: Ev) -> Option<Seq<(i8, bool)>> {
    match e {
        Ev::Sl(m) => if o.len() == 0 || o.last().1 { Some(o.push((m, false))) } else { None },
        Ev::Si => if o.len() > 0 && !o.last().1 { Some(o.drop_last().push((o.last().0, true))) } else { None },
        Ev::Ei => if o.len() > 0 && o.last().1 { Some(o.drop_last().push((o.last().0, false))) } else { None },
        Ev::El(m) => if o.len() > 0 && o.last() == (m, false) { Some(o.drop_last()) } else { None },
    }
}
pub proof fn lemma_run(ev: Seq<Ev>, e: Ev)
    ensures run(ev.push(e)) == (match run(ev) { None => None, Some(o) => step(o, e) }),
{ assert(ev.push(e).drop_last() =~= ev); }
// the lists on the stack; each has an open item
pub open spec fn lists(st: Seq<list_stack_item>) -> Seq<(i8, bool)>
    decreases st.len()
{
    if st.len() == 0 { Seq::empty() } else if st.last().type_ == 0 { lists(st.drop_last()).push((st.last().mark, true)) } else { lists(st.drop_last()) }
}
pub proof fn lemma_lists_push(st: Seq<list_stack_item>, x: list_stack_item)
    ensures lists(st.push(x)) == (if x.type_ == 0 { lists(st).push((x.mark, true)) } else { lists(st) }), st.push(x).drop_last() == st,
{ assert(st.push(x).drop_last() =~= st); }
pub open spec fn item_ok(st: Seq<list_stack_item>, k: int) -> bool {
    let x = st[k];
    if x.type_ == 0 {
        k > 0 && (x.mark == 42 || x.mark == 35) && x.indent < x.indent2
        && (st[k - 1].type_ == 0 ==> st[k - 1].indent < x.indent) && (st[k - 1].type_ == 1 ==> x.indent == 0)
    } else {
        (x.type_ == 1 || x.type_ == 2) && x.indent == 0 && x.indent2 == 0 && (k > 0 && st[k - 1].type_ == 0 ==> x.outer_list_indent >= st[k - 1].indent)
    }
}
pub open spec fn shape(st: Seq<list_stack_item>, cur: int) -> bool {
    (forall|k: int| 0 <= k < st.len() ==> #[trigger] item_ok(st, k)) && (st.len() > 0 && st.last().type_ == 0 ==> cur >= st.last().indent)
}
pub open spec fn lok(l: main_grammar_local) -> bool {
    shape(l.list_stack.v@, l.list_indent as int) && run(l.state_.ev.v@) == Some(lists(l.list_stack.v@))
}
pub proof fn lemma_shape_push(st: Seq<list_stack_item>, cur: int, x: list_stack_item, cur2: int)
    requires shape(st, cur), item_ok(st.push(x), st.len() as int), x.type_ == 0 ==> cur2 >= x.indent,
    ensures shape(st.push(x), cur2),
{
    let t = st.push(x);
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] item_ok(t, k) by { if k < st.len() { assert(item_ok(st, k)); } }
}
pub proof fn lemma_shape_pop(st: Seq<list_stack_item>, cur: int)
    requires shape(st, cur), st.len() > 0,
    ensures
        forall|k: int| 0 <= k < st.len() - 1 ==> #[trigger] item_ok(st.drop_last(), k),
        item_ok(st, st.len() - 1),
        st.last().type_ == 0 && st.len() > 1 && st[st.len() - 2].type_ == 0 ==> st[st.len() - 2].indent < st.last().indent,
        st.last().type_ == 0 ==> st.len() > 1,
{
    let t = st.drop_last();
    assert(item_ok(st, st.len() - 1));
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] item_ok(t, k) by { assert(item_ok(st, k)); }
}
// the column after the characters [i, j) of s, with a tab stop every 4 columns
pub open spec fn cols(s: Seq<i8>, i: int, j: int) -> int
    decreases j - i
{
    if j <= i { 0 } else { let p = cols(s, i, j - 1); if s[j - 1] == 9 { p + 4 - p % 4 } else { p + 1 } }
}
pub proof fn lemma_cols(s: Seq<i8>, i: int, j: int, k: int)
    requires i <= j <= k,
    ensures 0 <= cols(s, i, j) <= cols(s, i, k) <= 4 * (k - i), j < k ==> cols(s, i, j) < cols(s, i, k),
    decreases k - i
{
    if j < k { lemma_cols(s, i, j, k - 1); } else if i < k { lemma_cols(s, i, k - 1, k - 1); }
}
// ---- what the indentation means
// close the lists that start to the right of n
pub open spec fn closed(st: Seq<list_stack_item>, n: int) -> Seq<list_stack_item>
    decreases st.len()
{
    if st.len() > 0 && st.last().type_ == 0 && n < st.last().indent { closed(st.drop_last(), n) } else { st }
}
// close all lists of the innermost block
pub open spec fn closed_all(st: Seq<list_stack_item>) -> Seq<list_stack_item>
    decreases st.len()
{
    if st.len() > 0 && st.last().type_ == 0 { closed_all(st.drop_last()) } else { st }
}
pub open spec fn opened(st: Seq<list_stack_item>, mark: i8, n: int, n2: int) -> Seq<list_stack_item> {
    st.push(list_stack_item { type_: 0, indent: n as u32, indent2: n2 as u32, mark: mark, outer_list_indent: 0 })
}
// a list item with its mark at column n, its text at column n2, when the preceding item is at column cur
pub open spec fn after_item(st: Seq<list_stack_item>, cur: int, mark: i8, n: int, n2: int) -> Seq<list_stack_item> {
    if st.last().type_ != 0 || n > cur { opened(st, mark, n, n2) }
    else if n == cur { st }
    else { let p = closed(st, n); if p.last().type_ == 0 { p } else { opened(p, mark, n, n2) } }
}
// a paragraph at column n
pub open spec fn after_para(st: Seq<list_stack_item>, n: int) -> Seq<list_stack_item> {
    if n > st.last().indent2 { st }
    else {
        let p = closed(st, n);
        if p.last().type_ == 0 && n == p.last().indent && n <= p.drop_last().last().indent2 { p.drop_last() } else { p }
    }
}
// the first list mark in [i, j), or j
pub open spec fn mark_at(s: Seq<i8>, i: int, j: int) -> int
    decreases j - i
{
    if i >= j || s[i] == 42 || s[i] == 35 { i } else { mark_at(s, i + 1, j) }
}
pub proof fn lemma_shape_ctx(st: Seq<list_stack_item>, cur: int, x: list_stack_item)
    requires shape(st, cur), x.type_ == 1 || x.type_ == 2, x.indent == 0, x.indent2 == 0, x.outer_list_indent == cur,
    ensures shape(st.push(x), cur),
{ lemma_shape_push(st, cur, x, cur); }
// ending the innermost list
pub proof fn lemma_close(st: Seq<list_stack_item>, ev: Seq<Ev>)
    requires st.len() > 0, forall|k: int| 0 <= k < st.len() ==> #[trigger] item_ok(st, k), run(ev) == Some(lists(st)),
    ensures
        st.last().type_ == 0 ==> {
            let d = st.drop_last();
            d.len() > 0 && run(ev.push(Ev::Ei).push(Ev::El(st.last().mark))) == Some(lists(d)) && (st.last().mark == 42 || st.last().mark == 35)
            && (forall|k: int| 0 <= k < d.len() ==> #[trigger] item_ok(d, k)) && (d.last().type_ == 0 ==> d.last().indent < st.last().indent)
            && (d.last().type_ == 1 ==> st.last().indent == 0) && (d.last().type_ != 0 ==> d.last().indent == 0)
        },
        st[0].type_ != 0,
{
    assert(item_ok(st, 0));
    if st.last().type_ == 0 {
        let d = st.drop_last();
        assert(item_ok(st, st.len() - 1));
        assert forall|k: int| 0 <= k < d.len() implies #[trigger] item_ok(d, k) by { assert(item_ok(st, k)); }
        assert(item_ok(d, d.len() - 1));
        lemma_run(ev, Ev::Ei);
        lemma_run(ev.push(Ev::Ei), Ev::El(st.last().mark));
        let o = lists(st);
        assert(o.drop_last() =~= lists(d));
        assert(lists(d).push((st.last().mark, false)).drop_last() =~= lists(d));
    }
}
pub proof fn lemma_closed_all(st: Seq<list_stack_item>, cur: int)
    requires st.len() > 0, forall|k: int| 0 <= k < st.len() ==> #[trigger] item_ok(st, k),
    ensures
        closed_all(st).len() > 0, closed_all(st).last().type_ != 0,
        shape(closed_all(st).drop_last(), closed_all(st).last().outer_list_indent as int),
        lists(closed_all(st).drop_last()) == lists(closed_all(st)),
    decreases st.len()
{
    let d = st.drop_last();
    assert(item_ok(st, st.len() - 1));
    assert forall|k: int| 0 <= k < d.len() implies #[trigger] item_ok(d, k) by { assert(item_ok(st, k)); }
    if st.last().type_ == 0 { lemma_closed_all(d, cur); }
}

pub proof fn lemma_reopen(st: Seq<list_stack_item>)
    ensures st.len() > 0 ==> st.drop_last().push(st.last()) =~= st,
{}
// a mark at column n does not start a list here: the line is code
pub open spec fn is_code(st: Seq<list_stack_item>, n: int) -> bool { st.last().type_ == 1 && n > 0 }
// what a paragraph at column n is: 1 code, 3 a paragraph
pub open spec fn para_type(st: Seq<list_stack_item>, n: int, version: int) -> int {
    if version >= 106 { if n > st.last().indent2 && st.last().type_ != 2 { 1 } else { 3 } }
    else if closed_all(st).last().type_ != 2 && n > 0 { 1 } else { 3 }
}
// a new item, in the list that is open or in a new one
pub proof fn lemma_item(st: Seq<list_stack_item>, ev: Seq<Ev>, cur: int, mark: i8, n: int, n2: int)
    requires st.len() > 0, forall|k: int| 0 <= k < st.len() ==> #[trigger] item_ok(st, k), run(ev) == Some(lists(st)),
        mark == 42 || mark == 35, 0 <= n < n2 <= u32::MAX,
    ensures
        st.last().type_ == 0 ==> run(ev.push(Ev::Ei).push(Ev::Si)) == Some(lists(st)),
        (st.last().type_ == 0 ==> st.last().indent < n) && (st.last().type_ == 1 ==> n == 0)
            ==> shape(opened(st, mark, n, n2), n) && run(ev.push(Ev::Sl(mark)).push(Ev::Si)) == Some(lists(opened(st, mark, n, n2))),
{
    let x = list_stack_item { type_: 0, indent: n as u32, indent2: n2 as u32, mark: mark, outer_list_indent: 0 };
    let o = lists(st);
    lemma_lists_push(st, x);
    lemma_lists_open(st);
    if st.last().type_ == 0 {
        lemma_run(ev, Ev::Ei);
        lemma_run(ev.push(Ev::Ei), Ev::Si);
        let e = o.drop_last().push((o.last().0, false));
        assert(e.drop_last().push((e.last().0, true)) =~= o);
    }
    lemma_run(ev, Ev::Sl(mark));
    lemma_run(ev.push(Ev::Sl(mark)), Ev::Si);
    assert(o.push((mark, false)).drop_last() =~= o);
    if (st.last().type_ == 0 ==> st.last().indent < n) && (st.last().type_ == 1 ==> n == 0) {
        let t = opened(st, mark, n, n2);
        assert forall|k: int| 0 <= k < t.len() implies #[trigger] item_ok(t, k) by { if k < st.len() { assert(item_ok(st, k)); } }
    }
}
// every list on the stack has an open item
pub proof fn lemma_lists_open(st: Seq<list_stack_item>)
    ensures lists(st).len() > 0 ==> lists(st).last().1, st.len() > 0 && st.last().type_ == 0 ==> lists(st).len() > 0,
    decreases st.len()
{ if st.len() > 0 && st.last().type_ != 0 { lemma_lists_open(st.drop_last()); } }

// the start of a line: its indentation and, for a list item, the mark and the column of the text
pub struct Line { pub mark: i8, pub n: int, pub n2: int }
pub open spec fn indented(s: Seq<i8>, i: int, j: int) -> Line {
    let k = mark_at(s, i, j);
    if k < j { Line { mark: s[k], n: cols(s, i, k), n2: cols(s, i, j) } } else { Line { mark: 0, n: cols(s, i, j), n2: cols(s, i, j) } }
}
pub open spec fn lists_after(st: Seq<list_stack_item>, cur: int, version: int, l: Line) -> Seq<list_stack_item> {
    if l.mark == 0 { if version >= 106 { after_para(st, l.n) } else { closed_all(st) } }
    else if is_code(st, l.n) { st }
    else { after_item(st, cur, l.mark, l.n, l.n2) }
}
pub open spec fn type_after(st: Seq<list_stack_item>, version: int, l: Line) -> int {
    if l.mark == 0 { para_type(st, l.n, version) } else if is_code(st, l.n) { 1 } else { 2 }
}
pub proof fn lemma_mark(s: Seq<i8>, i: int, j: int)
    requires i <= j,
    ensures i <= mark_at(s, i, j) <= j,
        forall|k: int| i <= k < mark_at(s, i, j) ==> #[trigger] s[k] != 42 && s[k] != 35,
        mark_at(s, i, j) < j ==> s[mark_at(s, i, j)] == 42 || s[mark_at(s, i, j)] == 35,
    decreases j - i
{ if i < j && s[i] != 42 && s[i] != 35 { lemma_mark(s, i + 1, j); } }
pub proof fn lemma_indented(s: Seq<i8>, i: int, j: int, sub: Seq<i8>)
    requires 0 <= i <= j <= s.len(), sub == s.subrange(i, j),
    ensures i <= mark_at(s, i, j) <= j,
        forall|k: int| 0 <= k < mark_at(s, i, j) - i ==> #[trigger] sub[k] != 42 && sub[k] != 35,
        mark_at(s, i, j) < j ==> sub[mark_at(s, i, j) - i] == 42 || sub[mark_at(s, i, j) - i] == 35,
        forall|k: int| 0 <= k < j - i ==> #[trigger] sub[k] == s[i + k],
        forall|t: Seq<i8>, x: i8| t.len() == 2 && t[0] == 42 && t[1] == 35 ==> (#[trigger] t.contains(x) <==> x == 42 || x == 35),
{
    lemma_mark(s, i, j);
    assert forall|t: Seq<i8>, x: i8| t.len() == 2 && t[0] == 42 && t[1] == 35 implies (#[trigger] t.contains(x) <==> x == 42 || x == 35) by {
        assert(t[0] == 42); assert(t[1] == 35);
    }
    assert forall|k: int| 0 <= k < mark_at(s, i, j) - i implies #[trigger] sub[k] != 42 && sub[k] != 35 by { assert(sub[k] == s[i + k]); }
}
// the column the next item is compared with: that of the item before it or, after lists were closed, of the list that is still open
pub open spec fn col_after(st: Seq<list_stack_item>, cur: int, out: Seq<list_stack_item>, block_type: int, l: Line) -> int {
    if block_type == 2 { l.n } else if out == st { cur } else { out.last().indent as int }
}
