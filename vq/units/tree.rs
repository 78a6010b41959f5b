// s is the whole list of children of p (p == 0: of the top level of a tree), in order
pub open spec fn at(s: Seq<usize>, i: int) -> usize { if 0 <= i < s.len() { s[i] } else { 0 } }
pub open spec fn linked(v: Seq<tree_node_base>, p: usize, s: Seq<usize>, i: int) -> bool {
    0 < s[i] <= v.len() && v[s[i] - 1].parent_ == p && v[s[i] - 1].prev_ == at(s, i - 1) && v[s[i] - 1].next_ == at(s, i + 1)
}
pub open spec fn kids(v: Seq<tree_node_base>, p: usize, s: Seq<usize>) -> bool {
    &&& s.no_duplicates()
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] linked(v, p, s, i)
    &&& p != 0 ==> p <= v.len() && v[p - 1].children_ == at(s, 0)
}
// x is in the list s of the children of its parent
pub open spec fn child(v: Seq<tree_node_base>, x: usize, s: Seq<usize>, i: int) -> bool {
    0 < x <= v.len() && 0 <= i < s.len() && s[i] == x && kids(v, v[x - 1].parent_, s)
}
// every other list of children is as it was
pub open spec fn others(v: Seq<tree_node_base>, w: Seq<tree_node_base>, p: usize, x: usize, n: usize) -> bool {
    forall|q: usize, s: Seq<usize>| #[trigger] kids(v, q, s) && !s.contains(x) && !s.contains(n) && !(q == p && p != 0) ==> kids(w, q, s)
}
pub open spec fn loose(v: Seq<tree_node_base>, n: usize) -> bool {
    0 < n <= v.len() && v[n - 1].parent_ == 0 && v[n - 1].prev_ == 0 && v[n - 1].next_ == 0
}
// n is linked in between a and b (0: nothing there) below p; nothing else changes
pub open spec fn link_at(v: Seq<tree_node_base>, w: Seq<tree_node_base>, p: usize, a: usize, n: usize, b: usize, k: int) -> bool {
    &&& w[k].parent_ == (if k == n - 1 { p } else { v[k].parent_ })
    &&& w[k].next_ == (if k == n - 1 { b } else if k == a - 1 { n } else { v[k].next_ })
    &&& w[k].prev_ == (if k == n - 1 { a } else if k == b - 1 { n } else { v[k].prev_ })
    &&& w[k].children_ == (if a == 0 && k == p - 1 { n } else { v[k].children_ })
}
pub open spec fn linked_in(v: Seq<tree_node_base>, w: Seq<tree_node_base>, p: usize, a: usize, n: usize, b: usize) -> bool {
    w.len() == v.len() && forall|k: int| 0 <= k < v.len() ==> #[trigger] link_at(v, w, p, a, n, b, k)
}
pub proof fn lemma_insert(v: Seq<tree_node_base>, w: Seq<tree_node_base>, p: usize, s: Seq<usize>, i: int, n: usize)
    requires kids(v, p, s), 0 <= i <= s.len(), 0 < n <= v.len(), !s.contains(n), linked_in(v, w, p, at(s, i - 1), n, at(s, i)),
    ensures kids(w, p, s.insert(i, n)),
{
    let z = s.insert(i, n);
    assert forall|j: int| 0 <= j < z.len() implies #[trigger] linked(w, p, z, j) by {
        if j < i {
            assert(linked(v, p, s, j));
            assert(link_at(v, w, p, at(s, i - 1), n, at(s, i), s[j] - 1));
            assert(s[j] != n);
        } else if j == i {
            assert(link_at(v, w, p, at(s, i - 1), n, at(s, i), n - 1));
        } else {
            assert(linked(v, p, s, j - 1));
            assert(link_at(v, w, p, at(s, i - 1), n, at(s, i), s[j - 1] - 1));
            assert(s[j - 1] != n);
        }
    }
    assert(z.no_duplicates()) by {
        assert forall|j: int, k: int| 0 <= j < z.len() && 0 <= k < z.len() && j != k implies z[j] != z[k] by {
            if j == i { assert(s.contains(z[k])); } else if k == i { assert(s.contains(z[j])); }
        }
    }
    if p != 0 { assert(link_at(v, w, p, at(s, i - 1), n, at(s, i), p - 1)); if i > 0 { assert(linked(v, p, s, i - 1)); } }
}
// a list of children which contains none of the changed nodes is not affected
pub proof fn lemma_insert_others(v: Seq<tree_node_base>, w: Seq<tree_node_base>, p: usize, a: usize, n: usize, b: usize, q: usize, s: Seq<usize>)
    requires kids(v, q, s), linked_in(v, w, p, a, n, b), a != 0 ==> !s.contains(a), b != 0 ==> !s.contains(b), !s.contains(n), !(q == p && p != 0),
    ensures kids(w, q, s),
{
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] linked(w, q, s, j) by {
        assert(linked(v, q, s, j));
        assert(link_at(v, w, p, a, n, b, s[j] - 1));
        assert(s.contains(s[j]));
    }
    if q != 0 { assert(link_at(v, w, p, a, n, b, q - 1)); }
}
// a loose node is not in a list of children which has another node
pub proof fn lemma_loose(v: Seq<tree_node_base>, n: usize, p: usize, s: Seq<usize>)
    requires loose(v, n), kids(v, p, s), p != 0 || s.len() != 1 || s[0] != n,
    ensures !s.contains(n),
{
    if s.contains(n) { let j = s.index_of(n); assert(linked(v, p, s, j)); assert(s.len() == 1) by { if s.len() > 1 { if j + 1 < s.len() { assert(linked(v, p, s, j + 1)); } else { assert(linked(v, p, s, j - 1)); } } } }
}
// a list of children which does not contain x contains no neighbour of x either
pub proof fn lemma_neighbour(v: Seq<tree_node_base>, x: usize, q: usize, s: Seq<usize>)
    requires kids(v, q, s), !s.contains(x), x != 0,
    ensures forall|k: usize| 0 < k <= v.len() && (v[k - 1].next_ == x || v[k - 1].prev_ == x) ==> !s.contains(k),
{
    assert forall|k: usize| 0 < k <= v.len() && (v[k - 1].next_ == x || v[k - 1].prev_ == x) implies !s.contains(k) by {
        if s.contains(k) {
            let j = s.index_of(k);
            assert(linked(v, q, s, j));
            if v[k - 1].next_ == x { assert(s.contains(s[j + 1])); } else { assert(s.contains(s[j - 1])); }
        }
    }
}
pub proof fn lemma_add(v: Seq<tree_node_base>, w: Seq<tree_node_base>, x: usize, n: usize, after: bool)
    requires 0 < x <= v.len(), loose(v, n), n != x, n != v[x - 1].parent_,
        exists|s: Seq<usize>, i: int| child(v, x, s, i) && (v[x - 1].parent_ != 0 || after || i > 0),
        ({ let y = v[x - 1]; if after { linked_in(v, w, y.parent_, x, n, y.next_) } else { linked_in(v, w, y.parent_, y.prev_, n, x) } }),
    ensures
        forall|s: Seq<usize>, i: int| #[trigger] child(v, x, s, i) ==> kids(w, v[x - 1].parent_, s.insert(if after { i + 1 } else { i }, n)),
        others(v, w, v[x - 1].parent_, x, n),
{
    let p = v[x - 1].parent_;
    assert forall|s: Seq<usize>, i: int| #[trigger] child(v, x, s, i) implies kids(w, p, s.insert(if after { i + 1 } else { i }, n)) by {
        assert(linked(v, p, s, i));
        lemma_loose(v, n, p, s);
        lemma_insert(v, w, p, s, if after { i + 1 } else { i }, n);
    }
    assert forall|q: usize, s: Seq<usize>| #[trigger] kids(v, q, s) && !s.contains(x) && !s.contains(n) && !(q == p && p != 0) implies kids(w, q, s) by {
        let (s0, i0) = choose|s: Seq<usize>, i: int| child(v, x, s, i) && (v[x - 1].parent_ != 0 || after || i > 0);
        assert(linked(v, p, s0, i0));
        if i0 > 0 { assert(linked(v, p, s0, i0 - 1)); }
        if i0 + 1 < s0.len() { assert(linked(v, p, s0, i0 + 1)); }
        lemma_neighbour(v, x, q, s);
        if after { lemma_insert_others(v, w, p, x, n, v[x - 1].next_, q, s); } else { lemma_insert_others(v, w, p, v[x - 1].prev_, n, x, q, s); }
    }
}
pub proof fn lemma_add_child(v: Seq<tree_node_base>, w: Seq<tree_node_base>, p: usize, s: Seq<usize>, i: int, n: usize)
    requires p != 0, kids(v, p, s), loose(v, n), n != p, 0 <= i <= s.len(), linked_in(v, w, p, at(s, i - 1), n, at(s, i)),
    ensures kids(w, p, s.insert(i, n)),
        forall|q: usize, z: Seq<usize>| #[trigger] kids(v, q, z) && q != p && !z.contains(n) ==> kids(w, q, z),
{
    lemma_loose(v, n, p, s);
    lemma_insert(v, w, p, s, i, n);
    assert forall|q: usize, z: Seq<usize>| #[trigger] kids(v, q, z) && q != p && !z.contains(n) implies kids(w, q, z) by {
        assert forall|j: int| 0 <= j < s.len() implies !z.contains(#[trigger] s[j]) by {
            assert(linked(v, p, s, j));
            if z.contains(s[j]) { assert(linked(v, q, z, z.index_of(s[j]))); }
        }
        lemma_insert_others(v, w, p, at(s, i - 1), n, at(s, i), q, z);
    }
}
// two lists of the children of one node are the same
pub proof fn lemma_kids_unique(v: Seq<tree_node_base>, p: usize, s: Seq<usize>, z: Seq<usize>)
    requires p != 0, kids(v, p, s), kids(v, p, z),
    ensures s =~= z,
{
    lemma_kids_prefix(v, p, s, z, s.len() as int);
    lemma_kids_prefix(v, p, z, s, z.len() as int);
}
pub proof fn lemma_kids_prefix(v: Seq<tree_node_base>, p: usize, s: Seq<usize>, z: Seq<usize>, m: int)
    requires p != 0, kids(v, p, s), kids(v, p, z), 0 <= m <= s.len(),
    ensures m <= z.len(), forall|j: int| 0 <= j < m ==> s[j] == z[j],
    decreases m,
{
    if m > 0 {
        lemma_kids_prefix(v, p, s, z, m - 1);
        assert(linked(v, p, s, m - 1));
        if m > 1 { assert(linked(v, p, s, m - 2)); assert(linked(v, p, z, m - 2)); }
    }
}
pub open spec fn list_of(v: Seq<tree_node_base>, p: usize) -> Seq<usize> { choose|s: Seq<usize>| #[trigger] kids(v, p, s) }
// x is taken out from between its neighbours; nothing else changes
pub open spec fn out_at(v: Seq<tree_node_base>, w: Seq<tree_node_base>, x: usize, k: int) -> bool {
    let y = v[x - 1];
    &&& w[k].parent_ == (if k == x - 1 { 0 } else { v[k].parent_ })
    &&& w[k].next_ == (if k == x - 1 { 0 } else if k == y.prev_ - 1 { y.next_ } else { v[k].next_ })
    &&& w[k].prev_ == (if k == x - 1 { 0 } else if k == y.next_ - 1 { y.prev_ } else { v[k].prev_ })
    &&& w[k].children_ == (if y.prev_ == 0 && k == y.parent_ - 1 { y.next_ } else { v[k].children_ })
}
pub open spec fn taken_out(v: Seq<tree_node_base>, w: Seq<tree_node_base>, x: usize) -> bool {
    w.len() == v.len() && forall|k: int| 0 <= k < v.len() ==> #[trigger] out_at(v, w, x, k)
}
pub open spec fn taken_out_others(v: Seq<tree_node_base>, w: Seq<tree_node_base>, x: usize) -> bool {
    let p = v[x - 1].parent_;
    forall|q: usize, s: Seq<usize>| #[trigger] kids(v, q, s) && !s.contains(x) && !(q == p && p != 0) ==> kids(w, q, s)
}
pub proof fn lemma_around(v: Seq<tree_node_base>, x: usize, s: Seq<usize>, i: int)
    requires child(v, x, s, i),
    ensures v[x - 1].prev_ == at(s, i - 1), v[x - 1].next_ == at(s, i + 1), v[x - 1].prev_ != x, v[x - 1].next_ != x,
        v[x - 1].prev_ != 0 ==> i > 0 && v[x - 1].prev_ <= v.len(), v[x - 1].next_ != 0 ==> v[x - 1].next_ <= v.len(), v[x - 1].prev_ == 0 ==> i == 0, v[x - 1].next_ == 0 ==> i + 1 == s.len(),
        v[x - 1].prev_ != 0 ==> v[x - 1].prev_ != v[x - 1].next_, v[x - 1].parent_ <= v.len(),
{
    assert(linked(v, v[x - 1].parent_, s, i));
    if i > 0 { assert(linked(v, v[x - 1].parent_, s, i - 1)); }
    if i + 1 < s.len() { assert(linked(v, v[x - 1].parent_, s, i + 1)); }
}
pub proof fn lemma_remove(v: Seq<tree_node_base>, w: Seq<tree_node_base>, x: usize, s: Seq<usize>, i: int)
    requires child(v, x, s, i), taken_out(v, w, x), v[x - 1].parent_ != x,
    ensures kids(w, v[x - 1].parent_, s.remove(i)),
{
    let p = v[x - 1].parent_;
    let z = s.remove(i);
    lemma_around(v, x, s, i);
    assert forall|j: int| 0 <= j < z.len() implies #[trigger] linked(w, p, z, j) by {
        let j0 = if j < i { j } else { j + 1 };
        assert(z[j] == s[j0]);
        assert(linked(v, p, s, j0));
        assert(out_at(v, w, x, s[j0] - 1));
        assert(at(z, j + 1) == (if j + 1 < i { at(s, j + 1) } else { at(s, j + 2) }));
        assert(at(z, j - 1) == (if j - 1 < i { at(s, j - 1) } else { at(s, j) }));
    }
    assert(z.no_duplicates());
    if p != 0 { assert(out_at(v, w, x, p - 1)); assert(linked(v, p, s, i)); }
}
pub proof fn lemma_taken_out(v: Seq<tree_node_base>, w: Seq<tree_node_base>, x: usize)
    requires taken_out(v, w, x), v[x - 1].parent_ != x, exists|s: Seq<usize>, i: int| #[trigger] child(v, x, s, i),
    ensures forall|s: Seq<usize>, i: int| #[trigger] child(v, x, s, i) ==> kids(w, v[x - 1].parent_, s.remove(i)) && (v[x - 1].parent_ == 0 && i == 0 ==> v[x - 1].next_ == at(s.remove(0), 0) && v[x - 1].prev_ == 0),
        taken_out_others(v, w, x), loose(w, x),
{
    let p = v[x - 1].parent_;
    assert(out_at(v, w, x, x - 1));
    assert forall|s: Seq<usize>, i: int| #[trigger] child(v, x, s, i) implies kids(w, p, s.remove(i)) && (v[x - 1].parent_ == 0 && i == 0 ==> v[x - 1].next_ == at(s.remove(0), 0) && v[x - 1].prev_ == 0) by {
        lemma_remove(v, w, x, s, i);
        lemma_around(v, x, s, i);
    }
    assert forall|q: usize, s: Seq<usize>| #[trigger] kids(v, q, s) && !s.contains(x) && !(q == p && p != 0) implies kids(w, q, s) by {
        let (s0, i0) = choose|s: Seq<usize>, i: int| #[trigger] child(v, x, s, i);
        lemma_around(v, x, s0, i0);
        if i0 > 0 { assert(linked(v, p, s0, i0 - 1)); }
        if i0 + 1 < s0.len() { assert(linked(v, p, s0, i0 + 1)); }
        lemma_neighbour(v, x, q, s);
        assert forall|j: int| 0 <= j < s.len() implies #[trigger] linked(w, q, s, j) by {
            assert(linked(v, q, s, j));
            assert(out_at(v, w, x, s[j] - 1));
            assert(s.contains(s[j]));
        }
        if q != 0 { assert(out_at(v, w, x, q - 1)); }
    }
}
// where a builder is: path holds the open nodes (outermost first), each the last child of the one before; the cursor is the last child so far
pub open spec fn cursor(v: Seq<tree_node_base>, p: usize, c: usize, root: usize) -> bool {
    exists|s: Seq<usize>| #[trigger] last_of(v, p, s, c, root)
}
pub open spec fn last_of(v: Seq<tree_node_base>, p: usize, s: Seq<usize>, c: usize, root: usize) -> bool {
    kids(v, p, s) && c == at(s, s.len() - 1) && (p == 0 ==> root == at(s, 0))
}
pub open spec fn level(v: Seq<tree_node_base>, z: Seq<usize>, root: usize, i: int) -> bool {
    cursor(v, at(z, i - 1), z[i], root) && (i + 1 < z.len() ==> z[i] != 0)
}
pub open spec fn building(v: Seq<tree_node_base>, b: tree_builder_base, path: Seq<usize>) -> bool {
    &&& b.parent_ == at(path, path.len() - 1)
    &&& path.no_duplicates()
    &&& forall|i: int| 0 <= i <= path.len() ==> #[trigger] level(v, path.push(b.current_), b.root_, i)
}
pub proof fn lemma_start(v: Seq<tree_node_base>, b: tree_builder_base)
    requires b.root_ == 0, b.current_ == 0, b.parent_ == 0,
    ensures building(v, b, Seq::<usize>::empty()),
{
    let z = Seq::<usize>::empty().push(0usize);
    assert(kids(v, 0, Seq::<usize>::empty()));
    assert(last_of(v, 0, Seq::<usize>::empty(), 0, 0));
    assert(level(v, z, 0, 0));
}
// the list the builder is adding to
pub proof fn lemma_cursor(v: Seq<tree_node_base>, b: tree_builder_base, path: Seq<usize>, n: usize) -> (s: Seq<usize>)
    requires building(v, b, path),
    ensures last_of(v, b.parent_, s, b.current_, b.root_), b.current_ <= v.len(), b.parent_ <= v.len(), b.current_ != 0 ==> v[b.current_ - 1].next_ == 0 && v[b.current_ - 1].parent_ == b.parent_,
        b.current_ == 0 ==> s.len() == 0, b.current_ == 0 && b.parent_ == 0 ==> b.root_ == 0, b.current_ != 0 ==> s.len() > 0,
{
    let z = path.push(b.current_);
    assert(level(v, z, b.root_, path.len() as int));
    let s = choose|s: Seq<usize>| #[trigger] last_of(v, b.parent_, s, b.current_, b.root_);
    if s.len() > 0 { assert(linked(v, b.parent_, s, s.len() - 1)); assert(linked(v, b.parent_, s, 0)); }
    s
}
pub proof fn lemma_add_element(v: Seq<tree_node_base>, w: Seq<tree_node_base>, b: tree_builder_base, c: tree_builder_base, n: usize, path: Seq<usize>)
    requires building(v, b, path), loose(v, n), !path.contains(n), n != b.root_, n != b.current_,
        c == (tree_builder_base { current_: n, root_: if b.parent_ == 0 && b.current_ == 0 { n } else { b.root_ }, ..b }),
        linked_in(v, w, b.parent_, b.current_, n, 0),
    ensures
        forall|p: Seq<usize>| #[trigger] building(v, b, p) && !p.contains(n) ==> building(w, c, p),
        forall|s: Seq<usize>| #[trigger] last_of(v, b.parent_, s, b.current_, b.root_) ==> last_of(w, b.parent_, s.push(n), n, c.root_),
        others(v, w, b.parent_, b.current_, n),
{
    let p = b.parent_;
    assert forall|s: Seq<usize>| #[trigger] last_of(v, p, s, b.current_, b.root_) implies last_of(w, p, s.push(n), n, c.root_) by {
        if s.len() > 0 { assert(linked(v, p, s, s.len() - 1)); }
        lemma_loose(v, n, p, s);
        lemma_insert(v, w, p, s, s.len() as int, n);
        assert(s.insert(s.len() as int, n) =~= s.push(n));
    }
    assert(others(v, w, p, b.current_, n)) by {
        assert forall|q: usize, s: Seq<usize>| #[trigger] kids(v, q, s) && !s.contains(b.current_) && !s.contains(n) && !(q == p && p != 0) implies kids(w, q, s) by {
            lemma_insert_others(v, w, p, b.current_, n, 0, q, s);
        }
    }
    assert forall|ps: Seq<usize>| #[trigger] building(v, b, ps) && !ps.contains(n) implies building(w, c, ps) by {
        let z = ps.push(b.current_);
        let y = ps.push(n);
        assert forall|i: int| 0 <= i <= ps.len() implies #[trigger] level(w, y, c.root_, i) by {
            assert(level(v, z, b.root_, i));
            if i == ps.len() {
                let s = choose|s: Seq<usize>| #[trigger] last_of(v, p, s, b.current_, b.root_);
                assert(last_of(w, p, s.push(n), n, c.root_));
            } else {
                assert(y[i] == z[i] && at(y, i - 1) == at(z, i - 1));
                let q = at(z, i - 1);
                let s = choose|s: Seq<usize>| #[trigger] last_of(v, q, s, z[i], b.root_);
                assert(q != p) by { if i > 0 { assert(ps[i - 1] != ps[ps.len() - 1]); } else { assert(level(v, z, b.root_, ps.len() - 1)); } }
                lemma_loose_at(v, n, q, s, b.root_);
                if s.contains(b.current_) && b.current_ != 0 { let j = s.index_of(b.current_); assert(linked(v, q, s, j)); lemma_cursor(v, b, ps, n); }
                if s.contains(0) { assert(linked(v, q, s, s.index_of(0))); }
                lemma_insert_others(v, w, p, b.current_, n, 0, q, s);
                assert(last_of(w, q, s, y[i], c.root_));
            }
        }
    }
}
pub proof fn lemma_loose_at(v: Seq<tree_node_base>, n: usize, q: usize, s: Seq<usize>, root: usize)
    requires loose(v, n), kids(v, q, s), q == 0 ==> root == at(s, 0) && n != root,
    ensures !s.contains(n),
{
    lemma_loose(v, n, q, s);
}
pub proof fn lemma_down(v: Seq<tree_node_base>, b: tree_builder_base, c: tree_builder_base, path: Seq<usize>)
    requires building(v, b, path), b.current_ != 0, !path.contains(b.current_), kids(v, b.current_, Seq::<usize>::empty()), c == (tree_builder_base { parent_: b.current_, current_: 0, ..b }),
    ensures building(v, c, path.push(b.current_)),
{
    let z = path.push(b.current_);
    let y = z.push(0);
    assert forall|i: int| 0 <= i <= z.len() implies #[trigger] level(v, y, c.root_, i) by {
        if i < z.len() { assert(level(v, z, b.root_, i)); assert(at(y, i - 1) == at(z, i - 1)); }
        else { assert(last_of(v, b.current_, Seq::<usize>::empty(), 0, c.root_)); }
    }
}
pub proof fn lemma_up(v: Seq<tree_node_base>, b: tree_builder_base, c: tree_builder_base, path: Seq<usize>)
    requires building(v, b, path), b.parent_ != 0,
    ensures 0 < b.parent_ <= v.len(), (c == (tree_builder_base { current_: b.parent_, parent_: v[b.parent_ - 1].parent_, ..b })) ==> building(v, c, path.drop_last()),
{
    let z = path.push(b.current_);
    let ps = path.drop_last();
    let k = path.len() - 1;
    assert(level(v, z, b.root_, k));
    let s = choose|s: Seq<usize>| #[trigger] last_of(v, at(z, k - 1), s, z[k], b.root_);
    assert(linked(v, at(z, k - 1), s, s.len() - 1)) by { assert(s.len() > 0); }
    if c == (tree_builder_base { current_: b.parent_, parent_: v[b.parent_ - 1].parent_, ..b }) {
        let y = ps.push(b.parent_);
        assert(y =~= path);
        assert(v[b.parent_ - 1].parent_ == at(ps, ps.len() - 1));
        assert forall|i: int| 0 <= i <= ps.len() implies #[trigger] level(v, y, c.root_, i) by { assert(level(v, z, b.root_, i)); assert(at(y, i - 1) == at(z, i - 1)); }
    }
}
