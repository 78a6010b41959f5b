pub spec const US: i8 = 95;
// first position >= i that does not hold an underscore
pub open spec fn skip_us(s: Seq<i8>, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() { i } else if s[i] == US { skip_us(s, i + 1) } else { i } }
// s[i..] with runs of underscores as one, no underscore at the end, at most room characters
pub open spec fn squeeze(s: Seq<i8>, i: int, room: int) -> Seq<i8>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() || room <= 0 { seq![] }
    else if s[i] == US {
        let j = skip_us(s, i + 1);
        if j <= i || j >= s.len() { seq![] } else { seq![US] + squeeze(s, j, room - 1) }
    }
    else { seq![s[i]] + squeeze(s, i + 1, room - 1) }
}
pub open spec fn norm_id(s: Seq<i8>, size: int) -> Seq<i8> {
    let b = skip_us(s, 0);
    if b == s.len() { seq![US] } else { squeeze(s, b, size) }
}
pub proof fn lemma_skip_us(s: Seq<i8>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= skip_us(s, i) <= s.len(), skip_us(s, i) < s.len() ==> s[skip_us(s, i)] != US,
        forall|k: int| i <= k < skip_us(s, i) ==> s[k] == US,
        forall|m: int| i <= m <= skip_us(s, i) ==> skip_us(s, m) == skip_us(s, i),
    decreases s.len() - i
{
    if i < s.len() && s[i] == US { lemma_skip_us(s, i + 1); }
}
// what a user relies on: bounded length, no empty id, never two underscores in a row, none at the start
pub proof fn lemma_squeeze(s: Seq<i8>, i: int, room: int)
    requires 0 <= i <= s.len(), 0 <= room,
    ensures squeeze(s, i, room).len() <= room,
        forall|k: int| 0 <= k < squeeze(s, i, room).len() - 1 && #[trigger] squeeze(s, i, room)[k] == US ==> squeeze(s, i, room)[k + 1] != US,
        i < s.len() && s[i] != US && room > 0 ==> squeeze(s, i, room).len() > 0 && squeeze(s, i, room)[0] == s[i],
    decreases s.len() - i
{
    if i < s.len() && room > 0 {
        let j = if s[i] == US { skip_us(s, i + 1) } else { i + 1 };
        if s[i] == US { lemma_skip_us(s, i + 1); }
        if j < s.len() || s[i] != US {
            lemma_squeeze(s, j, room - 1);
            let r = squeeze(s, j, room - 1);
            assert(squeeze(s, i, room) == seq![s[i]] + r);
            assert forall|k: int| 0 <= k < squeeze(s, i, room).len() - 1 && #[trigger] squeeze(s, i, room)[k] == US implies squeeze(s, i, room)[k + 1] != US by {
                if k > 0 { assert(squeeze(s, i, room)[k] == r[k - 1]); assert(squeeze(s, i, room)[k + 1] == r[k]); }
                else { assert(squeeze(s, i, room)[1] == r[0]); }
            }
        }
    }
}
pub proof fn lemma_norm_id(s: Seq<i8>, size: int)
    requires size >= 1,
    ensures 1 <= norm_id(s, size).len() <= size,
        forall|k: int| 0 <= k < norm_id(s, size).len() - 1 && #[trigger] norm_id(s, size)[k] == US ==> norm_id(s, size)[k + 1] != US,
        norm_id(s, size).len() > 1 ==> norm_id(s, size)[0] != US,
{
    lemma_skip_us(s, 0);
    if skip_us(s, 0) < s.len() { lemma_squeeze(s, skip_us(s, 0), size); }
}
