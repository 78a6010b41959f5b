// ---- a page
pub uninterp spec fn s_path_join(a: PathArg, b: PathArg) -> PathArg;
#[verifier::external_body]
pub fn path_join(a: PathArg, b: PathArg) -> (r: PathArg) ensures r == s_path_join(a, b) { unimplemented!() }
pub uninterp spec fn s_text_path(t: Seq<i8>) -> PathArg;
#[verifier::external_body]
pub fn text_path(t: &[i8]) -> (r: PathArg) ensures r == s_text_path(t@) { unimplemented!() }
pub open spec fn with_count(s: html_state, n: u32) -> html_state { html_state { error_count: n, ..s } }
pub open spec fn page_text(o: html_options, t: Seq<i8>) -> Seq<i8> { if o.pretty_print { s_pretty(t, -1, -1) } else { t } }
// a page has been written completely
pub open spec fn page_written(w: World, o: html_options, name: Seq<i8>, t: Seq<i8>) -> bool {
    w.stored.len() > 0 && w.stored.last() == (s_path_join(s_path_parent(o.home_path), s_text_path(name)), page_text(o, t))
}
