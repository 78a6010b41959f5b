#include "h.hpp"
#include "tree.hpp"
#include "xml_parse.hpp"
#include "utils.hpp"
#include <memory>
using namespace quickbook::detail;
typedef std::string str;

static long live = 0;
struct N : tree_node<N> {
    int label;
    explicit N(int l) : label(l) { ++live; }
    ~N() { --live; }
private: N(N const&); N& operator=(N const&);
};
// the expected tree
struct M { int label; std::vector<M> kids; };
typedef std::vector<M> Ms;

static str dump(Ms const& ms)
{
    str r;
    for (size_t i = 0; i < ms.size(); ++i) {
        r += (i ? " " : "") + h::show(ms[i].label);
        if (ms[i].kids.size()) r += "(" + dump(ms[i].kids) + ")";
    }
    return r;
}
static long budget;
static str walk(N* first, N* parent)
{
    str r;
    N* before = 0;
    for (N* n = first; n; n = n->next()) {
        if (--budget < 0) h::fail("the nodes do not form a tree");
        if (n->parent() != parent) h::fail("node " + h::show(n->label) + " has the wrong parent");
        if (n->prev() != before) h::fail("node " + h::show(n->label) + " has the wrong previous node");
        r += (before ? " " : "") + h::show(n->label);
        if (n->children()) r += "(" + walk(n->children(), n) + ")";
        before = n;
    }
    return r;
}
static void check(tree<N>& t, Ms const& m)
{
    budget = 100000;
    h::eq(walk(t.root(), 0), dump(m), "the tree");
}
// the i-th node in document order
static N* nth(N* first, int& i)
{
    for (N* n = first; n; n = n->next()) {
        if (i-- == 0) return n;
        if (N* c = nth(n->children(), i)) return c;
    }
    return 0;
}
static Ms* mth(Ms& ms, int& i, size_t& at)
{
    for (size_t k = 0; k < ms.size(); ++k) {
        if (i-- == 0) { at = k; return &ms; }
        if (Ms* r = mth(ms[k].kids, i, at)) return r;
    }
    return 0;
}
static int count(Ms const& ms)
{
    int r = 0;
    for (size_t i = 0; i < ms.size(); ++i) r += 1 + count(ms[i].kids);
    return r;
}
static int label;
// drive a builder with a random history, checking where it is at every step
static void build(tree_builder<N>& b, Ms& top, int steps, bool one, str& log)
{
    std::vector<Ms*> open(1, &top);
    std::vector<N*> nodes;
    N* cur = 0;
    std::vector<N*> curs;
    for (int s = 0; s < steps; ++s) {
        int op = h::below(4);
        if (op == 0 && cur && open.back()->back().kids.empty()) {
            log += "start_children ";
            h::begin(log);
            b.start_children();
            open.push_back(&open.back()->back().kids);
            nodes.push_back(cur);
            cur = 0;
        } else if (op == 1 && open.size() > 1) {
            log += "end_children ";
            h::begin(log);
            b.end_children();
            cur = nodes.back();
            nodes.pop_back();
            open.pop_back();
        } else {
            if (one && open.size() == 1 && !top.empty()) continue;
            N* n = new N(label);
            M m = { label++, Ms() };
            log += "add " + h::show(m.label) + " ";
            h::begin(log);
            b.add_element(n);
            open.back()->push_back(m);
            cur = n;
        }
        h::ok(b.current() == cur, "the current node of the builder");
        h::ok(b.parent() == (nodes.empty() ? 0 : nodes.back()), "the parent of the builder");
        budget = 100000;
        h::eq(walk(b.root(), 0), dump(top), "the tree being built");
    }
}
static void t_tree(int steps)
{
    str log;
    label = 1;
    {
        std::vector<std::unique_ptr<tree<N> > > ts;
        std::vector<Ms> ms;
        for (int s = 0; s < steps; ++s) {
            int op = h::below(8);
            if (op <= 1 || ts.size() < 2) {
                tree_builder<N> b;
                Ms m;
                log += "[";
                build(b, m, 1 + h::below(8), h::chance(70), log);
                log += "] ";
                if (h::chance(30)) {
                    tree_builder<N> c(std::move(b));
                    h::ok(!b.root() && !b.parent() && !b.current(), "a builder that was moved from is empty");
                    ts.push_back(std::unique_ptr<tree<N> >(new tree<N>(c.release())));
                    h::ok(!c.root() && !c.parent() && !c.current(), "a builder that released its tree is empty");
                } else if (h::chance(30)) {
                    ts.push_back(std::unique_ptr<tree<N> >(new tree<N>()));
                    *ts.back() = b.release();
                } else {
                    ts.push_back(std::unique_ptr<tree<N> >(new tree<N>(b.release())));
                    h::ok(!b.root() && !b.parent() && !b.current(), "a builder that released its tree is empty");
                }
                ms.push_back(m);
                check(*ts.back(), m);
                continue;
            }
            int a = h::below(ts.size());
            int n = count(ms[a]);
            if (!n) continue;
            int i = h::below(n);
            int j = i; N* x = nth(ts[a]->root(), j);
            size_t at = 0; j = i; Ms* l = mth(ms[a], j, at);
            if (op <= 3) {
                log += "extract " + h::show(x->label) + " ";
                h::begin(log);
                M m = (*l)[at];
                ts.push_back(std::unique_ptr<tree<N> >(new tree<N>(ts[a]->extract(x))));
                l->erase(l->begin() + at);
                ms.push_back(Ms(1, m));
                check(*ts[a], ms[a]);
                check(*ts.back(), ms.back());
                continue;
            }
            // a tree to put in: one with a single top node
            int c = h::below(ts.size());
            if (c == a || ms[c].size() != 1) continue;
            M m = ms[c][0];
            str what = h::show(m.label) + " at " + h::show(x->label) + " ";
            if (op == 4) {
                if (l == &ms[a] && at == 0) continue;
                log += "add_before " + what; h::begin(log);
                x->add_before(std::move(*ts[c]));
                l->insert(l->begin() + at, m);
            } else if (op == 5) {
                log += "add_after " + what; h::begin(log);
                x->add_after(std::move(*ts[c]));
                l->insert(l->begin() + at + 1, m);
            } else if (op == 6) {
                log += "add_first_child " + what; h::begin(log);
                x->add_first_child(std::move(*ts[c]));
                (*l)[at].kids.insert((*l)[at].kids.begin(), m);
            } else {
                log += "add_last_child " + what; h::begin(log);
                x->add_last_child(std::move(*ts[c]));
                (*l)[at].kids.push_back(m);
            }
            h::ok(!ts[c]->root(), "a tree that was put into another is empty");
            check(*ts[a], ms[a]);
            ts.erase(ts.begin() + c);
            ms.erase(ms.begin() + c);
        }
        int total = 0;
        for (size_t i = 0; i < ms.size(); ++i) total += count(ms[i]);
        h::ok(live == total, "nodes were lost");
    }
    h::ok(live == 0, "every node is deleted with its tree");
}

// ---------------------------------------------------------------- C17: reading XML
static str const WS = " \t\n\r", NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ:-";
struct X { bool elem; str name, text; std::vector<std::pair<str, str> > attrs; std::vector<X> kids; };
typedef std::vector<X> Xs;
// an attribute value with its references replaced
static str decoded(str const& s)
{
    static char const* names[] = { "&amp;", "&", "&apos;", "'", "&gt;", ">", "&lt;", "<", "&quot;", "\"" };
    str r;
    for (size_t i = 0; i < s.size();) {
        size_t k = 0;
        for (; k < 10; k += 2) if (!s.compare(i, std::strlen(names[k]), names[k])) break;
        if (k < 10) { r += names[k + 1]; i += std::strlen(names[k]); continue; }
        if (!s.compare(i, 2, "&#") && i + 2 < s.size() && s[i + 2] >= '0' && s[i + 2] <= '9') {
            size_t e = i + 2; int v = 0;
            while (e < s.size() && s[e] >= '0' && s[e] <= '9') v = v * 10 + (s[e++] - '0');
            if (e < s.size() && s[e] == ';') ++e;
            r += (char)v;       // the harness uses ASCII references only
            i = e;
            continue;
        }
        r += s[i++];
    }
    return r;
}
struct Reader {
    str s; size_t i; bool bad;
    explicit Reader(str const& t) : s(t), i(0), bad(false) {}
    bool in(str const& set) { return i < s.size() && set.find(s[i]) != str::npos; }
    void ws() { while (in(WS)) ++i; }
    str name() { ws(); str r; while (in(NAME)) r += s[i++]; if (r.empty()) bad = true; return r; }
    bool is(char c) { return i < s.size() && s[i] == c; }
    str quoted() { char q = s[i++]; str r; while (i < s.size() && s[i] != q) r += s[i++]; if (i == s.size()) bad = true; else ++i; return r; }
    void set(X& x, str const& n, str const& v)
    {
        for (size_t k = 0; k < x.attrs.size(); ++k) if (x.attrs[k].first == n) { x.attrs[k].second = v; return; }
        x.attrs.push_back(std::make_pair(n, v));
    }
    void skip(bool pi)
    {
        ++i;
        if (!pi && !s.compare(i, 2, "--")) { i = s.find("-->", i + 2); if (i == str::npos) bad = true; else i += 3; return; }
        while (!bad) {
            if (i == s.size()) { bad = true; return; }
            if (s[i] == '"' || s[i] == '\'') quoted();
            else if (pi && !s.compare(i, 2, "?>")) { i += 2; return; }
            else if (!pi && s[i] == '>') { ++i; return; }
            else if (s[i] == '<' || s[i] == '>') { bad = true; return; }
            else ++i;
        }
    }
    // the children of the element called owner (0 at the top)
    void children(Xs& out, str const* owner)
    {
        while (!bad) {
            X t; t.elem = false;
            while (i < s.size() && s[i] != '<') t.text += s[i++];
            if (t.text.size()) out.push_back(t);
            if (i == s.size()) return;
            if (++i == s.size()) { bad = true; return; }
            if (s[i] == '?' || s[i] == '!') { skip(s[i] == '?'); continue; }
            if (s[i] == '/') {
                ++i;
                str n = name();
                ws();
                if (bad || !is('>') || !owner || *owner != n) { bad = true; return; }
                ++i;
                return;
            }
            X x; x.elem = true;
            x.name = name();
            bool self = false;
            while (!bad) {
                ws();
                if (i == s.size()) { bad = true; break; }
                if (is('>')) { ++i; break; }
                if (is('/')) { ++i; ws(); if (!is('>')) bad = true; else ++i; self = true; break; }
                str n = name(), v;
                if (bad) break;
                ws();
                if (i == s.size()) { bad = true; break; }
                if (is('=')) { ++i; ws(); if (!is('"') && !is('\'')) { bad = true; break; } v = quoted(); }
                if (!bad) set(x, n, decoded(v));
            }
            if (!bad && !self) children(x.kids, &x.name);
            out.push_back(x);
        }
    }
};
static str show(Xs const& xs, std::set<str> const& names)
{
    str r;
    for (size_t i = 0; i < xs.size(); ++i) {
        if (!xs[i].elem) { r += "{" + xs[i].text + "}"; continue; }
        r += "(" + xs[i].name;
        for (std::set<str>::const_iterator n = names.begin(); n != names.end(); ++n)
            for (size_t k = 0; k < xs[i].attrs.size(); ++k)
                if (xs[i].attrs[k].first == *n) r += " " + *n + "=[" + xs[i].attrs[k].second + "]";
        r += " " + show(xs[i].kids, names) + ")";
    }
    return r;
}
static str show(xml_element* x, xml_element* parent, std::set<str> const& names)
{
    str r;
    xml_element* before = 0;
    for (; x; before = x, x = x->next()) {
        h::ok(x->parent() == parent && x->prev() == before, "the links of the tree");
        if (x->type_ == xml_element::element_text) {
            r += "{" + x->contents_ + "}";
            h::ok(x->name_.empty() && !x->children(), "a text has no name and no children");
            continue;
        }
        h::ok(x->type_ == xml_element::element_node && x->contents_.empty(), "an element");
        r += "(" + x->name_;
        for (std::set<str>::const_iterator n = names.begin(); n != names.end(); ++n)
            if (x->has_attribute(*n)) r += " " + *n + "=[" + x->get_attribute(*n).to_s() + "]";
            else h::ok(x->get_attribute(*n).empty(), "an absent attribute");
        r += " " + show(x->children(), x, names) + ")";
    }
    return r;
}
static void one_xml(str const& s)
{
    h::begin("xml " + h::show(s), s.size() < 3);
    Reader r(s);
    Xs want;
    r.children(want, 0);
    // every name an attribute could have here
    std::set<str> names;
    for (size_t i = 0; i < s.size(); ++i)
        if (NAME.find(s[i]) != str::npos && (i == 0 || NAME.find(s[i - 1]) == str::npos)) {
            size_t e = i;
            while (e < s.size() && NAME.find(s[e]) != str::npos) ++e;
            names.insert(s.substr(i, e - i));
        }
    char* buf = new char[s.size() ? s.size() : 1];       // exact, so that reading past the end is seen
    std::memcpy(buf, s.data(), s.size());
    bool threw = false;
    xml_tree t;
    try { t = xml_parse(quickbook::string_view(buf, s.size())); }
    catch (xml_parse_error& e) {
        threw = true;
        h::ok(e.pos >= buf && e.pos <= buf + s.size(), "an error is inside the text");
    }
    delete[] buf;
    h::ok(threw == r.bad, threw ? "a well formed text was rejected" : "a malformed text was accepted");
    if (!threw) h::eq(show(t.root(), 0, names), show(want, names), "the tree");
}
static str rnd_xml(int depth)
{
    static char const* text[] = { "x", "hello ", "&amp;", "\"", "'", ">", "=", "/", "-", "\n", "]]" };
    static char const* nm[] = { "a", "b", "aa", "b:c", "para", "a-b", "A" };
    static char const* val[] = { "", "v", "a b", "&lt;x&gt;", "&amp;quot;", "&quot;", "&apos;", "&#65;", "&#65", "<", ">", "/>", "&", "it", "=", "&amp", "--" };
    str r;
    int n = h::below(depth > 2 ? 2 : 4);
    for (int k = 0; k < n; ++k) {
        int op = h::below(10);
        if (op < 3) r += text[h::below(11)];
        else if (op == 3) r += str("<!--") + (h::chance(50) ? " <a b='>\" -- " : "") + "-->";
        else if (op == 4) r += str("<?xml ") + (h::chance(50) ? "v='?>' " : "") + (h::chance(20) ? "?" : "") + "?>";
        else if (op == 5) r += str("<!DOCTYPE ") + (h::chance(50) ? "a \">\" 'x<'" : "") + ">";
        else {
            str name = nm[h::below(7)];
            r += "<" + str(h::chance(10) ? " " : "") + name;
            for (int a = h::below(4); a > 0; --a) {
                r += str(1 + h::below(2), " \n\t"[h::below(3)]) + nm[h::below(7)] + (h::chance(10) ? " " : "");
                if (h::chance(85)) {
                    str v = val[h::below(17)];
                    if (h::chance(30)) v += val[h::below(17)];
                    char q = "\"'"[h::below(2)];
                    r += "=" + str(h::chance(10) ? " " : "") + q + v + (h::chance(20) ? str(1, "\"'"[q == '"']) : str()) + q;
                }
            }
            if (h::chance(20)) r += " ";
            if (h::chance(30)) r += str("/") + (h::chance(10) ? " " : "") + ">";
            else r += ">" + rnd_xml(depth + 1) + (h::chance(97) ? "</" + name + (h::chance(10) ? " " : "") + ">" : str());
        }
    }
    return r;
}
static void t_xml()
{
    str s = rnd_xml(0);
    if (h::chance(40) && s.size()) {
        int k = h::below(4);
        size_t i = h::below(s.size());
        if (k == 0) s = s.substr(0, i);
        else if (k == 1) s.erase(i, 1);
        else if (k == 2) s.insert(i, 1, "<>/=\"'!?- a"[h::below(11)]);
        else s[i] = "<>/=\"'!?- a"[h::below(11)];
    }
    one_xml(s);
}

int main(int argc, char** argv)
{
    h::init(argc, argv);
    if (h::is("C17")) {
        static char const* sets[] = { "<>/a", "<>a=\"", "<!->a", "<?>'a", "<a b='" };
        static int lens[] = { 7, 6, 6, 6, 6 };
        for (int k = 0; k < 5; ++k) h::all(sets[k], lens[k], [](str const& s) { one_xml(s); if (s.size() < 5) { one_xml("<a " + s); one_xml("<a b" + s); one_xml("<!" + s); one_xml("<?" + s); one_xml("<a>" + s); } });
    }
    while (h::time_left()) {
        if (h::is("C16")) t_tree(3 + h::below(h::chance(20) ? 60 : 14));
        if (h::is("C17")) t_xml();
    }
    h::report();
    return 0;
}
