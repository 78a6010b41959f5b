// real code: src/id_generation.cpp, src/id_xml.cpp, src/document_state.cpp
#include "h.hpp"
#include <algorithm>
#include <map>
#include "document_state_impl.hpp"
#include "utils.hpp"
using namespace quickbook;
typedef std::string str;
typedef quickbook::string_view sv;

// ------------------------------------------------------------------ normalize_id
static str o_norm(str const& s, size_t size)
{
    str r;
    bool word = false;
    for (size_t i = 0; i < s.size();) {
        if (s[i] == '_') { ++i; continue; }
        if (word) r += '_';
        while (i < s.size() && s[i] != '_') r += s[i++];
        word = true;
    }
    if (!word) return "_";
    return r.substr(0, size);
}
static void t_norm(str const& s, size_t size)
{
    h::begin("normalize_id " + h::show(s) + " " + h::show((unsigned long)size), s.empty());
    h::Buf b(s);
    str r = normalize_id(sv(b.p, b.n), size);
    h::eq(r, o_norm(s, size), "normalize_id");
    h::eq(normalize_id(sv(b.p, b.n)), o_norm(s, 32), "normalize_id (default size)");
}

// ------------------------------------------------------------------ where the ids are
typedef std::vector<std::pair<size_t, size_t> > spans;
static bool sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static bool nm(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == ':'; }
static size_t past(str const& s, char const* t, size_t i)
{
    size_t j = s.find(t, i);
    return j == str::npos ? s.size() : j + std::strlen(t);
}
static spans o_ids(str const& s)
{
    spans r;
    size_t i = 0, n = s.size();
    for (;;) {
        i = s.find('<', i);
        if (i == str::npos || i + 1 >= n) break;
        ++i;
        str esc = "!--quickbook-escape-prefix-->";
        if (s.compare(i, esc.size(), esc) == 0) { i = past(s, "<!--quickbook-escape-postfix-->", i + esc.size()); continue; }
        if (s[i] == '?') { i = past(s, "?>", i + 1); continue; }
        if (s.compare(i, 3, "!--") == 0) { i = past(s, "-->", i + 3); continue; }
        if (!nm(s[i])) { i = past(s, ">", i); continue; }
        while (i < n && !sp(s[i]) && s[i] != '>') ++i;
        for (;;) {
            while (i < n && sp(s[i])) ++i;
            size_t a = i;
            while (i < n && !sp(s[i]) && s[i] != '>' && s[i] != '=') ++i;
            if (i == n || s[i] == '>') break;
            str name = s.substr(a, i - a);
            ++i;
            while (i < n && (sp(s[i]) || s[i] == '=')) ++i;
            if (i == n || (s[i] != '"' && s[i] != '\'')) break;
            char q = s[i++];
            size_t v = i;
            i = s.find(q, i);
            if (i == str::npos) { i = n; break; }
            if (name == "id" || name == "linkend" || name == "linkends" || name == "arearefs") r.push_back(std::make_pair(v, i));
            ++i;
        }
    }
    return r;
}
struct Rec : xml_processor::callback
{
    str got;
    char const* base; size_t n; int starts, ends;
    Rec() : base(0), n(0), starts(0), ends(0) {}
    void start(sv x) { base = x.begin(); n = x.size(); ++starts; got += "[" + h::show((unsigned long)n); }
    void id_value(sv v) { got += " " + h::show((unsigned long)(v.begin() - base)) + "-" + h::show((unsigned long)(v.end() - base)); }
    void finish(sv x) { got += x.begin() == base && x.size() == n ? "]" : "?"; ++ends; }
};
static void t_scan(str const& s)
{
    h::begin("id attributes of " + h::show(s), s.empty());
    h::Buf b(s);
    Rec r;
    xml_processor p;
    p.parse(sv(b.p, b.n), r);
    spans w = o_ids(s);
    str want = "[" + h::show((unsigned long)s.size());
    for (size_t i = 0; i < w.size(); ++i) want += " " + h::show((unsigned long)w[i].first) + "-" + h::show((unsigned long)w[i].second);
    h::eq(r.got, want + "]", "the id values found");
}

// ------------------------------------------------------------------ a document
struct Ph { str id; int cat; int parent; };
typedef std::vector<Ph> phs;
static str show(phs const& v)
{
    str r;
    for (size_t i = 0; i < v.size(); ++i) r += " " + h::show(v[i].id) + "/" + h::show(v[i].cat) + "/" + h::show(v[i].parent);
    return r;
}
static void fill(document_state_impl& st, phs const& v)
{
    for (size_t i = 0; i < v.size(); ++i) {
        id_placeholder const* p = st.add_placeholder(v[i].id, id_category(v[i].cat), v[i].parent < 0 ? 0 : &st.placeholders[v[i].parent]);
        h::eq(p->to_string(), "$" + h::show((unsigned long)i), "the name of a placeholder");
        h::eq(p->parent == 0, v[i].parent < 0, "the parent of a placeholder");
    }
}
static str o_unresolved(phs const& v, int k) { return v[k].parent < 0 ? v[k].id : o_unresolved(v, v[k].parent) + "." + v[k].id; }
static str o_replace(str const& s, phs const& v, std::vector<str> const* ids)
{
    str r;
    size_t pos = 0;
    spans w = o_ids(s);
    for (size_t i = 0; i < w.size(); ++i) {
        str t = s.substr(w[i].first, w[i].second - w[i].first);
        if (t.size() < 2 || t[0] != '$') continue;
        int k = std::atoi(t.c_str() + 1);
        r += s.substr(pos, w[i].first - pos) + (ids ? (*ids)[k] : o_unresolved(v, k));
        pos = w[i].second;
    }
    return r + s.substr(pos);
}
static void t_replace(str const& s, phs const& v)
{
    h::begin("replace ids in " + h::show(s) + " with" + show(v), s.empty());
    document_state_impl st;
    fill(st, v);
    h::Buf b(s);
    h::eq(replace_ids(st, sv(b.p, b.n)), o_replace(s, v, 0), "replace_ids (unresolved)");
    std::vector<str> ids;
    for (size_t i = 0; i < v.size(); ++i) ids.push_back("new" + h::show((unsigned long)(i * 7)) + (i % 3 ? "" : ".x"));
    h::eq(replace_ids(st, sv(b.p, b.n), &ids), o_replace(s, v, &ids), "replace_ids");
}
static int dots(str const& s) { return (int)std::count(s.begin(), s.end(), '.'); }
static str prefix(str const& s) { return s.substr(0, s.rfind('.') + 1); }
static void t_generate(str const& s, phs const& v)
{
    h::begin("generate ids for " + h::show(s) + " with" + show(v), s.empty());
    document_state_impl st;
    fill(st, v);
    h::Buf b(s);
    std::vector<str> g = generate_ids(st, sv(b.p, b.n));
    h::eq((unsigned long)g.size(), (unsigned long)v.size(), "the number of ids");
    // document order
    std::vector<int> order;
    std::vector<bool> in(v.size());
    spans w = o_ids(s);
    for (size_t i = 0; i < w.size(); ++i) {
        str t = s.substr(w[i].first, w[i].second - w[i].first);
        if (t.size() < 2 || t[0] != '$') continue;
        std::vector<int> chain;
        for (int k = std::atoi(t.c_str() + 1); k >= 0 && !in[k]; k = v[k].parent) { chain.push_back(k); in[k] = true; }
        order.insert(order.end(), chain.rbegin(), chain.rend());
    }
    std::set<str> used;
    for (size_t i = 0; i < order.size(); ++i) {
        int k = order[i];
        str what = "placeholder $" + h::show(k) + " (id " + h::show(g[k]) + ")";
        if (!used.insert(g[k]).second) h::fail(what + ": another placeholder has the same id");
        int d = 0;
        for (int j = k; j >= 0; j = v[j].parent) d += dots(v[j].id) + (v[j].parent >= 0);
        h::eq(dots(g[k]), d, (what + ": the number of dots").c_str());
        str want = v[k].parent < 0 ? v[k].id : g[v[k].parent] + "." + v[k].id;
        // does a competitor win the id?
        bool wins = v[k].cat > 1;
        bool sameplace = false;
        for (size_t j = 0; j < order.size(); ++j) {
            int o = order[j];
            if (o == k) continue;
            str ow = v[o].parent < 0 ? v[o].id : g[v[o].parent] + "." + v[o].id;
            if (v[o].cat > 1 && ow == want && (v[o].cat > v[k].cat || (v[o].cat == v[k].cat && j < i))) wins = false;
            if (v[o].cat > 1 && ow == want) sameplace = true;
        }
        if (wins) h::eq(g[k], want, (what + ": nobody else has a better claim to the id it would like").c_str());
        else {
            if (v[k].cat > 1 && sameplace && g[k] == want) h::fail(what + ": it has taken an id which belongs to another");
            h::eq(prefix(g[k]), prefix(want), (what + ": the parent part of a made up id").c_str());
            str last = g[k].substr(prefix(g[k]).size());
            if (last.empty() || last.size() > 32) h::fail(what + ": the made up part is empty or longer than 32 characters");
            // it is the wanted part (normalised, perhaps cut or with a '_') and a number
            size_t n = last.size();
            while (n > 0 && last[n - 1] >= '0' && last[n - 1] <= '9') --n;
            if (n == last.size()) h::fail(what + ": no number at the end");
            str base = o_norm(want.substr(prefix(want).size()), 31), stem = last.substr(0, n);
            if (!stem.empty() && stem[stem.size() - 1] == '_' && stem.size() == base.size() + 1) stem.erase(stem.size() - 1);
            if (base.compare(0, stem.size(), stem) != 0) h::fail(what + ": it does not start like the id that was wanted");
        }
    }
    // the result does not depend on placeholders which are not mentioned, or on running it twice
    std::vector<str> g2 = generate_ids(st, sv(b.p, b.n));
    for (size_t i = 0; i < g.size(); ++i) h::eq(g2[i], g[i], "generating twice");
}
static phs r_phs(unsigned maxn, bool many)
{
    static std::vector<str> names = {"a", "b", "a", "a_", "_a", "a.b", "b", "a0", "a1", "a9", "", "a__b", ".", "h", "sec", "sec_1", "intro",
        "abcdefghijklmnopqrstuvwxyz0123456789", "abcdefghijklmnopqrstuvwxyzabcdef", "abcdefghijklmnopqrstuvwxyzabcde", "abcdefghijklmnopqrstuvwxyzabcd",
        "abcdefghijklmnopqrstuvwxyz01234", "0123456789012345678901234567890", "01234567890123456789012345678901", "x.abcdefghijklmnopqrstuvwxyz01234"};
    static std::vector<str> rare = {"$", "$0", "a\"b", "\xff", "__", "_"};
    phs v;
    unsigned n = 1 + h::below(maxn);
    std::vector<str> pool;
    unsigned pn = 1 + h::below(many ? 3 : 6);
    for (unsigned i = 0; i < pn; ++i) pool.push_back(h::chance(5) ? rare[h::below(rare.size())] : names[h::below(names.size())]);
    for (unsigned i = 0; i < n; ++i) {
        Ph p;
        p.id = pool[h::below(pool.size())];
        p.cat = many ? (h::chance(85) ? 2 : 1 + (int)h::below(8)) : (int)h::below(9);
        p.parent = i && h::chance(60) ? (int)h::below(many ? std::min(i, 3u) : i) : -1;
        v.push_back(p);
    }
    return v;
}
static str r_xml(unsigned nph, unsigned maxn, bool clean)
{
    static std::vector<str> ps = {"<a id=\"$0\">", "<b linkend='$1'/>", "text", "<!-- <a id=\"$0\"> -->", "<!--", "-->", "<?pi id=\"$1\"?>", "<a\n id =\n \"$2\" x='id=\"$1\"'>",
        "<!--quickbook-escape-prefix-->", "<!--quickbook-escape-postfix-->", "<a id=\"mine\"/>", "<a id=\"$\"/>", "<a linkends=\"$0\" arearefs='$1'>", "<a ids=\"$0\" id2='$0' xml:id=\"$1\">",
        "<a id=\"\"/>", "<", ">", "\"", "'", " ", "=", "id", "id=", "$1", "<!x>", "<_:a id='$1'>", "</a id=\"$1\">", "<a id=\"$0\" id='$1'", "<a id==\"$2\">", "<a id = = '$0'>", "\n", "<A\tid\r=\"$1\">", "<1 id=\"$0\">", "$0", "id=\"$0\""};
    str r;
    unsigned n = h::below(maxn + 1);
    for (unsigned i = 0; i < n; ++i) {
        str p;
        if (clean || h::chance(50)) p = (h::chance(70) ? "<a id=\"$" : "<a linkend='$");
        if (!p.empty()) { bool q = p[3] == 'i'; p += h::show(h::below(nph)); p += q ? "\"" : "'"; p += h::chance(80) ? ">" : "/> "; }
        else {
            p = ps[h::below(ps.size())];
            for (size_t j = 0; j + 1 < p.size(); ++j)
                if (p[j] == '$' && p[j + 1] >= '0' && p[j + 1] <= '9') p = p.substr(0, j + 1) + h::show(h::below(nph)) + p.substr(j + 2);
        }
        r += p;
    }
    return r;
}
// a text whose placeholders all exist
static bool known(str const& s, size_t n)
{
    spans w = o_ids(s);
    for (size_t i = 0; i < w.size(); ++i) {
        str t = s.substr(w[i].first, w[i].second - w[i].first);
        if (t.size() < 2 || t[0] != '$') continue;
        if (t.size() > 5) return false;
        for (size_t j = 1; j < t.size(); ++j) if (t[j] < '0' || t[j] > '9') return false;
        if ((size_t)std::atoi(t.c_str() + 1) >= n) return false;
    }
    return true;
}
static void t_bad(str const& s, size_t n)
{
    h::begin("unknown placeholders in " + h::show(s) + " of " + h::show((unsigned long)n));
    document_state_impl st;
    for (size_t i = 0; i < n; ++i) st.add_placeholder("x", id_category(2));
    bool threw = false, threw2 = false;
    h::Buf b(s);
    try { replace_ids(st, sv(b.p, b.n)); } catch (std::exception&) { threw = true; }
    try { generate_ids(st, sv(b.p, b.n)); } catch (std::exception&) { threw2 = true; }
    h::ok(threw && threw2, "an unknown placeholder is reported");
}

// ------------------------------------------------------------------ linkify
static size_t o_tag_end(str const& s, size_t i)
{
    // to the '>' outside of quotes
    for (;;) {
        while (i < s.size() && s[i] != '>' && s[i] != '"' && s[i] != '\'') ++i;
        if (i >= s.size() || s[i] == '>') return i;
        size_t j = s.find(s[i], i + 1);
        if (j == str::npos) return s.size();
        i = j + 1;
    }
}
static bool o_has_link(str const& s)
{
    size_t i = 0, n = s.size();
    for (;;) {
        i = s.find('<', i);
        if (i == str::npos || i + 1 >= n) return false;
        ++i;
        if (s[i] == '?') { i = past(s, "?>", i + 1); continue; }
        if (s.compare(i, 3, "!--") == 0) { i = past(s, "-->", i + 3); continue; }
        if (!nm(s[i])) { i = past(s, ">", i); continue; }
        size_t a = i;
        while (i < n && !sp(s[i]) && s[i] != '>') ++i;
        if (s.substr(a, i - a) == "link") return true;
        i = o_tag_end(s, i);
    }
}
static void t_link(str const& s, str const& id)
{
    h::begin("linkify " + h::show(s) + " " + h::show(id), s.empty());
    h::Buf b(s), bi(id);
    str w = o_has_link(s) ? s : "<link linkend=\"" + id + "\">" + s + "</link>";
    h::eq(detail::linkify(sv(b.p, b.n), sv(bi.p, bi.n)), w, "linkify");
}

int main(int argc, char** argv)
{
    h::init(argc, argv);
    bool deep = h::S().thorough;
    static std::vector<str> mk = {"<link>", "<link linkend=\"x\">", "</link>", "<a b='<link>'>", "<!--", "-->", "<link", "<?", "?>", "<!", ">", "\"", "'", " ", "\n", "<linkx>", "<em>", "</em>", "x", "<", "<link\n", "<!-- <link> -->", "<?link?>", "link", "<_", "<:a ", "<a b=\"c\">", "<1 link>", "\t", "=", "->", "--", "-", "?", "!--", "<!--", "<?"};
    if (h::is("C11")) {
        h::all("_a", deep ? 12 : 9, [](str const& s) { for (size_t z = 0; z <= s.size() + 1; ++z) t_norm(s, z); });
        h::all("_a.", deep ? 8 : 6, [](str const& s) { t_norm(s, 3); });
        while (h::time_left()) t_norm(h::rpieces({"_", "a", "__", "abc_", "section", "0", ".", "\xff", "____________________", "abcdefghijklmnopqrstuvwxyz"}, 12), h::below(40));
    } else if (h::is("C12")) {
        h::all("<a=\"> ", deep ? 7 : 5, [](str const& s) { t_scan(s); });
        h::all("<!->i", deep ? 7 : 5, [](str const& s) { t_scan("<!--" + s + "<a id=\"$0\">"); t_scan(s + " id='1'>"); });
        h::all("id= '\">", deep ? 6 : 4, [](str const& s) { t_scan("<a " + s); t_scan("<a id='" + s); });
        while (h::time_left()) {
            phs v = r_phs(6, false);
            str x = r_xml(v.size(), 12, h::chance(20));
            t_scan(x);
            if (known(x, v.size())) t_replace(x, v);
            if (h::chance(2)) { t_bad("<a id=\"$" + h::show((unsigned long)(v.size() + h::below(3))) + "\">", v.size()); t_bad("<a id=\"$x\">", v.size()); }
        }
    } else if (h::is("C13")) {
        while (h::time_left()) {
            bool many = h::chance(6);
            phs v = r_phs(many ? (h::chance(4) ? 300 : 50) : 9, many);
            str x;
            if (many || h::chance(30)) {
                // every placeholder, shuffled
                std::vector<int> p;
                for (size_t i = 0; i < v.size(); ++i) p.push_back(i);
                for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[h::below(i)]);
                for (size_t i = 0; i < p.size(); ++i) x += "<a id=\"$" + h::show(p[i]) + "\"/>";
            } else x = r_xml(v.size(), 14, h::chance(70));
            if (known(x, v.size())) t_generate(x, v);
        }
    } else if (h::is("C14")) {
        h::all("<a>\"' ", deep ? 7 : 5, [](str const& s) { t_link(s, "i.d"); t_link(s + "<link>", "x"); });
        h::all("<!->?", deep ? 7 : 5, [](str const& s) { t_link(s + "<link>", "x"); });
        h::all("-> '?!", deep ? 6 : 4, [](str const& s) {
            static char const* const op[] = {"<!--", "<?", "<!", "<a ", "</a "};
            static char const* const cl[] = {"", "-->", "?>", ">", "-->y"};
            for (int i = 0; i < 5; ++i)
                for (int j = 0; j < 5; ++j) t_link(str(op[i]) + s + "<link>x" + cl[j], "x");
        });
        while (h::time_left()) t_link(h::rpieces(mk, 10), h::rstr("a.\"_$<", 4));
    }
    h::report();
    return 0;
}
