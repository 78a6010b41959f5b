#include "h.hpp"
#include "post_process.hpp"
#include <cctype>
typedef std::string str;

static bool sp(char c) { return std::isspace((unsigned char)c) != 0; }
static str const PRE = "<!--quickbook-escape-prefix-->", POST = "<!--quickbook-escape-postfix-->";

// ---- what the output has to look like: characters which have to be there, and the white space between them
enum { NONE, SOME, ANY };
struct Item { bool lit; char c; int gap; };
struct Want {
    std::vector<Item> v;
    int gap;
    Want() : gap(ANY) {}
    void ws(int g) { if (g > gap) gap = g; }
    void lit(char c) { flush(); Item i = { true, c, 0 }; v.push_back(i); }
    void lits(str const& s) { for (size_t i = 0; i < s.size(); ++i) lit(s[i]); }
    void flush() { if (gap != NONE) { Item i = { false, 0, gap }; v.push_back(i); } gap = NONE; }
    // text in which white space may become other white space; quoted: not between quotes
    void text(str const& s, bool quoted)
    {
        bool q = false;
        for (size_t i = 0; i < s.size(); ++i) {
            if (s[i] == '"' && quoted) q = !q;
            if (!q && sp(s[i])) ws(SOME); else lit(s[i]);
        }
    }
    void match(str const& out)
    {
        flush();
        size_t p = 0;
        for (size_t i = 0; i < v.size(); ++i) {
            if (v[i].lit) {
                if (p >= out.size()) h::fail("the output ends too early: " + h::show(out));
                if (out[p] != v[i].c)
                    h::fail("at offset " + h::show((int)p) + " of the output: " + h::show(str(1, out[p])) + " instead of " + h::show(str(1, v[i].c)) + "; output " + h::show(out));
                ++p;
            }
            else {
                size_t q = p;
                // exact characters may themselves be white space (code, quoted values): they come after the gap
                size_t need = 0;
                for (size_t k = i + 1; k < v.size() && v[k].lit && sp(v[k].c); ++k) ++need;
                while (q < out.size() && sp(out[q])) ++q;
                if (v[i].gap == SOME && q == p) h::fail("white space lost at offset " + h::show((int)p) + " of the output " + h::show(out));
                p = q - (need < q - p ? need : 0);
            }
        }
        if (p != out.size()) h::fail("the output goes on after its end (offset " + h::show((int)p) + "): " + h::show(out));
    }
};

static str trim(str s)
{
    while (s.size() && sp(s[s.size() - 1])) s.erase(s.size() - 1);
    size_t i = 0;
    while (i < s.size() && sp(s[i])) ++i;
    return s.substr(i);
}
// the lines of code, without the spaces at their ends
static str code_text(str s)
{
    while (s.size() && sp(s[s.size() - 1])) s.erase(s.size() - 1);
    str r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '\n' || s[i] == '\r') {
            while (r.size() && r[r.size() - 1] == ' ') r.erase(r.size() - 1);
            r += '\n';
            if (i + 1 < s.size() && (s[i + 1] == '\n' || s[i + 1] == '\r') && s[i + 1] != s[i]) ++i;
        }
        else r += s[i];
    }
    return r;
}
static str ns(str const& s) { str r; for (size_t i = 0; i < s.size(); ++i) if (!sp(s[i])) r += s[i]; return r; }

// ---- documents
static char const* blocks[] = { "para", "section", "itemizedlist", "listitem", "simpara", "table", "row", "note", "entry", "blockquote", "article", "articleinfo", "xi:include", "thing" };
static char const* inlines[] = { "emphasis", "phrase", "code", "link", "ulink", "quote", "superscript", "subscript", "footnote", "anchor", "inlinemediaobject", "classname", "literal" };
static char const* hblocks[] = { "div", "p", "ul", "li", "h1", "h2", "table", "tr", "td", "blockquote", "hr", "body", "main" };
static char const* hinlines[] = { "b", "i", "em", "strong", "a", "span", "code", "tt", "sub", "sup", "img", "del", "q" };
static bool in(char const* const* t, size_t n, str const& s) { for (size_t i = 0; i < n; ++i) if (s == t[i]) return true; return false; }

struct Doc {
    bool html;
    str in, last;                // last: the last tag name read
    std::vector<str> open;
    Want w;
    bool fails, escapes, after_content;
    explicit Doc(bool h) : html(h), fails(false), escapes(false), after_content(false) {}
    bool flow(str const& t) { return html ? ::in(hinlines, sizeof hinlines / sizeof *hinlines, t) : ::in(inlines, sizeof inlines / sizeof *inlines, t); }
    str spaces(int pct) { str r; if (h::chance(pct)) { int n = 1 + (h::chance(20) ? h::below(6) : 0); for (int i = 0; i < n; ++i) r += " \n\t  \r"[h::below(6)]; } return r; }
    str word(int maxlen) { str r; int n = 1 + h::below(maxlen); for (int i = 0; i < n; ++i) r += "abcxyz.,;&'/->=\xc3\xa9"[h::below(17)]; return r; }
    void put(str const& text, bool fl, bool quoted)
    {
        in += text;
        if (!fl) w.ws(ANY);
        str t = text, tail;
        while (!fl && t.size() && sp(t[t.size() - 1])) t.erase(t.size() - 1);
        w.text(t, quoted);
        if (!fl) w.ws(ANY);
        after_content = false;
    }
    str attrs()
    {
        str r;
        for (int n = h::below(4) - 1; n > 0; --n) {
            r += " " + spaces(20) + word(4).substr(0, 1);
            r += "=\"";
            for (int k = h::below(4); k > 0; --k) r += str("ab<  '&;\n\t/-").substr(h::below(12), 1 + h::below(3));
            r += "\"";
        }
        // the scanner ends tags at '>'
        for (size_t i = 0; i < r.size(); ++i) if (r[i] == '>') r[i] = 'x';
        if (r.size() >= 1 && r[r.size() - 1] == '/') r += "x";
        return r;
    }
    void start(str const& t)
    {
        last = t; open.push_back(t);
        put("<" + t + attrs() + spaces(5) + ">" + spaces(30), flow(t), true);
    }
    void empty(str const& t)
    {
        last = t;
        put("<" + t + attrs() + spaces(5) + "/>" + spaces(30), flow(t), true);
    }
    void end(str name)
    {
        bool fl = true;
        if (open.empty()) fails = true; else { fl = flow(open.back()); open.pop_back(); }
        put("</" + name + spaces(5) + ">" + spaces(30), fl, true);
    }
    void other()
    {
        int k = h::below(3);
        if (k == 0) { str b = word(9); while (b.find("-->") != str::npos) b = word(9); put("<!--" + spaces(30) + b + " -->" + spaces(30), flow(last), true); }
        else if (k == 1) { last = "dbhtml"; put("<?dbhtml" + spaces(90) + "q=1?>" + spaces(30), false, true); }
        else { last = "DOCTYPE"; put("<!DOCTYPE x" + spaces(30) + ">" + spaces(30), false, true); }
    }
    void content()
    {
        str s;
        for (int n = 1 + h::below(h::chance(10) ? 40 : 6); n > 0; --n) s += word(9) + spaces(70);
        in += s;
        w.text(s, false);
        after_content = true;
    }
    void escape()
    {
        str s = spaces(20);
        for (int n = h::below(4); n > 0; --n) s += str("<b>;</i>;&amp;;x  y;\"; \n ;<!-- c -->;a").substr(h::below(34), 1 + h::below(6));
        if (s.find(POST) != str::npos || s.find(PRE) != str::npos) s = "e";
        s += spaces(20);
        str post = spaces(30);
        in += PRE + s + POST + post;
        w.lits(trim(s));
        if (post.size()) w.ws(SOME);
        escapes = true;
        after_content = false;
    }
    void code()
    {
        str b;
        for (int n = h::below(12); n > 0; --n) { static char const* p[] = { "a", " ", "  ", "\n", "\r\n", "\t", "<b>", "\"", "</i>", "&lt;", "<para>", "\n\n", "\r", "x y  ", "<!-- c -->" }; b += p[h::below(15)]; }
        str s = html ? "<pre" + str(h::chance(30) ? " class=\"x  y\"" : "") + ">" + b + "</pre>" : "<programlisting>" + b + "</programlisting>";
        in += s + spaces(40);
        w.ws(ANY);
        w.lits(code_text(s));
        w.ws(ANY);
        after_content = false;
    }
    void run(int pieces)
    {
        in += spaces(20);
        for (int i = 0; i < pieces; ++i) {
            int k = h::below(20);
            bool bl = h::chance(45);
            str t = html ? (bl ? hblocks[h::below(sizeof hblocks / sizeof *hblocks)] : hinlines[h::below(sizeof hinlines / sizeof *hinlines)])
                         : (bl ? blocks[h::below(sizeof blocks / sizeof *blocks)] : inlines[h::below(sizeof inlines / sizeof *inlines)]);
            if (k < 5) start(t);
            else if (k < 6) empty(t);
            else if (k < 10) { if (open.size() || h::chance(2)) end(open.size() && h::chance(97) ? open.back() : t); }
            else if (k < 11) other();
            else if (k < 17) { if (!after_content) content(); }
            else if (k < 19) escape();
            else code();
        }
        while (open.size() && h::chance(98)) end(open.back());
        w.ws(ANY);
    }
};

static bool tidy(str const& s, int indent, int width, bool html, str& out)
{
    try { out = quickbook::post_process(s, indent, width, html); return true; }
    catch (quickbook::post_process_failure&) { return false; }
}
static str opts(int indent, int width, bool html) { return " indent " + h::show(indent) + " linewidth " + h::show(width) + (html ? " html" : ""); }

static void t_doc()
{
    static int widths[] = { 80, -1, 1, 5, 10, 20, 40, 0 };
    static int indents[] = { 2, -1, 0, 1, 4, 8 };
    int width = widths[h::below(8)], indent = indents[h::below(6)];
    Doc d(h::chance(40));
    d.run(1 + h::below(h::chance(20) ? 60 : 12));
    h::begin("post_process of " + h::show(d.in) + opts(indent, width, d.html));
    str out;
    bool ok = tidy(d.in, indent, width, d.html, out);
    if (d.fails) { h::ok(!ok, "an end tag without a start tag is accepted"); return; }
    if (!ok) h::fail("a document of balanced tags is refused");
    d.w.match(out);
    if (!d.escapes && h::chance(30)) {
        // damaged: either refused, or nothing but white space changes
        str s = d.in;
        if (s.empty()) return;
        size_t i = h::below(s.size());
        int k = h::below(3);
        if (k == 0) s.erase(i, 1 + h::below(5)); else if (k == 1) s.insert(i, 1, "<>/\"!? -x\n"[h::below(10)]); else s[i] = "<>/\"!? -x\n"[h::below(10)];
        h::begin("post_process of " + h::show(s) + opts(indent, width, d.html));
        if (tidy(s, indent, width, d.html, out)) h::eq(ns(out), ns(s), "the characters which are not white space");
    }
}

int main(int argc, char** argv)
{
    h::init(argc, argv);
    // every line length around the width, at every kind of boundary
    static char const* ends[] = { "<code>c</code>", " <code>c</code>", "<!--quickbook-escape-prefix-->e<!--quickbook-escape-postfix--><code>c</code>", "d e", " <phrase role=\"a  b c\">d</phrase> e" };
    for (int n = 60; n < 84; ++n) for (int k = 0; k < 5; ++k) for (int b = 0; b < 2; ++b) for (int t = 0; t < 2; ++t) {
        str x = str(n - 2, 'x') + (t ? " y" : "yy");
        str body = x + (b ? " " : "") + ends[k];
        str s = "<para>" + body + "</para>", out;
        h::begin("post_process of " + h::show(s) + opts(2, 80, false));
        if (!tidy(s, 2, 80, false, out)) h::fail("a document of balanced tags is refused");
        str body2 = body;
        for (int m = 0; m < 2; ++m) { str const& q = m ? POST : PRE; size_t p = body2.find(q); if (p != str::npos) body2.erase(p, q.size()); }
        Want w;
        w.text("<para>", true); w.ws(ANY); w.text(body2, true); w.ws(ANY); w.text("</para>", true); w.ws(ANY);
        w.match(out);
    }
    while (h::time_left()) t_doc();
    h::report();
    return 0;
}
