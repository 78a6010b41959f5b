// Lists written with indentation: where every word of a random document has to end up
#include "whole.hpp"
#include <map>
typedef std::string str;

static str num(int i) { return std::to_string(i); }
// the column after s, with a tab stop every four columns
static int column(str const& s)
{
    int c = 0;
    for (size_t i = 0; i < s.size(); ++i) { ++c; if (s[i] == '\t') while (c % 4) ++c; }
    return c;
}
static str blanks(int n)        // blanks up to column n
{
    str r;
    while (column(r) < n)
        r += h::chance(15) && column(r + "\t") <= n ? '\t' : ' ';
    return r;
}

struct Item { int mark_col, text_col; char mark; int list, item; };
struct Doc {
    int version;
    str text;
    int words, lists, errors;
    std::vector<std::pair<str, str> > want;      // word, where it is

    str word(str const& where)
    {
        str w = "w" + num(++words) + "w";
        want.push_back(std::make_pair(w, where));
        return w;
    }
};
// The blocks at one level of nesting
struct Blocks {
    Doc& d;
    str outer;
    bool nested;
    std::vector<Item> open;
    int last_col;
    bool blank, code, item_text;

    Blocks(Doc& d_, str const& o, bool n) : d(d_), outer(o), nested(n), last_col(0), blank(true), code(false), item_text(false) {}
    str where()
    {
        str r = outer;
        for (size_t i = 0; i < open.size(); ++i)
            r += str("/") + (open[i].mark == '#' ? "orderedlist" : "itemizedlist") + num(open[i].list) + "/listitem" + num(open[i].item);
        return r;
    }
    // a paragraph, which is a simple one if it is part of an item
    str para()
    {
        str w = where();
        size_t i = w.rfind('/');
        return w + (i != str::npos && w.compare(i, 9, "/listitem") == 0 ? "/simpara" : "/para");
    }
    int text_col(size_t n) { return n ? open[n - 1].text_col : 0; }
    void close_right_of(int n) { while (open.size() && open.back().mark_col > n) open.pop_back(); }
    bool is_code(int n, bool item)
    {
        if (code && n > text_col(open.size())) return true;
        if (item) return !nested && open.empty() && n > 0;
        if (d.version < 106) return !nested && n > 0;
        return n > text_col(open.size()) && !(nested && open.empty());
    }
    void add_blank()
    {
        do d.text += h::chance(90) ? "\n" : "  \n"; while (h::chance(20));
        blank = true;
    }
    // an item; the text follows
    void item(int n, int text, char mark)
    {
        if (open.empty() || n > last_col) {
            Item i = { n, text, mark, ++d.lists, 1 };
            open.push_back(i);
        }
        else {
            if (n < last_col) close_right_of(n);
            if (open.empty()) {
                Item i = { n, text, mark, ++d.lists, 1 };
                open.push_back(i);
            }
            else {
                ++open.back().item;
                if (open.back().mark != mark) ++d.errors;
            }
        }
        last_col = n;
    }
    void paragraph(int n)
    {
        if (d.version < 106) { open.clear(); return; }
        if (n <= text_col(open.size())) {
            size_t before = open.size();
            close_right_of(n);
            if (open.size() && open.back().mark_col == n && n <= text_col(open.size() - 1)) open.pop_back();
            if (open.size() && open.size() < before) last_col = open.back().mark_col;
        }
        if (d.version == 106 && open.size()) ++d.errors;
    }
    void text()
    {
        int extra = h::chance(20) ? 1 + h::below(2) : 0;
        d.text += d.word(para());
        while (extra--) d.text += "\n" + str(h::below(8), ' ') + d.word(para());
        d.text += "\n";
        blank = item_text = false;
    }
    int some_column()
    {
        if (h::chance(75) && open.size()) {
            Item& i = open[h::below(open.size())];
            return h::chance(50) ? i.mark_col : i.text_col + (h::chance(10) ? 1 : 0);
        }
        return open.empty() && !nested ? (h::chance(20) ? h::below(5) : 0) : (int)h::below(h::chance(10) ? 14 : 8);
    }
    void add_item()
    {
        int n = some_column();
        str in = blanks(n);
        char mark = h::chance(60) ? '*' : '#';
        if (is_code(n, true)) {
            if (!blank) add_blank();
            // a list mark in code is text
            d.text += in + mark + " " + d.word((code && d.version < 106 ? outer : where()) + "/programlisting") + "\n";
            code = true, blank = item_text = false;
            return;
        }
        if (!blank && (!item_text || h::chance(40))) add_blank();

        code = false;
        // mostly the mark the list has
        if (h::chance(97)) {
            std::vector<Item> save = open;
            int l = last_col, nl = d.lists, ne = d.errors;
            item(n, n + 1, mark);
            if (d.errors != ne) mark = open.back().mark;
            open = save, last_col = l, d.lists = nl, d.errors = ne;
        }
        str gap = h::chance(10) ? str() : h::chance(10) ? str("\t") : str(1 + h::below(3), ' ');
        item(n, column(in + mark + gap), mark);
        d.text += in + mark + gap;
        if (d.version >= 107 && h::chance(5) && d.text.size() < 1500) { d.text += d.word(para()) + " "; block(""); }
        else { text(); item_text = true; }
    }
    void add_paragraph()
    {
        if (!blank || h::chance(10)) add_blank();
        int n = some_column();
        str in = blanks(n);
        if (is_code(n, false)) {
            if (d.version < 106) open.clear();
            if (d.version == 106 && open.size() && !code) ++d.errors;
            d.text += in + d.word(where() + "/programlisting") + "\n";
            code = true, blank = item_text = false;
            return;
        }
        code = false;
        paragraph(n);
        d.text += in;
        if (d.version >= 107 && h::chance(30) && d.text.size() < 1500) block(""); else text();
    }
    // a block element with blocks in it
    void block(str const&)
    {
        bool list = h::chance(40);
        str w = where();
        if (list) {
            bool o = h::chance(50);
            w += str("/") + (o ? "orderedlist" : "itemizedlist") + num(++d.lists);
            d.text += o ? "[ordered_list\n" : "[itemized_list\n";
        }
        else { w += "/note"; d.text += "[note\n"; }
        int n = list ? 1 + h::below(2) : 1;
        for (int i = 1; i <= n; ++i) {
            if (list) d.text += "[";
            Blocks b(d, list ? w + "/listitem" + num(i) : w, true);
            b.go(1 + h::below(5));
            d.text += list ? "]\n" : "";
        }
        d.text += "]\n";
        blank = item_text = false;
    }
    void go(int steps)
    {
        while (steps--) {
            if (h::chance(d.version == 106 && open.size() ? 97 : 60)) add_item(); else add_paragraph();
        }
    }
};

// where the words of the output are
static std::vector<std::pair<str, str> > found(str const& x)
{
    std::vector<std::pair<str, str> > r;
    struct E { str tag, label; int items; };
    std::vector<E> open;
    int lists = 0;
    std::map<str, int> dummy;
    for (size_t p = 0; p < x.size();) {
        if (x[p] == '<') {
            size_t q = x.find('>', p);
            if (q == str::npos) h::fail("an incomplete tag in the output");
            str t = x.substr(p + 1, q - p - 1);
            p = q + 1;
            if (t[0] == '?' || t[0] == '!' || t[t.size() - 1] == '/') continue;
            if (t[0] == '/') {
                if (open.empty() || open.back().tag != t.substr(1)) h::fail("the end tag <" + t + "> does not match the start tag <" + (open.empty() ? str() : open.back().tag) + "> in " + h::show(x));
                open.pop_back();
                continue;
            }
            E e;
            e.tag = t.substr(0, t.find_first_of(" \n\t"));
            e.items = 0;
            if (e.tag == "itemizedlist" || e.tag == "orderedlist") e.label = e.tag + num(++lists);
            else if (e.tag == "listitem") {
                if (open.empty() || (open.back().tag != "itemizedlist" && open.back().tag != "orderedlist")) h::fail("an item outside of a list in " + h::show(x));
                e.label = e.tag + num(++open.back().items);
            }
            else if (e.tag == "note" || e.tag == "programlisting" || e.tag == "para" || e.tag == "simpara") e.label = e.tag;
            open.push_back(e);
        }
        else if (x[p] == 'w' && p + 1 < x.size() && isdigit((unsigned char)x[p + 1])) {
            size_t q = x.find('w', p + 1);
            str w;
            for (size_t i = 0; i < open.size(); ++i)
                if (open[i].label.size() && (i + 1 == open.size() || (open[i].tag != "para" && open[i].tag != "simpara"))) w += "/" + open[i].label;
            r.push_back(std::make_pair(x.substr(p, q + 1 - p), w));
            p = q + 1;
        }
        else ++p;
    }
    if (open.size()) h::fail("<" + open.back().tag + "> is not closed in " + h::show(x));
    return r;
}

static void one()
{
    Doc d;
    static int const versions[] = { 104, 105, 106, 106, 107, 107, 107, 107, 107 };
    d.version = versions[h::below(9)];
    d.words = d.lists = d.errors = 0;
    d.text = "[article T\n[quickbook 1." + num(d.version % 10) + "]\n]\n\n";
    Blocks b(d, "", false);
    b.go(1 + h::below(h::chance(20) ? 20 : 8));
    h::begin(h::show(d.text));
    whole::Result r = whole::run(d.text);
    if (d.errors) {
        if (!r.rc) h::fail("no error was reported for the document");
        return;
    }
    if (r.rc) h::fail("error messages: " + r.messages);
    std::vector<std::pair<str, str> > f = found(r.out);
    for (size_t i = 0; i < f.size() && i < d.want.size(); ++i) {
        if (f[i].first != d.want[i].first) h::fail("the word " + f[i].first + " where " + d.want[i].first + " should be in the output " + h::show(r.out.substr(r.out.find("<title>"))));
        if (f[i].second != d.want[i].second) h::fail(f[i].first + " is in " + f[i].second + ", expected in " + d.want[i].second + "; output " + h::show(r.out.substr(r.out.find("<title>"))));
    }
    h::eq(f.size(), d.want.size(), "number of words");
}

static void search() { while (h::time_left()) one(); }
int main(int argc, char** argv) { h::init(argc, argv); search(); h::report(); return 0; }
