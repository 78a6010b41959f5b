// real code: the whole program; what is shown of code in a document
#include "whole.hpp"
#include <map>
typedef std::string str;
typedef std::vector<str> strs;
static str num(int n) { return std::to_string(n); }

enum Mode { cpp, python, teletype };
static char const* mode_names[] = { "c++", "python", "teletype" };

struct Code {
    str text, shown;            // as written in the document, and the text that should be seen
    strs notes;                 // the texts of the callouts
    int words;
    bool comment;               // the rest of the line is a comment
};
template <int N> static char const* pick(char const* (&a)[N]) { return a[h::below(N)]; }

static bool contains(str const& t, char const* w) { return t.find(w) != str::npos; }
// any characters
static str soup(int n, bool lines)
{
    static char const* bits[] = { "a", "b", "if", "x1", "_", "0", "12", "0x", "1.", "e9", "\"", "'", "\\", "\\\"", "//", "/*", "*/", "#", "#if", "<", ">", "&", ";", " ", " ", "\n", "\n", "[", "]", "{", "}", "(", ")",
        "+", "-", "*", "/", "=", "|", "@", "$", "~", "?", ",", ".", ":", "!", "%", "^", "\xc3\xa9", "\xe2\x82\xac", "\x80", "\xff", "\t", "u'", "\"\"\"", "'''", "class", "def", "L\"", "&amp;", "<b>", "]]>", "--", "..", "[*b]", "[/", "*b*", "__", "\\n" };
    str r;
    while (n-- > 0) { str b = pick(bits); if (lines || b != "\n") r += b; }
    return r;
}
static void put(Code& c, str const& t) { c.text += t; c.shown += t; }
static void token(Code& c, Mode m, bool block, bool escapes, bool callouts)
{
    static char const* names[] = { "foo", "x", "_y", "ifx", "classy", "Lx", "a1_2", "u", "r", "None1" };
    static char const* kw[] = { "if", "class", "for", "int", "and", "def", "None", "xor_eq", "while", "as", "char16_t" };
    static char const* nums[] = { "0", "12", "0x1F", "1.5", "1e3", "077", "2u", "0L", "3.5f", "1.", "08", "0x" };
    static char const* ops[] = { "+", "<", "->", "&&", "::", "[", "]", "<<=", ">", ";", "{ }", "(", ")", "~", "?", "\\", "-", ".", "..." };
    static char const* strings[] = { "\"a\"", "\"<&>\"", "\"a\\\"b\"", "L\"x\"", "\"\"", "\"//\"", "\"/* \"", "\"\\\\\"", "\"#\"" };
    static char const* chars[] = { "'a'", "'\\''", "'<'", "L'b'", "'\"'" };
    static char const* pstrings[] = { "'a'", "\"b\"", "u'x'", "ur\"y\"", "'''a\"b'c'''", "\"\"\"x'\"y\"\"\"", "'\\''", "'#'", "U'<'" };
    static char const* odd[] = { "@", "$", "\xc3\xa9", "\x80", "#", "\x7f" };
    switch (h::below(15)) {
    case 0: case 1: put(c, pick(names)); break;
    case 2: put(c, pick(kw)); break;
    case 3: put(c, pick(nums)); break;
    case 4: put(c, pick(ops)); break;
    case 5: put(c, m == python ? pick(pstrings) : pick(strings)); break;
    case 6: put(c, m == python ? pick(pstrings) : pick(chars)); break;
    case 7:
        if (c.comment) break;
        if (m == cpp) {
            put(c, "/* c<" + num(++c.words) + "> ");
            if (escapes && h::chance(40)) { str w = "e" + num(++c.words); c.text += "``[*" + w + "]``"; c.shown += w; }
            if (block && h::chance(30)) put(c, "\n ");
            put(c, "x */");
        }
        break;
    case 8:
        if (block && m != teletype && !c.comment) {
            put(c, m == cpp ? "// d \"" : "# d '");
            c.comment = true;
        }
        break;
    case 9: { str o = pick(odd); if (o != "#" || m == cpp) put(c, o); } break;
    case 10: if (block && m == cpp && !c.comment) { put(c, "\n#define X 1\n"); c.comment = false; } break;
    case 11: case 12:
        if (escapes) {
            str w = "e" + num(++c.words);
            static char const* open[] = { "[*", "['", "[^", "" };
            str o = pick(open);
            c.text += "``" + o + w + (o.size() ? "]" : "") + "``";
            c.shown += w;
        }
        break;
    case 13: if (!c.comment || m == teletype) { c.text += "__m__"; c.shown += "<M>"; } break;
    case 14:
        if (callouts && !c.comment && m != teletype) {
            str w = "n" + num(++c.words);
            bool line = h::chance(50);
            if (m == cpp) { c.text += line ? "/*<< " + w + " >>*/" + (h::chance(50) ? " \n " : " ") : "/*< " + w + " >*/"; }
            else if (line) c.text += "#<< " + w + "\n";
            else { c.text += "#< " + w + "\n"; c.shown += "\n"; }
            c.shown += "<C>";
            if (m == python && !line) { c.shown.erase(c.shown.size() - 4); c.shown += "<C>\n"; }
            c.notes.push_back(w);
            put(c, "z");
        }
        break;
    }
}
static Code code(Mode m, bool block, bool escapes, bool callouts)
{
    Code c;
    c.words = 0;
    c.comment = false;
    put(c, "w");
    if (h::chance(40)) {
        for (;;) {
            str s = soup(1 + h::below(h::chance(20) ? 40 : 12), block);
            if (contains("w" + s, "/*<") || contains(s, "#<") || contains(s, "`") || contains(s, "__m__")) continue;
            if (!s.empty() && s[0] == '_') s = " " + s;
            put(c, s);
            break;
        }
        return c;
    }
    for (int n = 1 + h::below(12); n > 0; --n) {
        put(c, " ");
        token(c, m, block, escapes, callouts);
        if (block && h::chance(25)) { put(c, h::chance(20) ? "\n\n" : "\n"); if (h::chance(40)) put(c, str(1 + h::below(5), ' ')); c.comment = false; put(c, "y"); }
    }
    return c;
}
// the lines of a code block: no white space at the ends of lines, no line of white space only
static str lines(str const& t)
{
    str r;
    bool start = true;
    for (size_t i = 0; i < t.size(); ++i) {
        if (t[i] == '\t' && start) { r += ' '; continue; }
        if (t[i] == '\n') { while (r.size() && (r[r.size() - 1] == ' ' || r[r.size() - 1] == '\t')) r.erase(r.size() - 1); start = true; }
        else if (t[i] != ' ') start = false;
        r += t[i];
    }
    while (r.size() && strchr(" \t\n", r[r.size() - 1])) r.erase(r.size() - 1);
    return r;
}
static str indent(str const& t, str const& by)
{
    str r;
    for (size_t i = 0; i < t.size(); ++i) { if ((i == 0 || t[i - 1] == '\n') && t[i] != '\n') r += by; r += t[i]; }
    return r;
}
// the text in some markup
static str shown(str const& x, str const& all)
{
    str r;
    strs open;
    for (size_t i = 0; i < x.size(); ++i) {
        if (x[i] == '<') {
            size_t e = x.find('>', i);
            if (e == str::npos) h::fail("a tag is not finished in " + h::show(all));
            str t = x.substr(i + 1, e - i - 1);
            i = e;
            if (!t.compare(0, 3, "co ")) r += "<C>";
            else if (t[0] == '/') {
                if (open.empty() || open.back() != t.substr(1)) h::fail("</" + t.substr(1) + "> does not match in " + h::show(all));
                open.pop_back();
            }
            else if (t == "emphasis" && !x.compare(i + 1, 12, "M</emphasis>")) { r += "<M>"; i += 12; }
            else open.push_back(t.substr(0, t.find(' ')));
        }
        else if (x[i] == '&') {
            size_t e = x.find(';', i);
            str t = x.substr(i, e == str::npos ? e : e - i + 1);
            if (t == "&lt;") r += '<'; else if (t == "&gt;") r += '>'; else if (t == "&amp;") r += '&'; else if (t == "&quot;") r += '"';
            else h::fail("an unescaped & in " + h::show(all));
            i = e;
        }
        else r += x[i];
    }
    if (open.size()) h::fail("<" + open.back() + "> is not closed in " + h::show(all));
    return r;
}
static str flat(str const& t)      // line callouts swallow the white space after them
{
    str r;
    for (size_t i = 0; i < t.size(); ++i) { r += t[i]; if (r.size() >= 3 && !r.compare(r.size() - 3, 3, "<C>")) while (i + 1 < t.size() && strchr(" \n", t[i + 1])) ++i; }
    if (r.size() && r[r.size() - 1] == '\n') r.erase(r.size() - 1);     // the end of the last line
    return r;
}

static void one()
{
    int version = 104 + h::below(4);
    Mode m = (Mode)h::below(3);
    int form = h::below(3);         // indented, inline, between marks
    bool marked = form == 2;
    Code c = code(m, form != 1, form != 1, version >= 107 && form != 1);
    if (marked && contains(c.text, "```")) return;
    str text = form == 1 ? c.text : lines(c.text), want = form == 1 ? c.shown : lines(c.shown);
    if (contains(text, "__") && contains(c.shown, "__m")) return;
    str doc = "[article T\n[quickbook 1." + num(version % 10) + "]\n]\n\n[def __m__ ['M]]\n\n[" + mode_names[m] + "]\n\n";
    if (form == 0) doc += "before\n\n" + indent(text, str(1 + h::below(6), ' ')) + "\n\nafter\n";
    else if (form == 1) doc += "before `" + text + "` after\n";
    else {
        str by;
        doc += "before\n\n" + by + "```\n" + indent(text, by) + "\n" + by + "```\n\nafter\n";
    }
    h::begin(h::show(doc));
    whole::Result r = whole::run(doc);
    if (r.rc) h::fail("error messages: " + h::show(r.messages));
    str open = form == 1 ? "<code>" : "<programlisting>", close = form == 1 ? "</code>" : "</programlisting>";
    size_t a = r.out.find(open), b = r.out.find(close);
    if (a == str::npos || b == str::npos || r.out.find(open, a + 1) != str::npos) h::fail("no code, or more than one piece, in the output " + h::show(r.out.substr(r.out.find("<title>"))));
    str x = r.out.substr(a + open.size(), b - a - open.size()), s = shown(x, x);
    h::eq(h::show(flat(s)), h::show(flat(want)), ("the text of " + h::show(x)).c_str());
    size_t p = r.out.find("before"), q = r.out.find("after");
    h::ok(p < a && q != str::npos && q > b, "the paragraphs around the code");
    str rest;
    for (size_t i = b; i < r.out.size(); ++i) if (r.out[i] != '\n') rest += r.out[i];
    size_t at = 0;
    size_t cos = 0;
    for (size_t i = x.find("<co "); i != str::npos; i = x.find("<co ", i + 1)) {
        if (cos >= c.notes.size()) h::fail("more callouts than in the code");
        str id = x.substr(x.find("id=\"", i) + 4), link = x.substr(x.find("linkends=\"", i) + 10);
        id = id.substr(0, id.find('"')), link = link.substr(0, link.find('"'));
        size_t k = rest.find("<callout arearefs=\"" + id + "\" id=\"" + link + "\"><para>" + c.notes[cos], at);
        if (k == str::npos) h::fail("the callout " + c.notes[cos] + " is not in its place in " + h::show(rest));
        at = k + 1;
        ++cos;
    }
    h::eq(cos, c.notes.size(), "callouts");
}
static void search() { while (h::time_left()) one(); }
int main(int argc, char** argv) { h::init(argc, argv); search(); h::report(); return 0; }
