// real code: src/utils.cpp
#include "h.hpp"
#include "utils.hpp"
#include "html_printer.hpp"
#include <sstream>
namespace qd = quickbook::detail;
typedef std::string str;
typedef quickbook::string_view sv;

static str o_esc(str const& s)
{
    str r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '<') r += "&lt;";
        else if (s[i] == '>') r += "&gt;";
        else if (s[i] == '&') r += "&amp;";
        else if (s[i] == '"') r += "&quot;";
        else r += s[i];
    }
    return r;
}
static unsigned count_ = 0;
static void t_xml(str const& s)
{
    h::begin("escape " + h::show(s), s.empty());
    h::Buf b(s);
    str e = qd::encode_string(sv(b.p, b.n));
    h::eq(e, o_esc(s), "encode_string");
    std::ostringstream o;
    o << "x" << std::hex;
    qd::print_string(sv(b.p, b.n), o);
    h::eq(o.str(), "x" + o_esc(s), "print_string");
    std::ostringstream o2;
    for (size_t i = 0; i < s.size(); ++i) qd::print_char(s[i], o2);
    h::eq(o2.str(), o_esc(s), "print_char");
    static char const* names[] = {"a", "href", "class", "src", "id", "style", "alt", "title", "width"};
    static char const* befores[] = {"", "<a", "<p>t</p><img", "<a href=\"", "<td class=\"q\"", "<a href=\"\" title=\"&quot;\""};
    for (int k = 0; k < 9; ++k) {
        qd::html_printer p;
        str n = names[k], w = befores[(count_ + k) % 6];
        p.html = w;
        qd::tag_attribute(p, n, sv(b.p, b.n));
        w += " " + n + "=\"" + o_esc(s) + "\"";
        h::eq(p.html, w, "tag_attribute");
        // a whole element
        qd::html_printer q;
        qd::tag_start(q, n);
        qd::tag_attribute(q, n, sv(b.p, b.n));
        qd::tag_attribute(q, "z", "<");
        if (k % 2) { qd::tag_end(q); qd::close_tag(q, n); }
        else qd::tag_end_self_close(q);
        h::eq(q.html, "<" + n + " " + n + "=\"" + o_esc(s) + "\" z=\"&lt;\"" + (k % 2 ? "></" + n + ">" : str("/>")), "element");
    }
    ++count_;
    h::Buf be(e);
    h::eq(qd::decode_string(sv(be.p, be.n)), s, "decode_string(encode_string(s))");
}
static bool al(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool xd(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static str o_uri(str const& s, str const& mark)
{
    str r;
    char const* d = "0123456789abcdef";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        bool plain = c != 0 && c < 128 && (al(c) || mark.find(s[i]) != str::npos);
        if (c == '%' && !(i + 2 < s.size() && xd(s[i + 1]) && xd(s[i + 2]))) plain = false;
        if (plain) r += s[i];
        else { r += '%'; r += d[c / 16]; r += d[c % 16]; }
    }
    return r;
}
static void t_uri(str const& s)
{
    h::begin("escape_uri " + h::show(s), s.empty());
    h::Buf b(s);
    h::eq(qd::escape_uri(sv(b.p, b.n)), o_uri(s, "-_.!~*'()?\\/"), "escape_uri");
    h::eq(qd::partially_escape_uri(sv(b.p, b.n)), o_uri(s, "-_.!~*'()?\\/:&=#%+"), "partially_escape_uri");
}
static void t_ident(str const& s)
{
    h::begin("make_identifier " + h::show(s), s.empty());
    h::Buf b(s);
    str w;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        w += !al(c) ? '_' : (c >= 'A' && c <= 'Z') ? char(c + 32) : char(c);
    }
    h::eq(qd::make_identifier(sv(b.p, b.n)), w, "make_identifier");
}
static str o_utf8(unsigned c)
{
    str r;
    if (c < 0x80) { r += (char)c; }
    else if (c < 0x800) { r += (char)(0xc0 + c / 64); r += (char)(0x80 + c % 64); }
    else if (c < 0x10000) { r += (char)(0xe0 + c / 4096); r += (char)(0x80 + c / 64 % 64); r += (char)(0x80 + c % 64); }
    else if (c < 0x110000) { r += (char)(0xf0 + c / 262144); r += (char)(0x80 + c / 4096 % 64); r += (char)(0x80 + c / 64 % 64); r += (char)(0x80 + c % 64); }
    else r = "\xef\xbf\xbd";
    return r;
}
static void t_ref(unsigned c)
{
    char b[64];
    static char const* fmt[] = { "a&#%u;b", "a&#x%x;b", "a&#x%X;b" };
    for (int k = 0; k < 3; ++k) {
        std::sprintf(b, fmt[k], c);
        h::begin(str("decode ") + b);
        h::Buf bb(b);
        h::eq(qd::decode_string(sv(bb.p, bb.n)), "a" + o_utf8(c) + "b", "decode_string");
    }
}
int main(int argc, char** argv)
{
    h::init(argc, argv);
    if (h::is("C04")) {
        h::all("a<>&\";'", 5, t_xml);
        std::vector<str> ps = {"<", ">", "&", "\"", "'", "&lt;", "&amp;", "&quot;", "#", "x41", ";", "65", "apos;", "]]>", "<!--", "a", "\n", str(1, '\0'), "\x80", "\xff", "\xc3\xa9", "gt;", "<b"};
        while (h::time_left()) {
            if (h::chance(70)) t_xml(h::rpieces(ps, 14));
            else { str s; unsigned n = h::below(30); for (unsigned i = 0; i < n; ++i) s += (char)h::below(256); t_xml(s); }
        }
    }
    else if (h::is("C05")) {
        for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) { str s; s += (char)a; s += (char)b; t_uri(s); t_uri("%" + s); }
        h::all("%aF0g/", 5, t_uri);
        std::vector<str> ps = {"%", "%4", "%41", "%zz", "%aF", "%FF", "http://", "/", "?", "&", "=", "#", "+", " ", "a", "Z", "0", "\x80", "\xff", str(1, '\0'), "\\", "\"", "<", "[", "]", "~", "@", ":", "%%", "%0", "g", "{"};
        while (h::time_left()) t_uri(h::rpieces(ps, 12));
    }
    else if (h::is("C06")) {
        for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) { str s; s += (char)a; s += (char)b; t_ident(s); }
        while (h::time_left()) { str s; unsigned n = h::below(60); for (unsigned i = 0; i < n; ++i) s += (char)(h::chance(60) ? "aZ09_ -.zA"[h::below(10)] : h::below(256)); t_ident(s); }
    }
    else if (h::is("C07")) {
        for (unsigned c = 0; c < 0x11100; ++c) t_ref(c);
        unsigned e[] = {0x10ffff, 0x110000, 0x10fffe, 0x1fffff, 0x200000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x3ffff, 0x40000, 0xfffff, 0x100000};
        for (unsigned c : e) t_ref(c);
        while (h::time_left()) t_ref(h::chance(80) ? h::below(0x111000) : (unsigned)h::rnd());
    }
    h::report();
    return 0;
}
