// real code: src/files.cpp
#include "h.hpp"
#include "files.hpp"
#include <fstream>
#include <memory>
#include <cstdio>
namespace qb = quickbook;
typedef std::string str;
typedef quickbook::string_view sv;

// ---------------------------------------------------------------- loading
static bool starts(str const& s, str const& w) { return s.compare(0, w.size(), w) == 0; }
static void t_load(str const& s)
{
    h::begin("load of a file containing " + h::show(s), s.empty());
    static int n = 0;
    str name = "f" + std::to_string(n++) + ".qbk";
    { std::ofstream o(name, std::ios::binary); o.write(s.data(), s.size()); }
    bool bad = starts(s, "\xff\xfe") || starts(s, "\xfe\xff") || starts(s, str("\0\0\xfe\xff", 4));
    str want;
    for (size_t i = starts(s, "\xef\xbb\xbf") ? 3 : 0; i < s.size(); ++i) {
        if (s[i] == '\r') { want += '\n'; if (i + 1 < s.size() && s[i + 1] == '\n') ++i; }
        else want += s[i];
    }
    try {
        qb::file_ptr f = qb::load(name, 106);
        std::remove(name.c_str());
        h::ok(!bad, "a file with an unsupported byte order mark was accepted");
        h::eq(f->source().to_s(), want, "text of the loaded file");
        if (h::chance(20)) h::ok(qb::load(name, 106) == f, "loading the file again gives the same file");
    } catch (qb::load_error& e) {
        std::remove(name.c_str());
        h::ok(bad, "a readable file was rejected");
    }
}

// ---------------------------------------------------------------- line and column
static qb::file_position o_pos(str const& s, size_t p)
{
    qb::file_position r(1, 1);
    for (size_t i = 0; i < p; ++i) {
        if (s[i] == '\n') { ++r.line; r.column = 1; }
        else ++r.column;
    }
    return r;
}
static str show(qb::file_position const& x) { return "line " + std::to_string(x.line) + " column " + std::to_string(x.column); }
static void same(qb::file_position const& a, qb::file_position const& b, char const* what)
{
    if (!(a == b)) h::fail(str(what) + ": got " + show(a) + ", expected " + show(b));
}
static void t_rel(str const& s)
{
    h::begin("positions in " + h::show(s), s.empty());
    h::Buf b(s);
    qb::file_ptr f(new qb::file("x.qbk", sv(b.p, b.n), 106));
    for (size_t p = 0; p <= s.size(); ++p) {
        same(qb::relative_position(b.p, b.p + p), o_pos(s, p), "relative_position");
        same(f->position_of(f->source().begin() + p), o_pos(s, p), "position_of");
    }
}

// ---------------------------------------------------------------- removing indentation
struct Line { str ind, rest; size_t at; bool nl; bool blank() const { return rest.empty(); } };
static size_t width(str const& w)
{
    size_t c = 0;
    for (size_t i = 0; i < w.size(); ++i) c = w[i] == ' ' ? c + 1 : c / 4 * 4 + 4;
    return c;
}
static std::vector<Line> lines(str const& s, size_t from)
{
    std::vector<Line> v;
    for (size_t i = from; i <= s.size();) {
        size_t e = s.find('\n', i);
        bool nl = e != str::npos;
        if (!nl) e = s.size();
        size_t n = i;
        while (n < e && (s[n] == ' ' || s[n] == '\t')) ++n;
        Line l = { s.substr(i, n - i), s.substr(n, e - n), i, nl };
        v.push_back(l);
        if (!nl) break;
        i = e + 1;
    }
    return v;
}
struct Ch { char c; size_t at; size_t alt; };   // character, its position in the original, the first acceptable one
typedef std::vector<Ch> Out;
// the text of s without the indentation its lines share; positions relative to base
static Out o_unindent(str const& s, size_t base, size_t& endpos)
{
    Out out;
    endpos = str::npos;
    size_t first = s.find_first_not_of(" \t\n");
    if (first == str::npos) return out;
    size_t from = first == 0 ? str::npos : s.find_last_of('\n', first - 1);
    from = from == str::npos ? 0 : from + 1;
    std::vector<Line> v = lines(s, from);
    size_t ind = v[0].ind.size(), full = width(v[0].ind);
    for (size_t i = 1; i < v.size(); ++i)
        if (!v[i].blank()) { ind = std::min(ind, v[i].ind.size()); full = std::min(full, width(v[i].ind)); }
    bool mixed = false;
    for (size_t i = 1; i < v.size(); ++i)
        if ((!v[i].blank() || v[i].nl) && v[i].ind.size() >= ind && v[i].ind.substr(0, ind) != v[0].ind.substr(0, ind)) mixed = true;
    for (size_t i = 0; i < v.size(); ++i) {
        str keep;
        // (an empty line is copied as it is)
        if (mixed) { if (width(v[i].ind) > full) keep = str(width(v[i].ind) - full, ' '); }
        else keep = v[i].ind.size() > ind ? v[i].ind.substr(ind) : "";
        size_t a = base + v[i].at;
        for (size_t k = 0; k < keep.size(); ++k) { Ch c = { keep[k], a, a }; out.push_back(c); }
        for (size_t k = 0; k < v[i].rest.size(); ++k) { size_t q = a + v[i].ind.size() + k; Ch c = { v[i].rest[k], q, q }; out.push_back(c); }
        if (v[i].nl) { size_t q = a + v[i].ind.size() + v[i].rest.size(); Ch c = { '\n', q, q }; out.push_back(c); }
        else endpos = v[i].blank() ? a : a + v[i].ind.size() + v[i].rest.size();
    }
    return out;
}
static str text(Out const& o) { str r; for (size_t i = 0; i < o.size(); ++i) r += o[i].c; return r; }

static void t_unindent(str const& s)
{
    h::begin("unindent_and_add of " + h::show(s), s.empty());
    h::Buf b(s);
    qb::file_ptr f(new qb::file("x.qbk", sv(b.p, b.n), 106));
    qb::mapped_file_builder m;
    m.start(f);
    m.unindent_and_add(f->source());
    size_t e;
    Out o = o_unindent(s, 0, e);
    h::eq(m.get_pos(), o.size(), "length of the unindented text");
    h::eq(m.empty(), o.empty(), "empty");
    qb::file_ptr r = m.release();
    h::eq(r->source().to_s(), text(o), "unindented text");
    for (size_t p = 0; p < o.size(); ++p)
        same(r->position_of(r->source().begin() + p), o_pos(s, o[p].at), "position of a character of the unindented text");
    if (!o.empty()) same(r->position_of(r->source().end()), o_pos(s, e), "position of the end of the unindented text");
}

// ---------------------------------------------------------------- mapped files
struct Model {
    Out out;
    size_t end;              // original position of the end, npos: not determined
    std::vector<std::pair<size_t, int> > secs;   // start, kind
    int kind(size_t p) const { int k = -1; for (size_t i = 0; i < secs.size(); ++i) if (secs[i].first <= p) k = i; return k; }
    Model() : end(str::npos) {}
};
static bool check(qb::file_ptr r, Model const& m, str const& src)
{
    h::eq(r->source().to_s(), text(m.out), "text of the mapped file");
    for (size_t p = 0; p < m.out.size(); ++p) {
        qb::file_position got = r->position_of(r->source().begin() + p);
        bool found = false;
        for (size_t a = std::min(m.out[p].alt, m.out[p].at); a <= m.out[p].at && !found; ++a) found = got == o_pos(src, a);
        if (!found)
            h::fail("position of character " + std::to_string(p) + " of the mapped file: got " + show(got) + ", expected " + show(o_pos(src, m.out[p].at)));
    }
    if (m.end != str::npos && !m.secs.empty()) same(r->position_of(r->source().end()), o_pos(src, m.end), "position of the end of the mapped file");
    return true;
}
static void append(Model& d, Model const& x, size_t b, size_t e)
{
    if (b == e) return;
    size_t size = d.out.size();
    // inside a run of spaces at the start of a copied part of an indented block the start of the run is as good
    bool run = x.kind(b) >= 0 && x.secs[x.kind(b)].second == 2;
    size_t g = std::min(x.out[b].at, x.out[b].alt);
    for (size_t p = b; p < e; ++p) {
        Ch c = x.out[p];
        if (c.c != ' ' && c.c != '\t') run = false;
        if (run) c.alt = std::min(c.alt, g);
        d.out.push_back(c);
    }
    for (size_t i = x.kind(b); i < x.secs.size() && x.secs[i].first < e; ++i)
        d.secs.push_back(std::make_pair(x.secs[i].first <= b ? size : x.secs[i].first - b + size, x.secs[i].second));
    d.end = x.kind(e) != x.kind(e - 1) ? str::npos : e == x.out.size() ? x.end : x.out[e].at;
    // all the copied part is indentation: its end maps to the start of the line
    if (run) d.end = str::npos;
    if (x.kind(e - 1) >= 0 && x.secs[x.kind(e - 1)].second == 2) d.end = str::npos;
}
static void t_builder()
{
    static std::vector<str> ps = {"a", "b", " ", "  ", "\t", "\n", "\n\n", "    x", "\n  y", "\n    z", "\n \t", "word", "]", "\n\tq"};
    str src = h::rpieces(ps, 16);
    str log = "source " + h::show(src) + " operations";
    h::begin(log);
    h::Buf b(src);
    qb::file_ptr f(new qb::file("x.qbk", sv(b.p, b.n), 106));
    sv s = f->source();
    Model m[3];
    std::vector<std::unique_ptr<qb::mapped_file_builder> > q;
    for (int i = 0; i < 3; ++i) { q.push_back(std::unique_ptr<qb::mapped_file_builder>(new qb::mapped_file_builder)); q[i]->start(f); }
    unsigned n = 1 + h::below(9);
    for (unsigned k = 0; k < n; ++k) {
        unsigned t = h::below(3), u = (t + 1 + h::below(2)) % 3;
        size_t i = h::below(s.size() + 1), j = i + h::below(s.size() - i + 1);
        Model& d = m[t];
        std::string op;
        switch (h::below(9)) {
        case 0: case 1: case 2:
            op = " add" + std::to_string(t) + "[" + std::to_string(i) + "," + std::to_string(j) + ")";
            h::S().cur = log += op;
            d.secs.push_back(std::make_pair(d.out.size(), 0));
            for (size_t p = i; p < j; ++p) { Ch c = { src[p], p, p }; d.out.push_back(c); }
            d.end = j;
            q[t]->add(sv(s.begin() + i, j - i));
            break;
        case 3: case 4: {
            str txt = h::rpieces(ps, 3);
            op = " add_at_pos" + std::to_string(t) + "(" + h::show(txt) + "," + std::to_string(i) + ")";
            h::S().cur = log += op;
            d.secs.push_back(std::make_pair(d.out.size(), 1));
            for (size_t p = 0; p < txt.size(); ++p) { Ch c = { txt[p], i, i }; d.out.push_back(c); }
            d.end = i;
            q[t]->add_at_pos(txt, s.begin() + i);
            break;
        }
        case 5: {
            op = " unindent" + std::to_string(t) + "[" + std::to_string(i) + "," + std::to_string(j) + ")";
            h::S().cur = log += op;
            size_t e;
            Out o = o_unindent(src.substr(i, j - i), i, e);
            if (!o.empty()) {
                d.secs.push_back(std::make_pair(d.out.size(), 2));
                d.out.insert(d.out.end(), o.begin(), o.end());
                d.end = e;
            }
            q[t]->unindent_and_add(sv(s.begin() + i, j - i));
            break;
        }
        case 6:
            op = " append" + std::to_string(t) + "<-" + std::to_string(u);
            h::S().cur = log += op;
            append(d, m[u], 0, m[u].out.size());
            q[t]->add(*q[u]);
            break;
        default: {
            size_t x = h::below(m[u].out.size() + 1), y = x + h::below(m[u].out.size() - x + 1);
            op = " append" + std::to_string(t) + "<-" + std::to_string(u) + "[" + std::to_string(x) + "," + std::to_string(y) + ")";
            h::S().cur = log += op;
            append(d, m[u], x, y);
            q[t]->add(*q[u], x, y);
        }
        }
        h::eq(q[t]->get_pos(), d.out.size(), "get_pos");
        h::eq(q[t]->empty(), d.out.empty(), "empty");
        if (d.out.size() > 4000) break;
    }
    for (int i = 0; i < 3; ++i) { qb::file_ptr r = q[i]->release(); check(r, m[i], src); }
}
int main(int argc, char** argv)
{
    h::init(argc, argv);
    if (h::is("C08")) {
        h::all("\r\na", 6, t_load);
        str marks[] = {"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", str("\0\0\xfe\xff", 4), str("\xff\xfe\0\0", 4), "\xef\xbb", "\xff", "\xfe", str("\0\0\xfe", 3), str("\0\0", 2), str("\0", 1), "\xef", "\xef\xbb\xbf\xef\xbb\xbf", "\xbf", "\xbb\xbf"};
        for (str const& k : marks) { t_load(k); t_load("a" + k); for (str const& t : marks) t_load(k + t); t_load(k + "\n"); t_load(k + "a\r"); t_load(k + "\r\n"); }
        h::all("\xef\xbb\xbf\xff\xfe" + str(1, '\0'), 4, t_load);
        std::vector<str> ps = {"\r", "\n", "\r\n", "a", "text ", "\n\r", "\x80", "\xef\xbb\xbf", str(1, '\0'), "\x1a", "\xff"};
        while (h::time_left()) t_load((h::chance(30) ? marks[h::below(15)] : str()) + h::rpieces(ps, 12));
    }
    else if (h::is("C09")) {
        h::all("\nab", 7, t_rel);
        std::vector<str> ps = {"\n", "\n\n", "a", "long line of text", "\t", "\xc3\xa9", str(1, '\0'), "\xff"};
        while (h::time_left()) t_rel(h::rpieces(ps, 14));
    }
    else if (h::is("C10")) {
        while (h::time_left()) t_builder();
    }
    else if (h::is("C11")) {
        h::all(" \t\na", 7, t_unindent);
        std::vector<str> ps = {"\n", "\n\n", " ", "    ", "\t", "  ", "x", "ab cd", "\n    q", "\n\tw", "\n  ", "\n \tz", "\n      e"};
        while (h::time_left()) t_unindent(h::rpieces(ps, 14));
    }
    h::report();
    return 0;
}
