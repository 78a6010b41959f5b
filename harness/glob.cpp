// real code: src/glob.cpp
#include "h.hpp"
#include "glob.hpp"
using namespace quickbook;
typedef std::string str;

// ---- oracle, written from the documentation of globs
static int br_close(str const& p, int i) // i just after '[' ; index after ']' or -1
{
    int n = p.size();
    while (i < n) {
        char c = p[i];
        if (c == '\\') { if (i + 1 >= n || p[i + 1] == '\\' || p[i + 1] == '/') return -1; i += 2; }
        else if (c == '[' || c == '/') return -1;
        else if (c == ']') return i + 1;
        else ++i;
    }
    return -1;
}
static bool o_valid(str const& p)
{
    int n = p.size();
    for (int i = 0; i < n;) {
        if (p[i] == '\\') { if (i + 1 >= n || p[i + 1] == '\\' || p[i + 1] == '/') return false; i += 2; }
        else if (p[i] == '[') { if (i + 1 < n && p[i + 1] == ']') return false; int e = br_close(p, i + 1); if (e < 0) return false; i = e; }
        else if (p[i] == ']') return false;
        else if (p[i] == '*') { if (i + 1 < n && p[i + 1] == '*') return false; ++i; }
        else ++i;
    }
    return true;
}
static void o_class(str const& p, bool& wild, bool& ascii)
{
    wild = false; ascii = true;
    for (int i = 0; i < (int)p.size();) {
        if ((signed char)p[i] < 32) ascii = false;
        if (p[i] == '\\') i += 2;
        else if (p[i] == '[') { wild = true; i = br_close(p, i + 1); }
        else { if (p[i] == '?' || p[i] == '*') wild = true; ++i; }
    }
}
static bool o_in(str const& p, int i, int close, char x) // items in [i, close-1)
{
    bool neg = false, m = false;
    if (p[i] == '^') { neg = true; ++i; }
    int xx = (signed char)x, end = close - 1;
    while (i < end) {
        if (p[i] == '\\') ++i;
        int lo = (unsigned char)p[i++];
        if (i < end && p[i] == '-') {
            ++i;
            if (i == end) { m |= lo == xx || xx == '-'; break; }
            if (p[i] == '\\') ++i;
            int hi = (unsigned char)p[i++];
            m |= lo <= xx && xx <= hi;
        }
        else m |= lo == xx;
    }
    return m != neg;
}
static bool o_match(str const& p, size_t i, str const& f, size_t j)
{
    if (i == p.size()) return j == f.size();
    if (p[i] == '*') return o_match(p, i + 1, f, j) || (j < f.size() && o_match(p, i, f, j + 1));
    if (j == f.size()) return false;
    if (p[i] == '?') return o_match(p, i + 1, f, j + 1);
    if (p[i] == '\\') return p[i + 1] == f[j] && o_match(p, i + 2, f, j + 1);
    if (p[i] == '[') { int e = br_close(p, i + 1); return o_in(p, i + 1, e, f[j]) && o_match(p, e, f, j + 1); }
    return p[i] == f[j] && o_match(p, i + 1, f, j + 1);
}
static bool o_glob(str const& p, str const& f) { return f.empty() ? p.empty() : o_match(p, 0, f, 0); }

static void t_glob(str const& p, str const& f)
{
    h::begin("glob(pattern=" + h::show(p) + ", name=" + h::show(f) + ")");
    h::Buf bp(p), bf(f);
    bool r = false, threw = false;
    try { r = quickbook::glob(string_view(bp.p, bp.n), string_view(bf.p, bf.n)); } catch (glob_error&) { threw = true; }
    if (o_valid(p)) {
        h::ok(!threw, "glob rejected a well-formed pattern");
        h::eq(r, o_glob(p, f), "match");
    }
}
static void t_check(str const& p)
{
    h::begin("check_glob(pattern=" + h::show(p) + ")");
    h::Buf bp(p);
    bool r = false, threw = false;
    try { r = check_glob(string_view(bp.p, bp.n)); } catch (glob_error&) { threw = true; }
    bool ok = o_valid(p), w = false, a = true;
    if (ok) { o_class(p, w, a); if (w && !a) ok = false; }
    h::eq(!threw, ok, "accepted");
    if (ok) h::eq(r, w, "is a glob");
}
static bool esc_ok(str const& p)
{
    for (size_t i = 0; i < p.size(); ++i) if (p[i] == '\\' && ++i >= p.size()) return false;
    return true;
}
static void t_find(str const& p)
{
    h::begin("find_glob_char/glob_unescape(pattern=" + h::show(p) + ")");
    h::Buf bp(p);
    std::size_t want = str::npos;
    for (size_t i = 0; i < p.size(); ++i) {
        if (p[i] == '\\') { ++i; continue; }
        if (std::strchr("[]?*", p[i]) && p[i]) { want = i; break; }
    }
    if (esc_ok(p)) h::eq(find_glob_char(string_view(bp.p, bp.n)), want, "first unescaped wildcard");
    str u;
    for (size_t i = 0; i < p.size(); ++i) {
        if (p[i] == '\\') { if (++i < p.size()) u += p[i]; }
        else u += p[i];
    }
    h::eq(glob_unescape(string_view(bp.p, bp.n)), u, "unescaped");
}

int main(int argc, char** argv)
{
    h::init(argc, argv);
    str ab = "ab*?[]\\^-/";
    unsigned n = h::S().thorough ? 6 : 5;
    if (h::is("C01")) {
        std::vector<str> names;
        h::all("ab", 3, [&](str const& s) { names.push_back(s); });
        h::all("a-^]\\*", 2, [&](str const& s) { names.push_back(s); });
        h::all("ab*?[]\\^-", n - 1, [&](str const& p) { for (size_t i = 0; i < names.size(); ++i) t_glob(p, names[i]); });
    }
    if (h::is("C02")) { h::all(ab, n - 1, t_check); h::all("a*[]\\", n, t_check); h::all("a*[]\\\x01\xe9\x20\x1f\x7f", n - 2, t_check); }
    if (h::is("C03")) h::all("ab*?[]\\", n + 1, t_find);
    std::vector<str> pp = {"a", "b", "c", "*", "*", "?", "[ab]", "[a-c]", "[^a]", "[^a-b]", "[a-]", "[-a]", "[ab-cz]", "[\\]]", "[\\]-a]", "[a-\\]]", "[^\\^]", "[z-a]",
                           "\\*", "\\?", "\\[", "\\]", "\\a", "[", "]", "\\", "-", "^", "/", "ab", "\xe9", "[\xe9]", "[\x80-\xff]", "[\x01-\xff]", "\x01", str("\0", 1), ".", "x-z"};
    std::vector<str> ff = {"a", "a", "b", "b", "c", "ab", "d", "*", "?", "[", "]", "\\", "-", "^", "/", "\xe9", "\x01", ".", "z", str("\0", 1)};
    while (h::time_left()) {
        str p = h::rpieces(pp, 7);
        if (h::is("C01")) {
            if (!o_valid(p)) continue;
            if (h::chance(70)) {
                // a name derived from the pattern, perhaps perturbed
                str f;
                for (size_t i = 0; i < p.size();) {
                    if (p[i] == '*') { f += h::rpieces(ff, 3); ++i; }
                    else if (p[i] == '?') { f += ff[h::below(ff.size())]; ++i; }
                    else if (p[i] == '[') { int e = br_close(p, i + 1); f += p[i + 1 + h::below(e - i - 1)]; i = e; }
                    else if (p[i] == '\\') { f += p[i + 1]; i += 2; }
                    else f += p[i++];
                }
                if (h::chance(30) && !f.empty()) f[h::below(f.size())] = ff[h::below(ff.size())][0];
                if (h::chance(20)) f += ff[h::below(ff.size())];
                t_glob(p, f);
            }
            else t_glob(p, h::rpieces(ff, 6));
        }
        else if (h::is("C02")) t_check(p);
        else if (h::is("C03")) t_find(p);
        else break;
    }
    h::report();
}
