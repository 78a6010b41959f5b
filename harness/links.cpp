// real code: src/bb2html.cpp
#include "h.hpp"
#include "bb2html.hpp"
#include "html_printer.hpp"
#include <boost/filesystem.hpp>
#include <fstream>
#include <iostream>
#include <map>
namespace fs = boost::filesystem;
typedef std::string str;
namespace quickbook { namespace detail {
    std::string relative_path_from_url_paths(quickbook::string_view, quickbook::string_view);
} }
namespace qd = quickbook::detail;
typedef std::vector<str> strs;

// what the reference r means in the page b
static str resolve(str const& b, str const& r)
{
    str doc = b.substr(0, b.find('#'));
    if (r.empty() || r[0] == '#') return doc + r;
    if (r[0] == '/') return r;
    strs segs;
    size_t at = 0;
    for (;;) {
        size_t e = doc.find('/', at);
        if (e == str::npos) break;
        segs.push_back(doc.substr(at, e - at));
        at = e + 1;
    }
    size_t i = 0;
    while (!r.compare(i, 3, "../")) { if (segs.size()) segs.pop_back(); i += 3; }
    str out;
    for (size_t k = 0; k < segs.size(); ++k) out += segs[k] + "/";
    return out + r.substr(i);
}
static str target(str const& p) { size_t e = p.find('#'); return e != str::npos && e + 1 == p.size() ? p.substr(0, e) : p; }
static bool page(str const& p)
{
    str d = "/" + p.substr(0, p.find('#')) + "/";
    return d.size() > 2 && d.find("//") == str::npos && d.find("../") == str::npos;
}
static void one(str const& p, str const& b)
{
    if (!page(p) || !page(b)) return;
    h::begin("path " + h::show(p) + " in " + h::show(b));
    h::Buf x(p), y(b);
    str r = qd::relative_path_from_url_paths(quickbook::string_view(x.p, x.n), quickbook::string_view(y.p, y.n));
    h::eq(target(resolve(b, r)), target(p), ("where the reference " + h::show(r) + " leads").c_str());
}
static str rpath()
{
    static char const* seg[] = { "a", "b", "ab", "a.b", "index.html", "x.html", "..a", "#", "." };
    str r;
    for (int n = 1 + h::below(4); n > 0; --n) r += str(r.empty() ? "" : "/") + seg[h::below(7)];
    if (h::chance(50)) { r += "#"; for (int n = h::below(3); n > 0; --n) r += "ab/#."[h::below(5)]; }
    return r;
}
// ---------------------------------------------------------------- a whole document
static fs::path dir;
static strs ids;
static std::set<str> chunks;
static strs urls;
static str note()
{
    str r = "<para>y<footnote";
    if (h::chance(30)) { str id = "an." + h::show((int)ids.size()); ids.push_back(id); r += " id=\"" + id + "\""; }
    return r + "><para>" + (h::chance(30) ? "@@" : "note") + "</para></footnote></para>";
}
// code with marks and a list of what they mean
static str callouts()
{
    str r = "<programlisting>code ", l = "<calloutlist>";
    for (int n = 1 + h::below(3); n > 0; --n) {
        str a = "an." + h::show((int)ids.size()); ids.push_back(a);
        str b = "an." + h::show((int)ids.size()); ids.push_back(b);
        r += "<co id=\"" + a + "\" linkends=\"" + b + "\"/>;";
        l += "<callout arearefs=\"" + a + "\" id=\"" + b + "\"><para>C:" + b + ";</para></callout>";
    }
    return r + "</programlisting>" + l + "</calloutlist>";
}
static str body(int depth)
{
    str r;
    for (int k = h::below(4); k > 0; --k) {
        if (h::chance(40)) { str id = "an." + h::show((int)ids.size()); ids.push_back(id); r += "<para><anchor id=\"" + id + "\"/>x</para>"; }
        else if (h::chance(15)) r += note();
        else if (h::chance(12)) r += callouts();
        else r += "<para>@@</para>";
    }
    if (depth < 4)
        for (int k = h::below(depth ? 3 : 4) + (depth == 0); k > 0; --k) {
            static char const* el[] = { "section", "section", "chapter", "reference", "appendix" };
            static char const* nm[] = { "a", "b", "c", "a.b", "a.b.c", "x.y", "in.dex", "d.e.f", "a.d" };
            str id = nm[h::below(9)], e = el[h::below(5)];
            while (chunks.count(id)) id += "x";
            chunks.insert(id); ids.push_back(id);
            r += "<" + e + " id=\"" + id + "\"><title>T:" + id + ";" + (h::chance(10) ? "<footnote><para>t</para></footnote>" : "") + "</title>" + body(depth + 1) + "</" + e + ">";
        }
    return r;
}
static void document()
{
    ids.clear(); chunks.clear(); urls.clear();
    static char const* us[] = { "http://www.boost.org/a", "https://b.c/", "mailto:x@y.z", "boost:/libs/a.html", "boost:tools/b", "a+b:c", "ftp://a/#b" };
    str root = "bk";
    chunks.insert(root); ids.push_back(root);
    str d = body(0), doc;
    size_t nurl = 0, nlink = 0, links = 0, curls = 0;
    for (size_t i = 0; i < d.size(); ++i) {
        if (d.compare(i, 2, "@@")) { doc += d[i]; continue; }
        ++i;
        if (h::chance(30)) { str u = us[h::below(7)]; doc += "<ulink url=\"" + u + "\">U:" + u + ";</ulink>"; ++nurl; }
        else { str id = ids[h::below(ids.size())]; doc += "<link linkend=\"" + id + "\">L:" + id + ";</link>"; ++nlink; }
    }
    doc = "<book id=\"" + root + "\"><title>T:" + root + ";</title>" + doc + "</book>";
    bool chunked = h::chance(85);
    h::begin((chunked ? "chunked " : "single ") + doc);
    fs::remove_all(dir / "html");
    fs::create_directory(dir / "html");
    qd::html_options o;
    o.chunked_output = chunked;
    o.pretty_print = false;
    o.home_path = dir / "html" / "index.html";
    h::eq(qd::boostbook_to_html(doc, o), 0, "errors");
    std::map<str, str> files;
    for (fs::recursive_directory_iterator it(dir / "html"), end; it != end; ++it)
        if (fs::is_regular_file(it->path())) {
            std::ifstream f(it->path().string().c_str(), std::ios::binary);
            std::stringstream s; s << f.rdbuf();
            files[it->path().string().substr((dir / "html").string().size() + 1)] = s.str();
        }
    h::ok(files.size() && (chunked || files.size() == 1), "pages");
    for (std::map<str, str>::iterator f = files.begin(); f != files.end(); ++f) {
        str const& t = f->second;
        for (size_t i = t.find("href=\""); i != str::npos; i = t.find("href=\"", i + 1)) {
            size_t e = t.find('"', i + 6);
            str ref = t.substr(i + 6, e - i - 6), text = t.substr(t.find('>', e) + 1);
            if (!text.compare(0, 2, "L:")) ++links;
            if (!text.compare(0, 2, "U:")) {
                ++curls;
                str u = text.substr(2, text.find(';') - 2);
                if (!u.compare(0, 6, "boost:")) { u = u.substr(6); if (u[0] == '/') u = u.substr(1); u = "http://www.boost.org/doc/libs/release/" + u; }
                h::eq(ref, u, "an absolute url");
                continue;
            }
            str to = resolve(f->first, ref), file = to.substr(0, to.find('#')), frag = to.size() > file.size() ? to.substr(file.size() + 1) : str();
            str what = "the link " + h::show(ref) + " in " + f->first;
            h::ok(files.count(file), (what + " leads to no page").c_str());
            if (frag.size()) h::ok(files[file].find("id=\"" + frag + "\"") != str::npos, (what + " leads to no element").c_str());
            if (text.compare(0, 2, "L:") && text.compare(0, 2, "T:")) continue;
            str id = text.substr(2, text.find(';') - 2);
            if (frag.size()) h::eq(frag, id, (what + ": its fragment").c_str());
            else {
                size_t k = files[file].find("T:");
                h::ok(k != str::npos && !files[file].compare(k + 2, id.size() + 1, id + ";"), (what + " leads to another page than " + id).c_str());
            }
        }
    }
    h::eq(links, nlink, "links that lead somewhere");
    h::eq(curls, nurl, "urls that lead somewhere");
}

int main(int argc, char** argv)
{
    h::init(argc, argv);
    std::cout.rdbuf(0); std::cerr.rdbuf(0); std::clog.rdbuf(0);
    dir = fs::current_path() / "links";       // the scratch directory of the check
    fs::create_directory(dir);
    h::all("a/#", 4, [](str const& p) { h::all("a/#", 4, [&](str const& b) { one(p, b); }); });
    h::all("ab/.#", 4, [](str const& p) { h::all("a/#", 3, [&](str const& b) { one(p, b); }); });
    while (h::time_left()) {
        for (int k = 0; k < 50; ++k) one(rpath(), rpath());
        document();
    }
    h::report();
    return 0;
}
