// C24 on the whole program: documents with and without mistakes, output which can and cannot be written, and the exit status.
#include "whole.hpp"
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
typedef std::string str;
typedef std::vector<str> strs;
namespace {
    int serial = 0;             // the program keeps the files it has read, so every run has its own names
    strs made;
    str fresh(str const& ext) { str n = "s" + std::to_string(++serial) + ext; made.push_back(n); return n; }
    str pick(std::initializer_list<char const*> a) { return a.begin()[h::below((unsigned)a.size())]; }
    str word() { static int n = 0; return "w" + std::to_string(++n); }
    str uid() { static int n = 0; return "u" + std::to_string(++n); }
}
// a piece of a document which is in order; WORDS are texts the output has to show
static str good(strs& words, unsigned depth, bool html)
{
    str w = word(), v = word(), n = uid();
    words.push_back(w), words.push_back(v);
    switch (h::below(depth ? 12 : 7)) {
    case 0: return w + " text *" + v + "* text.\n\n";
    case 1: return "* " + w + "\n* " + v + "\n\n";
    case 2: return "    " + w + " = " + v + ";\n\n";
    case 3: return "[note " + w + " [@http://a.b/ " + v + "]]\n\n";
    case 4: return "[template " + n + "[a b] " + w + " [a] [b]]\n\n[" + n + " x.." + v + "]\n\n";
    case 5: return "[table " + w + " [[a][b]] [[" + v + "][d]]]\n\n";
    case 6: return "[def __" + n + "__ " + w + "] __" + n + "__ " + v + "\n\n";
    case 7: return "[section:" + n + " " + w + "]\n\n" + v + "\n\n" + good(words, depth - 1, html) + "[endsect]\n\n";
    case 8: {
        str f = fresh(".qbk");
        whole::write(f, w + "\n\n" + good(words, depth - 1, html));
        return "[include " + f + "]\n\n" + v + "\n\n";
    }
    case 9: {
        str f = fresh(".cpp");
        whole::write(f, "//[" + n + "\nint " + w + ";\n//]\n");
        return "[import " + f + "]\n\n[" + n + "]\n\n" + v + "\n\n";
    }
    case 10: return "[template " + n + "[]\n\n" + w + "\n\n" + good(words, depth - 1, html) + v + "\n\n]\n\n[" + n + "]\n\n";
    default: words.pop_back(); return "[heading " + w + "]\n\n[/ comment " + v + "]\n\n";
    }
}
// a mistake; PLAIN if it can be put inside of brackets
struct Fault { str text; bool plain; };
static Fault fault()
{
    str n = uid(), m = uid();
    Fault f;
    f.plain = true;
    switch (h::below(23)) {
    case 0: f.text = "[endsect]"; f.plain = false; break;
    case 1: f.text = "[section:" + n + " A]\n\n[endsect:" + m + "]"; break;
    case 2: f.text = "[section A]\n\n[endsect:" + m + "]"; break;
    case 3: f.text = "[include no" + n + ".qbk]"; break;
    case 4: f.text = "[import no" + n + ".cpp]"; break;
    case 5: f.text = "[template " + n + " a]\n\n[template " + n + " b]"; break;
    case 6: f.text = "[template " + n + "[x y] [x][y]]\n\n[" + n + " 1..2..3]"; break;
    case 7: f.text = "[template " + n + "[] a [" + n + "]]\n\n[" + n + "]"; break;
    case 8: f.text = "[no" + n + " a"; f.plain = false; break;
    case 9: f.text = "'''<b>"; f.plain = false; break;
    case 10: f.text = "```\nint " + n; f.plain = false; break;
    case 11: f.text = "[section:a!!b A]\n\n[endsect]"; break;
    case 12: f.text = "[$a\\b" + n + ".png]"; break;
    case 13: f.text = "[template " + n + "[x] [x]]\n\n[`" + n + " 1]"; break;
    case 14: {
        str c = fresh(".cpp");
        whole::write(c, pick({"//[a\nint x;\n", "int x;\n//]\n", "//[a\nint x; //]\n//[a\nint y;\n//]\n", "//[a\n//[a\nint x;\n//]\n//]\n"}));
        f.text = "[import " + c + "]";
        break;
    }
    case 15: {
        str c = fresh(".cpp");
        whole::write(c, "//[" + n + "\n/*` [include no" + n + ".qbk]\n*/\n//]\n");
        f.text = "[import " + c + "]\n\n[" + n + "]";
        break;
    }
    case 16: f.text = "[template " + n + "[]\n[section A]\n]\n\n[" + n + "]"; break;
    case 17: f.text = "[template " + n + "[x] [section:" + m + " A]\n\n[endsect:" + n + "]\n]\n\n[" + n + " 1]"; break;
    case 18: f.text = "[link " + n + "[section] x]]"; f.plain = false; break;
    case 19: {
        str q = fresh(".qbk");
        whole::write(q, "[quickbook 9.9]\n\ntext\n");
        f.text = "[include " + q + "]";
        break;
    }
    case 20: f.text = "[template " + n + "[]\n\ntext\n\n]\n\n[@http://x/[" + n + "] y]"; break;
    case 21: {
        str c = fresh(".cpp");
        whole::write(c, "//[" + n + "\nint x; /*< [include no" + n + ".qbk] >*/\n//]\n//[" + m + "\n/*<< [template " + n + "[a] [a]] [" + n + " 1..2] >>*/\n//]\n");
        f.text = "[import " + c + "]\n\n[" + m + "]";
        break;
    }
    default: f.text = "[$ ]"; break;
    }
    return f;
}
static str around(Fault const& f)
{
    str n = uid();
    switch (h::below(f.plain ? 5 : 3)) {
    case 0: return f.text + "\n\n";
    case 1: {
        str q = fresh(".qbk"), r = fresh(".qbk");
        whole::write(q, "a\n\n" + f.text + "\n\n");
        if (h::chance(50)) return "[include " + q + "]\n\n";
        whole::write(r, str(h::chance(50) ? "[quickbook 1.7]\n\n" : "") + "[include " + q + "]\n\n");
        return "[include " + r + "]\n\n";
    }
    case 2: return "[section:" + n + " S]\n\n" + f.text + "\n\n[endsect]\n\n";
    case 3: return "[template " + n + "[]\n\n" + f.text + "\n\n]\n\n[" + n + "]\n\n";
    default: return "[def __" + n + "__ x]\n\n[note\n\n" + f.text + "\n\n]\n\n";
    }
}
static int run(strs args, str& messages)
{
    args.insert(args.begin(), "quickbook");
    std::vector<char*> argv;
    for (size_t i = 0; i < args.size(); ++i) argv.push_back(&args[i][0]);
    std::stringstream err;
    std::streambuf* a = std::cerr.rdbuf(err.rdbuf());
    std::streambuf* b = std::cout.rdbuf(err.rdbuf());
    std::streambuf* c = std::clog.rdbuf(err.rdbuf());
    int rc = quickbook_main((int)argv.size(), &argv[0]);
    std::cerr.rdbuf(a);
    std::cout.rdbuf(b);
    std::clog.rdbuf(c);
    messages = err.str();
    return rc & 255;            // what another process sees
}
static void empty_dir(str const& d)
{
    if (DIR* p = opendir(d.c_str())) {
        while (dirent* e = readdir(p)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str());
        closedir(p);
        rmdir(d.c_str());
    }
}
static str all_of(str const& d)
{
    str r;
    if (DIR* p = opendir(d.c_str())) {
        while (dirent* e = readdir(p)) if (e->d_name[0] != '.') r += whole::read(d + "/" + e->d_name);
        closedir(p);
    }
    return r;
}
static bool ends(str const& s, str const& e)
{
    size_t n = s.find_last_not_of(" \n");
    return n != str::npos && n + 1 >= e.size() && s.compare(n + 1 - e.size(), e.size(), e) == 0;
}
static void one()
{
    strs words, args;
    enum { xml, onehtml, html } form = h::chance(60) ? xml : h::chance(60) ? onehtml : html;
    // 0 in order; 1 mistakes; 2 an option; 3 output which can't be written; 4 pretty printing; 5 markup; 6 warnings; 7 section left open, strict; 8 mistakes in the header
    unsigned kind = h::chance(25) ? 0 : h::chance(55) ? 1 : 2 + h::below(7);
    if (kind == 4) form = xml;
    if (kind == 5 && form == xml) form = onehtml;
    str id = "t" + uid(), head = "[article Test\n[quickbook 1.7]\n[id " + id + "]\n", body, tail;
    unsigned n = 1 + h::below(4), at = h::below(n + 1);
    bool wrong = kind != 0 && kind != 6, old = h::chance(70), kept = wrong;
    for (unsigned i = 0; i <= n; ++i) {
        if (kind == 1 && i == at) body += around(fault());
        if (kind == 4 && i == at) body += "'''<!--quickbook-escape-postfix-->" + pick({"</a></a></a></a>", "<b></b></c></d></e></f></g>", "<"}) + "'''\n\n";
        if (kind == 5 && i == at) body += "'''" + pick({"<a", "</a>", "<a b=\"c></a>", "<a></b>"}) + "'''\n\n";
        if (kind == 6 && i == at) body += pick({"[h1 A]\n\n[h1 A]\n\n", "[section:left A]\n\ntext\n\n", "[:\n\nquote]\n\n", "[section:left A]\n\n[section:left2 B]\n\ntext\n\n"});
        if (kind == 7 && i == at) body += "[section:left A]\n\ntext\n\n";
        body += good(words, 2, form != xml);
    }
    words.push_back(word());
    tail = words.back() + " the end.\n";
    if (kind == 8) head += pick({"[quickbook 9.9]\n", "[copyright 2010-2001 Me]\n", "[xmlbase nowhere]\n", "[compatibility-mode 9.9]\n"});
    str doc = head + "]\n\n" + body + tail;
    if (kind == 8 && h::chance(20)) doc = pick({"no title\n", "[article\n", ""}) + (h::chance(50) ? body : "");
    str f = fresh(".qbk"), dir = fresh(".dir"), out = fresh(form == xml ? ".xml" : ".html"), page = form == html ? dir + "/index.html" : out;
    whole::write(f, doc);
    if (form == onehtml) args.push_back("--output-format=onehtml");
    if (form == html) args.push_back("--output-format=html");
    if (kind != 4 && h::chance(form == xml ? 80 : 50)) args.push_back("--no-pretty-print");
    if (kind == 7 || (kind < 6 && h::chance(20))) args.push_back("--strict");
    str target = form == html ? "--output-dir=" + dir : "--output-file=" + out, deps;
    bool option = kind == 2;
    if (option)
        switch (h::below(9)) {
        case 0: args.push_back("--output-format=latex"); break;
        case 1: args.push_back(pick({"--define==x", "--define=a b=c"})); break;
        case 2: args.push_back("--xinclude-base=nowhere"); break;
        case 3: args.push_back("--nosuchoption"); break;
        case 4: target = form == html ? "--output-dir=nowhere/x" : "--output-file=nowhere/x.xml"; break;
        case 5: target = form == html ? "--output-file=x.xml" : "--output-dir=x"; break;
        case 6: args.push_back("--output-deps-format=wrong"); break;
        case 7: args.push_back("--define=__m__=x"); args.push_back("--define=y z"); args.push_back("--define=__n__"); break;
        default: f = "none" + f; break;
        }
    if (kind == 3) {
        unsigned k = h::below(form == html ? 2 : 3);
        if (k == 0) args.push_back("--output-deps=nowhere/d");
        else if (k == 1 && form != html) target = "--output-file=/dev/full";
        else if (form == html) { kept = false; mkdir(dir.c_str(), 0777); mkdir(page.c_str(), 0777); old = false; }
        else { mkdir(out.c_str(), 0777); target = "--output-file=" + out; old = false; }
        if (k == 0 && h::chance(50)) args.back() = "--output-deps=/dev/full";
        if (k == 0) kept = false;
    }
    else if (h::chance(20)) args.push_back("--output-deps=" + (deps = fresh(".deps")));
    bool expect = !option && h::chance(10);
    if (expect) args.push_back("--expect-errors");
    args.push_back(target);
    args.push_back(f);
    str line = std::to_string(kind);
    for (size_t i = 0; i < args.size(); ++i) line += " " + args[i];
    h::begin(line + " " + h::show(doc));
    if (old) {
        if (form == html) mkdir(dir.c_str(), 0777);
        whole::write(page, "old");
    }
    str m;
    int rc = run(args, m);
    str now = whole::read(page);
    if (expect) {
        h::ok((rc == 0) == wrong, ("--expect-errors gives 0 exactly when there are errors: " + std::to_string(rc) + " " + h::show(m)).c_str());
        rc = wrong;
    }
    else {
        if (wrong && rc == 0) h::fail("exit status 0 in spite of an error; messages: " + h::show(m));
        if (!wrong && rc != 0) h::fail("exit status " + std::to_string(rc) + " without any error; messages: " + h::show(m));
        h::ok((m.find("rror: ") != str::npos) || rc == 0 || option, "a message says what is wrong");
        h::ok(m.find("rror: ") == str::npos || rc != 0, "exit status 0, and a message of an error");
    }
    if (!wrong) {
        if (old) h::ok(now != "old", "the output is written");
        str shown = form == html ? all_of(dir) : now;
        for (size_t i = 0; i < words.size(); ++i)
            if (shown.find(words[i]) == str::npos) h::fail("exit status 0, but " + words[i] + " is missing in the output " + h::show(shown.substr(0, 3000)));
        h::ok(ends(now, form == xml ? "</article>" : "</html>"), "the output is complete");
        if (deps.size()) h::ok(whole::read(deps).find(f) != str::npos, "the dependencies are written");
    }
    else if ((kind == 1 || kind == 7 || kind == 8 || option) && kept)
        h::eq(h::show(now), h::show(str(old ? "old" : "")), "a run with errors in the document leaves the output as it was");
    else if (kind == 4) {
        h::ok(ends(now, "</article>") && now.find(words.back()) != str::npos, "the output is written when it can't be pretty printed");
    }
    if (kind == 3 && !old) { rmdir(page.c_str()); rmdir(out.c_str()); }
    empty_dir(dir);
    for (size_t i = 0; i < made.size(); ++i) std::remove(made[i].c_str());
    made.clear();
}
// many pages which can't be written: the status another process sees is eight bits of the count
static void pages(unsigned n)
{
    str dir = "m" + std::to_string(n), book = dir + ".qbk", doc = "[book B\n[quickbook 1.7]\n[id b]\n]\n\n";
    h::begin("pages " + std::to_string(n));
    mkdir(dir.c_str(), 0777);
    mkdir((dir + "/c").c_str(), 0777);
    for (unsigned i = 1; i <= n; ++i) {
        str c = dir + "x" + std::to_string(i) + ".qbk";
        whole::write(c, "[chapter C" + std::to_string(i) + "\n[quickbook 1.7]\n[id c" + std::to_string(i) + "]\n]\n\ntext\n");
        doc += "[include " + c + "]\n\n";
        mkdir((dir + "/c" + std::to_string(i) + ".html").c_str(), 0777);
    }
    whole::write(book, doc);
    str m;
    int rc = run({"--output-format=html", "--no-pretty-print", "--output-dir=" + dir, book}, m);
    unsigned bad = 0;
    for (size_t p = m.find("opening output file"); p != str::npos; p = m.find("opening output file", p + 1)) ++bad;
    if (bad && rc == 0) h::fail("exit status 0, but " + std::to_string(bad) + " pages were not written");
    h::ok(bad == n, "every page which can't be written is reported");
    for (unsigned i = 1; i <= n; ++i) { rmdir((dir + "/c" + std::to_string(i) + ".html").c_str()); std::remove((dir + "x" + std::to_string(i) + ".qbk").c_str()); }
    rmdir((dir + "/c").c_str());
    std::remove(book.c_str());
    empty_dir(dir);
}
static void search()
{
    pages(1);
    pages(3);
    pages(256);
    while (h::time_left()) one();
}
int main(int argc, char** argv) { h::init(argc, argv); search(); h::report(); return 0; }
