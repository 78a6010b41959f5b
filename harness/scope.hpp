// What a template call, an included or an imported file changes: random sets of files, compared with a direct
// interpretation of macros, templates, source modes, the file name and the quickbook version.
#include "whole.hpp"
#include <map>
#include <memory>
#include <cstring>
namespace scope_files {
typedef std::string str;
static str num(int n) { return std::to_string(n); }
enum Kind { word, macro_use, macro_def, mode, code, block_code, def, call, include, import, file_name, cond, para, list, next_code, quote, section };
struct Item;
typedef std::vector<Item> Items;
struct Item { Kind kind; str name, text; int n; bool block; Items body; };
struct File { int version; int mode; str name; Items body; };

static char const* const modes[] = { "c++", "python", "teletype" };
static char const* const macros[] = { "MA", "MB", "MC", "MD" };

struct Env;
struct Tmpl { Item const* item; Env* env; int version; };
struct Env { std::map<str, Tmpl> own; Env* up; };      // 'up': where names are looked up next
struct Useless {};
struct Run
{
    std::vector<File> const& files;
    std::vector<std::unique_ptr<Env> > envs;
    std::map<str, std::vector<str> > macro;
    std::vector<str> out;
    struct Mode { int m, order; };
    Mode mode_;
    std::vector<Mode> tags;     // of the lists around
    std::vector<Mode> sections;
    int orders, version, steps, depth;
    Mode latest()
    {
        Mode x = mode_;
        if (sections.size() && sections.back().order > x.order) x = sections.back();
        for (size_t i = 0; i < tags.size(); ++i) if (tags[i].order > x.order) x = tags[i];
        return x;
    }
    str language() { return modes[latest().m]; }
    Mode set(int m) { Mode x = { m, ++orders }; return x; }
    bool imported, wrong;
    Env* dynamic;               // for templates of 1.4: the innermost scope of a file or of such a template
    str file;
    Run(std::vector<File> const& f) : files(f), orders(0), version(107), steps(0), depth(0), imported(false), wrong(false), dynamic(0) { mode_.m = mode_.order = 0; }
    Env* fresh(Env* up) { envs.push_back(std::unique_ptr<Env>(new Env)); envs.back()->up = up; return envs.back().get(); }
    void say(str const& s) { out.push_back(s); }
    void cut() { say("|"); }      // the end of a paragraph
    void items(Env* e, Items const& b) { for (size_t i = 0; i < b.size(); ++i) item(e, b[i]); }
    void item(Env* e, Item const& x)
    {
        if (++steps > 3000) throw Useless();
        switch (x.kind) {
        case scope_files::word: say(x.text); break;
        case macro_use: {
            if (!macro.count(x.name)) { say(x.name); break; }
            std::vector<str> v = macro[x.name];
            out.insert(out.end(), v.begin(), v.end());
            break;
        }
        case macro_def: {
            if (macro.count(x.name) && version < 106) break;
            std::vector<str> o;
            o.swap(out);
            items(e, x.body);
            o.swap(out);
            macro[x.name] = o;
            break;
        }
        case scope_files::mode: mode_ = set(x.n); break;
        case code: say("{" + language() + "}"); break;
        case block_code: cut(); say("{" + language() + " block}"); cut(); break;
        case file_name: say(file); break;
        case def: {
            if (e->own.count(x.name)) { wrong = true; break; }
            Tmpl t = { &x, e, version };
            e->own[x.name] = t;
            break;
        }
        case call: {
            Env* f = e;
            while (f && !f->own.count(x.name)) f = f->up;
            if (!f) { say("[" + x.name + "]"); break; }
            Tmpl t = f->own[x.name];
            std::map<str, std::vector<str> > m = macro;
            Mode md = mode_;
            int v = version;
            version = t.version;
            if (++depth > 100) { wrong = true; --depth; version = v; break; }
            Env* d = dynamic;
            Env* n = fresh(t.version < 105 ? d : t.env);
            if (t.version < 105) dynamic = n;
            if (t.item->block) cut();
            std::vector<str> before;
            before.swap(out);
            items(n, t.item->body);
            before.swap(out);
            bool text = false, broken = false;
            for (size_t i = 0; i < before.size(); ++i) { if (before[i] != "|") text = true; else if (text) broken = true; }
            if (t.version < 107) {        // what it writes is put in as it is
                if (broken) cut();
                while (before.size() && before[0] == "|") before.erase(before.begin());
            }
            out.insert(out.end(), before.begin(), before.end());
            if (t.item->block || (broken && t.version < 107)) cut();
            dynamic = d;
            --depth;
            macro = m; mode_ = md; version = v;
            break;
        }
        case cond: if ((macro.count(x.name) > 0) == (x.n > 0)) items(e, x.body); break;
        case include: case import: load(e, x.n, x.kind == import); break;
        case para: cut(); items(e, x.body); cut(); break;
        case list:
            if (x.n >= 0) tags.push_back(set(x.n));
            cut();
            items(e, x.body);
            if (x.n >= 0) tags.pop_back();
            cut();
            break;
        case quote:
            if (x.n >= 0) tags.push_back(set(x.n));
            items(e, x.body);
            if (x.n >= 0) tags.pop_back();
            break;
        case section:
            if (x.n >= 0) tags.push_back(set(x.n));
            sections.push_back(latest());
            if (x.n >= 0) tags.pop_back();
            if (x.block) wrong = true;
            cut();
            say(x.text);
            cut();
            items(e, x.body);
            sections.pop_back();
            cut();
            break;
        case next_code: if (x.block) cut(); say(str("{") + modes[x.n] + (x.block ? " block}" : "}")); if (x.block) cut(); break;
        }
    }
    void load(Env* e, int n, bool imp)
    {
        if (imported && !imp && version >= 106) return;
        std::map<str, std::vector<str> > m = macro;
        std::vector<str> o = out;
        Mode md = mode_;
        int v = version;
        bool was = imported;
        str f = file;
        imported = imp;
        Env* d = dynamic;
        if (imp || v < 106) open(e, n);
        else { Env* i = fresh(e); dynamic = i; open(i, n); }
        dynamic = d;
        if (!imp) macro = m; else out = o;
        if (v >= 106) mode_ = md;
        version = v; imported = was; file = f;
    }
    void open(Env* e, int n)
    {
        file = files[n].name;
        version = files[n].version;
        if (files[n].mode >= 0) mode_ = set(files[n].mode);
        items(e, files[n].body);
    }
};

struct Gen
{
    int words, files, self, version;
    bool heavy;                     // many templates
    std::vector<str> seen;          // names of templates, in all files
    Item make(Kind k) { Item i; i.kind = k; i.n = 0; i.block = false; return i; }
    str w() { return "w" + num(++words) + ";"; }
    Item setting() { Item i = make(mode); i.n = h::below(3); return i; }
    Item inl(int depth, bool bare = false)
    {
        int k = h::below(bare ? 75 : 100);
        if (heavy && seen.size() && !bare && h::chance(50)) { Item i = make(call); i.name = seen[h::below((int)seen.size())]; return i; }
        if (k < 25) { Item i = make(word); i.text = w(); return i; }
        if (k < 45) { Item i = make(macro_use); i.name = macros[h::below(4)]; return i; }
        if (k < 60) {
            if (version < 107 || h::chance(75)) return make(code);
            Item i = make(next_code);
            i.n = h::below(3);
            return i;
        }
        if (k < 65) return make(file_name);
        if (k < 80 && seen.size() && !bare) { Item i = make(call); i.name = seen[h::below((int)seen.size())]; return i; }
        if (k < 90 && !bare) { Item i = make(mode); i.n = h::below(3); return i; }
        if (depth < 2) {
            Item i = make(cond);
            i.name = macros[h::below(4)];
            i.n = version < 107 || h::chance(50);
            for (int j = 1 + h::below(2); j--;) i.body.push_back(inl(depth + 1, true));
            return i;
        }
        return make(code);
    }
    Item quoted(int depth)
    {
        Item i = make(quote);
        i.n = version < 107 ? -1 : h::below(4) - 1;
        for (int j = 1 + h::below(3); j--;) i.body.push_back(depth < 2 && h::chance(30) ? quoted(depth + 1) : h::chance(20) ? setting() : h::chance(35) ? make(code) : inl(depth, true));
        return i;
    }
    Item paragraph(int depth)
    {
        Item p = make(para);
        for (int j = 1 + h::below(4); j--;) p.body.push_back(h::chance(12) ? quoted(0) : inl(depth));
        return p;
    }
    Items blocks(int n, int depth)
    {
        Items r;
        if (heavy && !depth && self + 1 < files) { Item i = make(version >= 106 && h::chance(70) ? import : include); i.n = self + 1 + h::below(files - self - 1); r.push_back(i); }
        while (n--) {
            int k = heavy && h::chance(depth ? 25 : 45) ? 79 : h::below(100);
            if (k < 40) r.push_back(paragraph(0));
            else if (k < 55) { Item i = make(macro_def);
                i.name = macros[h::below(4)];
                if (h::chance(60)) { Item v = make(word); v.text = w(); i.body.push_back(v); }
                else if (h::chance(60)) i.body.push_back(make(file_name));
                else for (int j = 1 + h::below(2); j--;) i.body.push_back(inl(1, true));
                r.push_back(i);
            }
            else if (k < 60) { Item i = make(mode); i.n = h::below(3); r.push_back(i); }
            else if (k < 68) { if (r.empty() || r.back().kind != block_code) r.push_back(make(block_code)); }
            else if (k < 73 && version >= 107) {
                Item i = make(list);
                i.n = h::below(4) - 1;
                for (int j = 1 + h::below(3); j--;) { Item p = make(para); for (int l = 1 + h::below(4); l--;) p.body.push_back(h::chance(25) ? setting() : inl(0, true)); i.body.push_back(p); }
                r.push_back(i);
                Item p = make(para);
                p.body.push_back(make(code));
                r.push_back(p);
            }
            else if (k < 76 && version >= 107 && (r.empty() || r.back().kind != block_code)) { Item i = make(next_code); i.n = h::below(3); i.block = true; r.push_back(i); r.push_back(paragraph(0)); }
            else if (k < 80) {
                if (depth > 1) continue;
                Item i = make(def);
                i.block = h::chance(60);
                if (i.block) i.body = blocks(1 + h::below(5), depth + 1);
                else { Item p = paragraph(1); i.body = p.body; }
                if (seen.size() && h::chance(depth ? 40 : heavy ? 15 : 4)) i.name = seen[h::below((int)seen.size())];
                else { i.name = "t" + num(++words); seen.push_back(i.name); }
                r.push_back(i);
            }
            else if (k < 83 && depth < 2 && n > 0) {
                Item i = make(section);
                i.n = version < 107 ? -1 : h::below(4) - 1;
                i.text = w();
                i.block = depth && h::chance(3);        // not ended
                int m = 1 + h::below(n);
                i.body = blocks(m, depth);
                n -= m;
                r.push_back(i);
            }
            else if (k < 88 && seen.size()) { Item i = make(call); i.name = seen[h::below((int)seen.size())]; Item p = make(para); p.body.push_back(i); r.push_back(p); }
            else if (self + 1 < files && !depth) {
                Item i = make(version >= 106 && h::chance(40) ? import : include);
                i.n = self + 1 + h::below(files - self - 1);
                r.push_back(i);
            }
        }
        return r;
    }
};
static str text(Items const& b, bool inl, std::vector<File> const& files)
{
    str r;
    for (size_t i = 0; i < b.size(); ++i) {
        Item const& x = b[i];
        str s;
        switch (x.kind) {
        case word: s = x.text; break;
        case macro_use: s = x.name; break;
        case macro_def: s = "[def " + x.name + " " + text(x.body, true, files) + "]"; break;
        case mode: s = str("[") + modes[x.n] + "]"; break;
        case code: s = "`class None`"; break;
        case block_code: s = "  class None"; break;
        case file_name: s = "__FILENAME__"; break;
        case def: s = "[template " + x.name + "[]" + (x.block ? "\n\n" + text(x.body, false, files) : " " + text(x.body, true, files)) + "]"; break;
        case call: s = "[" + x.name + "]"; break;
        case cond: s = str("[?") + (x.n ? "" : "!") + x.name + " " + text(x.body, true, files) + "]"; break;
        case include: s = "[include " + files[x.n].name + "]"; break;
        case import: s = "[import " + files[x.n].name + "]"; break;
        case para: s = text(x.body, true, files); break;
        case list:
            if (x.n >= 0) s = str("[!") + modes[x.n] + "]\n";
            for (size_t j = 0; j < x.body.size(); ++j) s += "* " + text(x.body[j].body, true, files) + "\n";
            break;
        case quote: s = (x.n >= 0 ? str("[!") + modes[x.n] + "]" : str()) + "['" + text(x.body, true, files) + "]"; break;
        case section: s = (x.n >= 0 ? str("[!") + modes[x.n] + "]\n" : str()) + "[section " + x.text + "]\n\n" + text(x.body, false, files) + (x.block ? "" : "[endsect]"); break;
        case next_code: s = str("[!") + modes[x.n] + "]" + (x.block ? "\n  class None" : "`class None`"); break;
        }
        r += (i && inl ? " " : "") + s + (inl ? "" : "\n\n");
    }
    return r;
}
static str head(File const& f, bool main)
{
    str v = "[quickbook 1." + num(f.version % 10) + "]\n", m = f.mode >= 0 ? str("[source-mode ") + modes[f.mode] + "]\n" : str();
    return main ? "[article T\n" + v + m + "]\n\n" : v + m + "\n";
}

// the words, with one bar between paragraphs
static str together(std::vector<str> const& v)
{
    str r;
    bool bar = true;
    for (size_t i = 0; i < v.size(); ++i) {
        if (v[i] == "|") { if (!bar) r += " |"; bar = true; }
        else { r += " " + v[i]; bar = false; }
    }
    if (bar && r.size() > 1) r.resize(r.size() - 2);
    return r;
}
static int tries, made, errors, serial;
static void one()
{
    ++tries;
    Gen g;
    g.words = 0;
    g.heavy = h::chance(30);
    g.files = 1 + h::below(4);
    std::vector<File> files((size_t)g.files);
    ++serial;
    for (int i = 0; i < g.files; ++i) {
        files[i].version = h::chance(g.heavy ? 45 : 25) ? 104 : 105 + h::below(3);
        if (i == 0 && h::chance(50)) files[i].version = 107;
        files[i].mode = -1;
        if (files[i].version >= 106 && h::chance(25)) files[i].mode = h::below(3);
        files[i].name = "scope" + num(serial) + "_" + num(i) + ".qbk";
    }
    if (g.heavy) { g.seen.push_back("u1"); g.seen.push_back("u2"); }
    for (int i = g.files; i--;) {
        g.self = i;
        g.version = files[i].version;
        files[i].body = g.blocks(2 + h::below(i ? 6 : 9), 0);
    }
    if (h::chance(1)) {
        // a chain of calls
        int n = 99 + h::below(4);
        for (int i = n; i--;) {
            Item d = g.make(def), p = g.make(para), c = g.make(call), v = g.make(word);
            d.name = "c" + num(i); d.block = false; c.name = "c" + num(i + 1); v.text = "x;";
            d.body.push_back(v);
            if (i < n - 1) d.body.push_back(c);
            files[0].body.insert(files[0].body.begin(), d);
        }
        Item p = g.make(para), c = g.make(call);
        c.name = "c0";
        p.body.push_back(c);
        files[0].body.push_back(p);
    }
    if (h::chance(1)) {
        // more calls than may be nested
        Item d = g.make(def), p = g.make(para), c = g.make(call);
        d.name = c.name = "calls"; d.block = false;
        Item v = g.make(word); v.text = "x;"; d.body.push_back(v);
        for (int i = 0; i < 105; ++i) p.body.push_back(c);
        files[0].body.insert(files[0].body.begin(), p);
        files[0].body.insert(files[0].body.begin(), d);
    }
    Run r(files);
    Env* top = r.fresh(0);
    r.dynamic = top;
    try { r.open(top, 0); }
    catch (Useless) { return; }
    if (r.out.empty() || r.out.size() > 800) return;
    if (r.wrong && h::chance(70)) return;
    ++made;
    errors += r.wrong;
    str shown;
    for (int i = 0; i < g.files; ++i) {
        str t = head(files[i], i == 0) + text(files[i].body, false, files);
        whole::write(files[i].name, t);
        shown += (i ? " and " + files[i].name + ": " : str()) + h::show(t);
    }
    h::begin(shown);
    std::vector<str> args;
    args.push_back("--no-pretty-print");
    args.push_back("--output-file=doc.xml");
    args.push_back(files[0].name);
    whole::Result w = whole::run(args, "doc.xml");
    for (int i = 0; i < g.files; ++i) std::remove(files[i].name.c_str());
    if (r.wrong) {
        if (!w.rc) h::fail("no error was reported");
        return;
    }
    if (w.rc) h::fail("error messages: " + w.messages);
    size_t p = w.out.find("</title>");
    if (p == str::npos) h::fail("no title in the output " + h::show(w.out));
    str x = w.out.substr(p + 8), y;
    int lists = 0;
    for (p = 0; p < x.size();) {
        bool block = x.compare(p, 16, "<programlisting>") == 0;
        if (block || x.compare(p, 6, "<code>") == 0) {
            size_t q = x.find(block ? "</programlisting>" : "</code>", p);
            if (q == str::npos) h::fail("unfinished code in " + h::show(x));
            str c = x.substr(p, q - p), kw = "<phrase role=\"keyword\">";
            str m = c.find(kw + "class") == str::npos ? "teletype" : c.find(kw + "None") == str::npos ? "c++" : "python";
            y += (block ? " | {" : " {") + m + (block ? "~block} | " : "} ");
            p = x.find('>', q) + 1;
        }
        else if (x[p] == '<') {
            if (x.compare(p, 14, "<itemizedlist>") == 0) ++lists;
            if (x.compare(p, 15, "</itemizedlist>") == 0) --lists;
            if (x.compare(p, 9, "<simpara>") == 0 && !lists) h::fail("a paragraph is written as part of a list: " + h::show(x));
            static char const* const blocks[] = { "<para", "</para", "<simpara", "</simpara", "<itemizedlist", "</itemizedlist", "<listitem", "</listitem", "<section", "</section", "</title" };
            for (int k = 0; k < 11; ++k) if (x.compare(p, std::strlen(blocks[k]), blocks[k]) == 0) y += " | ";
            p = x.find('>', p);
            if (p == str::npos) break;
            ++p;
            y += ' ';
        }
        else y += x[p++];
    }
    std::vector<str> got;
    std::stringstream in(y);
    for (str t; in >> t;) { size_t k = t.find('~'); if (k != str::npos) t[k] = ' '; got.push_back(t); }
    str a = together(got), b = together(r.out);
    h::eq(h::show(a), h::show(b), "the text of the output");
}
}
