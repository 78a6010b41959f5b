// Templates: random documents, compared with a direct interpretation of the templates they were made from.
// Names: static scope (quickbook 1.5+), dynamic scope (1.4-); arguments separated by '..' or by space.
#include "scope.hpp"
#include <map>
#include <memory>
typedef std::string str;
static str num(int n) { return std::to_string(n); }
struct Node;
typedef std::vector<Node> Nodes;
struct Node { bool call; str text; std::vector<std::vector<Nodes> > args; };     // args: separated by '..', each of pieces separated by space
struct Def;
struct Part { int kind; std::vector<Def> def; Nodes nodes; };       // 0: a definition, 1: a paragraph
struct Def { str name; std::vector<str> params; bool block; std::vector<Part> body; };
struct Env;
struct Tmpl { std::vector<str> params; std::vector<Part> const* body; Nodes const* nodes; Env* env; };
struct Env { std::map<str, Tmpl> own; Env* up; };

static int const max_depth = 100;
struct Useless {};          // too long, or it names a template which is not there

struct Run
{
    int version, steps;
    std::vector<str> words;
    std::vector<std::unique_ptr<Env> > envs;
    std::vector<std::unique_ptr<Nodes> > kept;
    bool wrong;
    Run(int v) : version(v), steps(0), wrong(false) {}
    Env* fresh(Env* up) { envs.push_back(std::unique_ptr<Env>(new Env)); envs.back()->up = up; return envs.back().get(); }
    Tmpl const& find(Env* e, str const& n)
    {
        for (; e; e = e->up) {
            std::map<str, Tmpl>::const_iterator i = e->own.find(n);
            if (i != e->own.end()) return i->second;
        }
        throw Useless();
    }
    void define(Env* e, Def const& d)
    {
        if (e->own.count(d.name)) { wrong = true; return; }
        Tmpl t = { d.params, &d.body, 0, e };
        e->own[d.name] = t;
    }
    void call(Env* e, Node const& c, int depth)
    {
        if (++steps > 4000) throw Useless();
        Tmpl t = find(e, c.text);
        std::vector<std::vector<Nodes> > args = c.args;
        if (version < 105 ? args.size() > 0 : args.size() == 1)
            while (args.size() < t.params.size() && args.back().size() > 1) {
                std::vector<Nodes> rest(args.back().begin() + 1, args.back().end());
                args.back().resize(1);
                args.push_back(rest);
            }
        if (args.size() != t.params.size()) { wrong = true; return; }
        Env* inner = fresh(version < 105 ? e : t.env);
        if (depth + 1 > max_depth) { wrong = true; return; }
        for (size_t i = 0; i < args.size(); ++i) {
            if (inner->own.count(t.params[i])) { wrong = true; return; }
            kept.push_back(std::unique_ptr<Nodes>(new Nodes));
            for (size_t j = 0; j < args[i].size(); ++j) kept.back()->insert(kept.back()->end(), args[i][j].begin(), args[i][j].end());
            Tmpl a = { std::vector<str>(), 0, kept.back().get(), e };
            inner->own[t.params[i]] = a;
        }
        if (t.nodes) phrase(inner, *t.nodes, depth + 1);
        else blocks(inner, *t.body, depth + 1);
    }
    void phrase(Env* e, Nodes const& n, int depth)
    {
        for (size_t i = 0; i < n.size(); ++i) {
            if (n[i].call) call(e, n[i], depth);
            else words.push_back(n[i].text);
        }
    }
    void blocks(Env* e, std::vector<Part> const& b, int depth)
    {
        for (size_t i = 0; i < b.size(); ++i) {
            if (b[i].kind == 0) define(e, b[i].def[0]);
            else phrase(e, b[i].nodes, depth);
        }
    }
};

static char const* const small[] = { "ka", "kab", "kabc", "kb", "kc" };
static str name() { return small[h::below(5)]; }
struct Gen
{
    int version, words;
    str word() { return "w" + num(++words) + ";"; }
    Nodes piece(std::vector<Def const*> const& seen, int depth)
    {
        Nodes r;
        int k = h::chance(70) ? 1 : 1 + h::below(3);
        while (k--) r.push_back(node(seen, depth, true));
        return r;
    }
    Node node(std::vector<Def const*> const& seen, int depth, bool inarg = false)
    {
        Node n;
        n.call = h::chance(depth > 2 ? 15 : inarg && version < 105 ? 25 : 55);
        if (!n.call) { n.text = word(); return n; }
        if (h::chance(inarg ? 60 : 40) || seen.empty()) { n.text = name(); if (h::chance(90)) return n; }
        else n.text = seen[h::below((int)seen.size())]->name;
        size_t want = h::below(3);
        for (size_t i = 0; i < seen.size(); ++i) if (seen[i]->name == n.text) want = seen[i]->params.size();
        if (h::chance(3)) want = h::below(4);
        if (!want) return n;
        int mode = h::below(version < 105 || h::chance(4) ? 3 : 2);       // 0: '..', 1: space, 2: both
        size_t chunks = mode == 0 ? want : mode == 1 ? 1 : 1 + h::below((int)want);
        for (size_t i = 0; i < chunks; ++i) {
            size_t pieces = mode == 0 || i + 1 < chunks ? 1 + h::below(2) * h::below(3) : want - chunks + 1 + h::below(2) * h::below(3);
            if (mode == 0 && want == 1) pieces = 1 + h::below(3);
            std::vector<Nodes> c;
            while (pieces--) c.push_back(piece(seen, depth + 1));
            n.args.push_back(c);
        }
        return n;
    }
    Nodes para(std::vector<Def const*> const& seen, int depth)
    {
        Nodes r;
        for (int k = 1 + h::below(4); k--;) r.push_back(node(seen, depth));
        return r;
    }
    Def def(std::vector<Def const*> seen, int depth)
    {
        Def d;
        d.block = h::chance(35);
        d.name = h::chance(depth ? 30 : 4) ? name() : "t" + num(++words);
        for (int k = h::below(4); k--;) {
            str p = name();
            bool dup = false;
            for (size_t i = 0; i < d.params.size(); ++i) if (d.params[i] == p) dup = true;
            if (!dup || h::chance(2)) d.params.push_back(p);
        }
        Part p;
        if (!d.block) { p.kind = 1; p.nodes = para(seen, depth + 1); d.body.push_back(p); return d; }
        d.body = parts(seen, 1 + h::below(3), depth + 1);
        return d;
    }
    std::vector<std::unique_ptr<Def> > all;
    std::vector<Part> parts(std::vector<Def const*> seen, int n, int depth)
    {
        std::vector<Part> r;
        while (n--) {
            Part p;
            p.kind = h::chance(depth == 0 ? 55 : depth < 3 ? 35 : 0) ? 0 : 1;
            if (p.kind == 0) {
                p.def.push_back(def(seen, depth));
                all.push_back(std::unique_ptr<Def>(new Def(p.def[0])));
                seen.push_back(all.back().get());
            }
            else p.nodes = para(seen, depth);
            r.push_back(p);
        }
        if (r.back().kind == 0 || h::chance(30)) {      // use what has been defined
            Part p;
            p.kind = 1;
            p.nodes = para(seen, depth);
            r.push_back(p);
        }
        return r;
    }
};

// the text of a document; in calls the pieces have no space of their own outside of square brackets
struct Text
{
    int version;
    str gap() { return h::chance(80) ? " " : h::chance(50) ? "  " : "\t"; }
    bool spaced(Node const& n) { return n.call && n.args.size() > 0; }
    str node(Node const& n)
    {
        if (!n.call) return n.text;
        str r = "[" + n.text;
        for (size_t i = 0; i < n.args.size(); ++i) {
            r += i ? (h::chance(20) ? " .." : "..") : " ";
            for (size_t j = 0; j < n.args[i].size(); ++j) {
                if (j) r += gap();
                for (size_t k = 0; k < n.args[i][j].size(); ++k) {
                    if (k && version >= 105 && h::chance(20)) r += "\\ ";
                    r += node(n.args[i][j][k]);
                }
            }
        }
        return r + "]";
    }
    str nodes(Nodes const& n)
    {
        str r;
        for (size_t i = 0; i < n.size(); ++i) r += (i && h::chance(60) ? gap() : str()) + node(n[i]);
        return r;
    }
    str parts(std::vector<Part> const& b)
    {
        str r;
        for (size_t i = 0; i < b.size(); ++i) r += (b[i].kind ? nodes(b[i].nodes) : def(b[i].def[0])) + "\n\n";
        return r;
    }
    str def(Def const& d)
    {
        str r = "[template " + d.name + (h::chance(30) ? " [" : "[");
        for (size_t i = 0; i < d.params.size(); ++i) r += (i ? " " : "") + d.params[i];
        r += "]";
        if (d.block) return r + "\n\n" + parts(d.body) + "]";
        return r + " " + nodes(d.body[0].nodes) + "]";
    }
};
// 1.4-: spaces inside of brackets separate arguments too, so there such calls are not put into arguments
static bool flat(Nodes const& n, bool inarg)
{
    for (size_t i = 0; i < n.size(); ++i) {
        if (inarg && n[i].args.size()) return false;
        for (size_t j = 0; j < n[i].args.size(); ++j)
            for (size_t k = 0; k < n[i].args[j].size(); ++k)
                if (!flat(n[i].args[j][k], true)) return false;
    }
    return true;
}
static bool flat(std::vector<Part> const& b)
{
    for (size_t i = 0; i < b.size(); ++i)
        if (b[i].kind ? !flat(b[i].nodes, false) : !flat(b[i].def[0].body)) return false;
    return true;
}

static int tries, made, errors;
static void one()
{
    Gen g;
    static int const versions[] = { 104, 104, 105, 105, 106, 106, 107, 107 };
    g.version = versions[h::below(8)];
    g.words = 0;
    ++tries;
    std::vector<Part> top;
    for (int i = 0; i < 5; ++i) {       // some names which always mean something
        Part p;
        p.kind = 0;
        Def d;
        d.name = small[i];
        d.block = false;
        Part q;
        q.kind = 1;
        Node n = { false, g.word() };
        q.nodes.push_back(n);
        d.body.push_back(q);
        p.def.push_back(d);
        if (h::chance(90)) top.push_back(p);
    }
    std::vector<Part> more = g.parts(std::vector<Def const*>(), 2 + h::below(h::chance(20) ? 15 : 7), 0);
    top.insert(top.end(), more.begin(), more.end());
    if (g.version < 105 && !flat(top)) return;
    Run r(g.version);
    bool wrong;
    try { r.blocks(r.fresh(0), top, 0); }
    catch (Useless) { return; }
    wrong = r.wrong;
    if (wrong && h::chance(80)) return;
    if (r.words.empty() || r.words.size() > 1000) return;
    ++made;
    errors += wrong;
    Text t;
    t.version = g.version;
    str doc = "[article T\n[quickbook 1." + num(g.version % 10) + "]\n]\n\n" + t.parts(top);
    h::begin(h::show(doc));
    whole::Result w = whole::run(doc);
    if (wrong) {
        if (!w.rc) h::fail("no error was reported for the document");
        return;
    }
    if (w.rc) h::fail("error messages: " + w.messages);
    std::vector<str> got;
    for (size_t p = 0; (p = w.out.find('w', p)) != str::npos; ++p) {
        size_t q = p + 1;
        while (q < w.out.size() && isdigit((unsigned char)w.out[q])) ++q;
        if (q > p + 1 && q < w.out.size() && w.out[q] == ';') got.push_back(w.out.substr(p, q + 1 - p));
    }
    str a, b;
    for (size_t i = 0; i < got.size(); ++i) a += " " + got[i];
    for (size_t i = 0; i < r.words.size(); ++i) b += " " + r.words[i];
    h::eq(h::show(a), h::show(b), "the words of the output");
}

static void search() { while (h::time_left()) { one(); one(); one(); one(); one(); scope_files::one(); } if (getenv("STATS")) fprintf(stderr, "%d tries, %d documents, %d with errors\n", tries, made, errors); }
int main(int argc, char** argv) { h::init(argc, argv); search(); h::report(); return 0; }
