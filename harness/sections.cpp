// real code: src/document_state.cpp (with src/id_generation.cpp, src/id_xml.cpp)
#include "h.hpp"
#include <deque>
#include "document_state.hpp"
#include "files.hpp"
#include "values.hpp"
using namespace quickbook;
typedef std::string str;
typedef quickbook::string_view sv;

// ------------------------------------------------------------------ the rules, written again
struct Sec { int up; unsigned ver, depth; int level; str old; int ph; int expl; };
struct Doc { int sec; str title, last; };
struct Fil { int up; int doc; unsigned ver, depth, odepth; int oph; str id; };
struct M {
    std::deque<str> ph;           // unresolved ids
    std::deque<Sec> secs;
    std::deque<Doc> docs;
    std::deque<Fil> files;
    int cur;
    M() : cur(-1) {}
    Fil& f() { return files[cur]; }
    Doc& d() { return docs[f().doc]; }
    static str join(str const& a, str const& b) { return a.empty() ? b : b.empty() ? a : a + "." + b; }
    static str norm(str const& s)
    {
        str r;
        bool any = false, gap = false;
        for (size_t i = 0; i < s.size(); ++i) {
            if (s[i] == '_') { gap = true; continue; }
            if (any && gap) r += '_';
            gap = false;
            any = true;
            r += s[i];
        }
        return any ? r.substr(0, 32) : "_";
    }
    static str ident(str s)
    {
        for (size_t i = 0; i < s.size(); ++i) {
            char c = s[i];
            s[i] = (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') ? c : c >= 'A' && c <= 'Z' ? char(c + 32) : '_';
        }
        return s;
    }
    int put(str const& id, int up)
    {
        ph.push_back(up < 0 ? id : ph[up] + "." + id);
        return ph.size() - 1;
    }
    int around(int s) { return s < 0 ? -1 : secs[s].depth < f().odepth ? f().oph : secs[s].ph; }
    str part(str const& id, int cat) { return f().ver >= 106 && cat < id_category::explicit_id ? norm(id) : id; }
    int add(int s, str const& id, int cat)
    {
        int p = around(s);
        if (s < 0 || secs[s].ver >= 106) return put(part(id, cat), p);
        return put(join(join(p < 0 ? f().id : "", secs[s].old), part(id, cat)), p);
    }
    int section(str const& id, int cat, int expl)
    {
        Sec n;
        n.up = d().sec;
        n.ver = f().ver;
        n.depth = f().depth;
        n.level = n.up < 0 ? 1 : secs[n.up].level + 1;
        n.expl = expl;
        int p = around(n.up), r;
        if (n.up >= 0 && n.ver < 106) n.old = join(secs[n.up].old, id);
        if (n.ver >= 106) { r = add(n.up, id, cat); p = r; }
        else if (n.ver >= 103) r = put(p >= 0 ? n.old : n.old.empty() ? f().id : f().id + "." + n.old, p);
        else r = put((n.up >= 0 && p < 0 ? f().id + "." : "") + id, p);
        n.ph = p;
        secs.push_back(n);
        d().sec = secs.size() - 1;
        return r;
    }
    int start(unsigned ver, bool root, str const& inc, str const& id, bool tcheck, bool tempty, str const& title)
    {
        Fil n;
        n.up = cur;
        n.ver = ver;
        str fid = root || ver >= 106 || f().ver >= 106 ? (inc.empty() ? id : inc) : (id.empty() ? inc : id);
        if (root) { Doc x; x.sec = -1; docs.push_back(x); n.doc = docs.size() - 1; }
        else n.doc = f().doc;
        if (root || ver < 106) {
            if (tcheck) docs[n.doc].title = title;
            n.id = fid.empty() ? ident(docs[n.doc].title) : fid;
        } else n.id = f().id;
        int r = -1;
        if (root) {
            n.depth = n.odepth = 0;
            n.oph = -1;
            files.push_back(n);
            cur = files.size() - 1;
            r = !fid.empty() ? section(fid, id_category::explicit_section_id, 0) : !tempty ? section(ident(title), id_category::generated_doc, 0) : ver >= 106 ? section("doc", id_category::numbered, 0) : section("", id_category::generated_doc, 0);
        } else {
            n.depth = f().depth + 1;
            n.odepth = f().odepth;
            n.oph = f().oph;
            if (!fid.empty() && ver >= 106) { n.oph = put(fid, -1); n.odepth = n.depth; }
            files.push_back(n);
            cur = files.size() - 1;
        }
        return r;
    }
};

static void t_history(unsigned steps, int style)
{
    static str const src("Title_Of The doc  X  Second title ");
    file_ptr file(new quickbook::file("t.qbk", src, 106));
    document_state st;
    M m;
    std::vector<str> ids = {"a", "b", "a_b", "__x__y_", "", "very_long_identifier_with_many_words_in_it", "a.b", "_", "Sec"};
    static unsigned const vers[] = {100, 101, 102, 103, 104, 105, 106, 107};
    unsigned only = style == 0 ? 0 : vers[h::below(8)];
    str log;
    std::vector<int> level0;    // the level at which each file started
    for (unsigned k = 0; k < steps; ++k) {
        int op = h::below(12);
        bool in = m.cur >= 0;
        str id = ids[h::below(ids.size())], got;
        if (style == 2 && id.empty()) id = "q";
        int cat = h::below(9), want = -1;
        bool ref = true;
        if (!in || op == 0 || op == 1) {
            if (m.files.size() > 30) continue;
            unsigned ver = only ? only : vers[h::below(8)];
            bool root = !in || op == 0;
            str inc = h::chance(50) ? "" : ids[h::below(3)], fid = h::chance(50) ? "" : ids[6 + h::below(3)];
            unsigned a = h::below(src.size()), n = h::below(src.size() - a);
            value title = h::chance(30) ? empty_value() : h::chance(30) ? encoded_qbk_value(file, file->source().begin() + a, file->source().begin() + a + n, h::chance(50) ? "" : "x") : qbk_value(file, file->source().begin() + a, file->source().begin() + a + n);
            str text = title.check() ? title.get_quickbook().to_s() : str();
            log += "start_file(" + h::show(ver) + (root ? ",docinfo," : ",") + inc + "," + fid + "," + (title.check() ? h::show(text) : "no title") + ") ";
            h::begin(log);
            if (root) got = st.start_file_with_docinfo(ver, inc, fid, title);
            else { st.start_file(ver, inc, fid, title); ref = false; }
            want = m.start(ver, root, inc, fid, title.check(), title.empty(), text);
            level0.push_back(m.secs[m.d().sec].level);
        } else if (op == 2) {
            if (m.secs[m.d().sec].level > level0.back()) continue;
            log += "end_file ";
            h::begin(log);
            st.end_file();
            m.cur = m.f().up;
            level0.pop_back();
            ref = false;
        } else if (op <= 5) {
            log += "begin_section(" + id + "," + h::show(cat) + ") ";
            h::begin(log);
            int e = h::below(1000);
            m.d().last = id;
            got = st.begin_section(int_value(e), id, id_category(cat), source_mode_info(source_mode_tags::cpp, e));
            want = m.section(id, cat, e);
        } else if (op <= 7) {
            if (m.secs[m.d().sec].level <= level0.back()) continue;
            log += "end_section ";
            h::begin(log);
            st.end_section();
            m.d().sec = m.secs[m.d().sec].up;
            ref = false;
        } else if (op == 8) {
            log += "old_style_id(" + id + "," + h::show(cat) + ") ";
            h::begin(log);
            got = st.old_style_id(id, id_category(cat));
            want = m.f().ver < 103 ? m.put(m.d().last + "." + id, -1) : m.add(m.d().sec, id, cat);
        } else if (op == 9) {
            log += "add_anchor(" + id + ") ";
            h::begin(log);
            got = st.add_anchor(id, id_category(cat));
            want = m.put(id, -1);
        } else {
            log += "add_id(" + id + "," + h::show(cat) + ") ";
            h::begin(log);
            got = st.add_id(id, id_category(cat));
            want = m.add(m.d().sec, id, cat);
        }
        if (ref) h::eq(got, "$" + h::show(want), "the placeholder");
        str xml, w;
        for (size_t i = m.ph.size() > 3 ? m.ph.size() - 3 : 0; i < m.ph.size(); ++i) {
            xml += "<a id=\"$" + h::show((unsigned long)i) + "\"/>";
            w += "<a id=\"" + m.ph[i] + "\"/>";
        }
        h::eq(st.replace_placeholders_with_unresolved_ids(xml), w, "the qualified ids");
        if (m.cur >= 0) {
            Sec const& s = m.secs[m.d().sec];
            h::eq(st.section_level(), s.level, "section_level");
            h::eq(st.compatibility_version(), m.f().ver, "compatibility_version");
            if (s.level > 1) {
                h::eq(st.explicit_id().get_int(), s.expl, "explicit_id");
                h::eq((int)st.section_source_mode().order, s.expl, "section_source_mode");
            }
        }
    }
}

int main(int argc, char** argv)
{
    h::init(argc, argv);
    while (h::time_left()) t_history(3 + h::below(h::chance(20) ? 60 : 14), h::below(3));
    h::report();
    return 0;
}
