// C23: which mold counts for an entry: its own, or else the one of its namespace, with the entry's
// override applied; queries, listings and reads agree on it.
#include "model.h"
#include "text.h"
#include "jsonast.h"
#include <disir/fslib/json.h>
#include <disir/fslib/util.h>
#include <algorithm>
#include <map>
#include <set>
#include <limits.h>
#include <sys/stat.h>

namespace {
struct InstH
{
    struct disir_instance *p = nullptr;
    ~InstH () { if (p) disir_instance_destroy (&p); }
};
bool legal (const std::string& id)
{
    for (char x : id) if (!(x >= 'a' && x <= 'z') && !(x >= '0' && x <= '9') && x != '_' && x != '/') return false;
    return true;
}
J value_json (const Val& v)
{
    switch (v.t)
    {
    case VINT: return J::num (v.i);
    case VFLT: return J::real (v.f);
    case VBOOL: return J::boolean (v.b);
    default: return J::str (v.s);
    }
}
void paths_of (const std::vector<MoldNode>& k, const std::string& prefix, std::vector<std::pair<std::string, const MoldNode *>>& out)
{
    for (auto& n : k)
    {
        if (n.section) paths_of (n.kids, prefix + n.name + ".", out);
        else out.push_back ({ prefix + n.name, &n });
    }
}
std::string gen_override (Src& s, const MoldSpec& ms, const GenOpt& o)
{
    std::vector<std::pair<std::string, const MoldNode *>> paths;
    paths_of (ms.kids, "", paths);
    J doc = J::of (J::OBJ), sync = J::of (J::ARR), over = J::of (J::OBJ), e = J::of (J::OBJ);
    e.m.push_back ({ "override", J::str ("1.0") });
    e.m.push_back ({ "namespace", J::str (ms.version ().str ()) });
    sync.m.push_back ({ "", e });
    int n = s.range (0, 2);
    for (int i = 0; i < n && !paths.empty (); i++)
    {
        auto& p = s.pick (paths);
        if (over.get (p.first)) continue;
        J v = J::of (J::OBJ);
        v.m.push_back ({ "version", J::str ("1.0") });
        v.m.push_back ({ "value", value_json (gen_value (s, p.second->type, o)) });
        over.m.push_back ({ p.first, v });
    }
    doc.m.push_back ({ "sync", sync });
    doc.m.push_back ({ "override", over });
    return json_write (doc);
}
struct File { std::string text; int spec = -1; bool dir = false; };

void run (Ctx& c)
{
    GenOpt o; o.max_depth = 2; o.max_kids = 3; o.strings = c.s.below (2);
    std::string dir = fresh_dir (), base = dir + (c.s.below (2) ? "/m" : "/deep/m");
    InstH inst;
    OKAY (disir_instance_create (NULL, NULL, &inst.p));
    struct disir_register_plugin p = {};
    p.dp_name = (char *) "molds"; p.dp_description = (char *) "molds";
    p.dp_config_entry_type = (char *) "json";
    std::string ext = c.s.below (4) ? "json" : "mold";
    p.dp_mold_entry_type = (char *) ext.c_str ();
    p.dp_config_base_id = strdup ((dir + "/c").c_str ()); p.dp_mold_base_id = strdup (base.c_str ());
    p.dp_mold_read = dio_json_mold_read; p.dp_mold_write = dio_json_mold_write;
    p.dp_mold_entries = dio_json_mold_entries; p.dp_mold_query = dio_json_mold_query;
    OKAY (disir_plugin_register (inst.p, &p, "molds", "g"));

    std::vector<MoldSpec> specs;
    int k = c.s.range (1, 3);
    for (int i = 0; i < k; i++) { specs.push_back (gen_mold (c.s, o)); c.log ("mold %d:\n%s", i, dump (specs.back ()).c_str ()); }
    std::vector<std::string> texts;
    for (auto& s : specs) texts.push_back (json_of_mold (s));
    static const std::vector<std::string> D = { "", "n/", "n/m/", "x_9/" };
    std::map<std::string, File> files;              // below base
    auto put = [&] (const std::string& name, int spec, const std::string& text, bool isdir)
    {
        std::string path = base + "/" + name;
        if (fslib_mkdir_p (instance (), path.substr (0, path.rfind ('/')).c_str ()) != DISIR_STATUS_OK) return;
        File f; f.text = text; f.spec = spec; f.dir = isdir;
        if (isdir ? mkdir (path.c_str (), 0700) == 0 : write_file (path, text)) { files[name] = f; c.log ("%s: %s", name.c_str (), isdir ? "a directory" : spec >= 0 ? fmt ("mold %d", spec).c_str () : quote (text, 300).c_str ()); }
    };
    auto some_mold = [&] (const std::string& name)
    {
        int what = c.s.below (14);
        int i = c.s.below (specs.size ());
        if (what == 13) put (name, -1, "", true);
        else if (what == 12) put (name, -1, texts[i].substr (0, texts[i].size () / 2), false);
        else put (name, i, texts[i], false);
    };
    int n = c.s.range (1, 8);
    for (int i = 0; i < n; i++)
    {
        std::string d = c.s.pick (D), stem = c.s.pick (std::vector<std::string> { "a", "b", "c1" });
        switch (c.s.weighted ({ 4, 4, 4, 1 }))
        {
        case 0: some_mold (d + stem + "." + ext); break;
        case 1: some_mold (d + "__namespace." + ext); break;
        case 2: put (d + stem + ".o." + ext, -1, c.s.below (8) ? gen_override (c.s, c.s.pick (specs), o) : "{}", false); break;
        case 3: put (d + c.s.pick (std::vector<std::string> { "A." + ext, "b c." + ext, "a." + ext + "~", "a.txt", "a.o.txt", "a.o", "q.o." + ext + ".x", ext, "a.b." + ext, "B.o." + ext }), -1, texts[0], false); break;
        }
    }
    auto stem_of = [&] (const std::string& f) -> std::string { return f.size () > ext.size () + 1 && f.substr (f.size () - ext.size () - 1) == "." + ext ? f.substr (0, f.size () - ext.size () - 1) : ""; };

    // what is listed
    std::map<std::string, bool> want;       // name -> covers a namespace
    for (auto& f : files)
    {
        std::string st = stem_of (f.first);
        if (st.empty () || f.second.dir) continue;
        size_t sl = st.rfind ('/');
        std::string d = sl == std::string::npos ? "" : st.substr (0, sl + 1), b = st.substr (d.size ());
        if (b == "__namespace") { want[d.empty () ? "/" : d] = true; continue; }
        if (b.size () > 2 && b.substr (b.size () - 2) == ".o")
        {
            if (!files.count (d + "__namespace." + ext) ) continue;
            st = st.substr (0, st.size () - 2);
        }
        if (legal (st)) want.insert ({ st, false });
    }
    struct disir_entry *e = nullptr;
    enum disir_status st = disir_mold_entries (inst.p, "g", &e);
    REQUIRE (st == DISIR_STATUS_OK, "listing returned %s (%s)", ss (st), disir_error (inst.p));
    std::map<std::string, bool> got;
    std::string twice;
    while (e)
    {
        struct disir_entry *next = e->next;
        if (!got.insert ({ e->de_entry_name, (bool) e->flag.DE_NAMESPACE_ENTRY }).second) twice = e->de_entry_name;
        disir_entry_finished (&e);
        e = next;
    }
    auto text = [] (const std::map<std::string, bool>& m) { std::string r; for (auto& x : m) r += x.first + (x.second ? " (namespace) " : " "); return r; };
    c.log ("listed: %s", text (got).c_str ());
    REQUIRE (got == want, "listed: %s; there are: %s", text (got).c_str (), text (want).c_str ());
    REQUIRE (twice.empty (), "%s is listed twice", twice.c_str ());

    // every name: the ones listed, the ones that may be covered, and others
    std::set<std::string> ids { "a", "n/a", "n/b", "n/m/a", "n/m/", "n/", "/", "x_9/c1", "n", "y/a", "n/m/k/a" };
    for (auto& w : want) ids.insert (w.first);
    if (c.s.below (3) == 2) ids.insert (c.s.pick (std::vector<std::string> { "A", "n/../a", "../m/a", "a.o", "a b", "\xc3\xa9", "n/a.json", "*", "a\\b" }));
    if (c.s.below (6) == 5)
    {
        // just about as long as a path may be
        size_t len = PATH_MAX - base.size () - c.s.below (48);
        int at = c.s.below (40);        // where its last slash is, from the end
        std::string x;
        while (x.size () + 100 < len) x += std::string (49, 'a') + "/";
        while (x.size () < len) x += x.size () + at + 1 == len ? "/" : "b";
        ids.insert (x);
        c.label ("long");
    }
    size_t b0 = 0;
    for (auto& id : ids)
    {
        size_t sl = id.rfind ('/');
        std::string d = sl == std::string::npos ? "" : id.substr (0, sl + 1);
        if (d == "/") d = "";
        std::string norm = id[0] == '/' ? id.substr (1) : id;
        std::string own = norm + "." + ext, ns = d + "__namespace." + ext, ov = norm + ".o." + ext;
        bool has_own = files.count (own), has_ns = files.count (ns), has_ov = files.count (ov);
        bool covered = legal (id) && (has_own || has_ns);
        std::string nm = id.size () > 100 ? fmt ("(%zu bytes)", id.size ()) : id;
        struct disir_entry *q = nullptr;
        st = disir_mold_query (inst.p, "g", id.c_str (), &q);
        if (!legal (id)) REQUIRE (st == DISIR_STATUS_RESTRICTION_VIOLATED, "a query for \"%s\" returned %s", nm.c_str (), ss (st));
        else if (id.size () > 1000) REQUIRE (st != DISIR_STATUS_EXISTS && st != DISIR_STATUS_OK, "a query for \"%s\" returned %s", nm.c_str (), ss (st));
        else REQUIRE (st == (covered ? DISIR_STATUS_EXISTS : DISIR_STATUS_NOT_EXIST), "a query for \"%s\" returned %s, the mold is %s", nm.c_str (), ss (st), covered ? "there" : "not there");
        REQUIRE (!q == !covered, "a query for \"%s\" returned %s and %s entry", nm.c_str (), ss (st), q ? "an" : "no");
        if (q)
        {
            std::string name = q->de_entry_name ? q->de_entry_name : "";
            bool fo = q->flag.DE_OVERRIDE, fn = q->flag.DE_NAMESPACE_ENTRY;
            disir_entry_finished (&q);
            REQUIRE (name == id, "the entry for \"%s\" is named \"%s\"", nm.c_str (), name.c_str ());
            REQUIRE (fo == has_ov, "the entry for \"%s\" is said %sto have an override", nm.c_str (), fo ? "" : "not ");
            REQUIRE (fn == (!has_own && has_ns && !has_ov), "the entry for \"%s\" is said %sto be covered by a namespace only", nm.c_str (), fn ? "" : "not ");
        }
        // read
        MoldH m, w;
        st = disir_mold_read (inst.p, "g", id.c_str (), &m.p);
        if (!covered)
        {
            REQUIRE (st != DISIR_STATUS_OK && !m.p, "reading the mold \"%s\", which is not there, returned %s", nm.c_str (), ss (st));
            continue;
        }
        const std::string& file = has_own ? own : ns;
        const File& f = files[file];
        std::string copy = dir + "/copy.x", ocopy = dir + "/copy.o.x";
        enum disir_status ws = DISIR_STATUS_FS_ERROR;
        if (!f.dir)
        {
            write_file (copy, f.text);
            if (has_ov) write_file (ocopy, files[ov].text);
            ws = dio_json_unserialize_mold_filepath (instance (), copy.c_str (), has_ov ? ocopy.c_str () : nullptr, &w.p);
        }
        c.log ("%s: %s%s: %s", id.c_str (), file.c_str (), has_ov ? " and its override" : "", ss (st));
        if (f.dir || (has_ov && files[ov].dir)) { REQUIRE (st != DISIR_STATUS_OK && !m.p, "reading the mold \"%s\", a directory, returned %s", nm.c_str (), ss (st)); continue; }
        REQUIRE (st == ws && !m.p == !w.p, "reading the mold \"%s\" returned %s and %s mold, reading %s%s returns %s and %s", nm.c_str (), ss (st), m.p ? "a" : "no", file.c_str (), has_ov ? " and its override" : "", ss (ws), w.p ? "one" : "none");
        if (m.p)
        {
            std::string a = dump (observe_mold (w.p)), b = dump (observe_mold (m.p));
            REQUIRE (a == b, "the mold \"%s\" is not that of %s: %s", nm.c_str (), file.c_str (), dump_diff (a, b).c_str ());
            if (f.spec >= 0 && !has_ov) REQUIRE (b == dump (specs[f.spec]), "the mold \"%s\": %s", nm.c_str (), dump_diff (dump (specs[f.spec]), b).c_str ());
            c.label (has_own ? has_ov ? "own + override" : "own" : has_ov ? "namespace + override" : "namespace");
            if (has_ns && has_own) c.nontrivial ("own over namespace");
            if (has_ov) c.nontrivial ();
            if (!has_own && d.size ()) c.nontrivial ("namespace below");
        }
    }
    // resolving the path of a mold file
    for (auto& f : files)
    {
        std::string s = stem_of (f.first);
        if (s.empty () || f.second.dir) continue;
        size_t sl = s.rfind ('/');
        std::string d = sl == std::string::npos ? "" : s.substr (0, sl + 1), b = s.substr (d.size ());
        bool ov = b.size () > 2 && b.substr (b.size () - 2) == ".o";
        std::string own = ov ? s.substr (0, s.size () - 2) + "." + ext : f.first, ns = d + "__namespace." + ext;
        std::string want_file = files.count (own) ? own : files.count (ns) ? ns : "";
        char fp[PATH_MAX], op[PATH_MAX];
        struct stat sb;
        int nsent = 0;
        std::string full = base + "/" + f.first;
        st = fslib_mold_resolve_entry_filepath (instance (), full.c_str (), fp, op, &sb, &nsent);
        REQUIRE ((st == DISIR_STATUS_OK) == !want_file.empty (), "resolving the file %s returned %s (%s)", f.first.c_str (), ss (st), fp);
        if (st != DISIR_STATUS_OK) continue;
        REQUIRE (base + "/" + want_file == fp, "the mold of the file %s is %s, not %s", f.first.c_str (), fp, want_file.c_str ());
        REQUIRE (ov ? full == op : !*op, "the override of the file %s is %s", f.first.c_str (), op);
    }
    (void) b0;
}
}
Property property = { "C23",
    "a tree of up to 8 mold files in 4 directories: molds, namespace molds, overrides, broken files, directories in their place, other files; every name is listed, queried and read; non-trivial: a mold from a namespace below the top, an override, or an own mold hiding a namespace's",
    run, 6000, 80000, {}, make_instance };
