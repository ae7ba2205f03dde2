// C26: archives nobody made with this library: damaged, or made to do harm.
#include "systems.h"
#include "jsonast.h"
#include <disir/version.h>

namespace {
std::string quoted (const std::string& s) { std::string r = "\""; for (char ch : s) { if (ch == '"' || ch == '\\') r += '\\'; r += ch; } return r + "\""; }
struct Plan
{
    std::vector<Group> groups; std::vector<std::vector<std::pair<std::string, CfgSpec>>> stored;   // what the system has
    std::vector<Member> members;
    bool xz = false;
    std::vector<std::pair<size_t, int>> flips;      // of the written file: offset (modulo its size), value; -1 cuts it there
    std::vector<int> opts; bool drop = false, extend = false, to_new = false; int eg = 0, ee = 0; std::string spelled;
};
typedef std::map<std::string, std::string> Tree;

struct Run
{
    Ctx& c; const Plan& plan; std::string dir; System sys;
    Run (Ctx& x, const Plan& p) : c (x), plan (p) {}
    struct Listed { std::string group, id, version; enum disir_status st; };
    void clean (const char *what, const Tree& before, int fds)
    {
        Tree now = snapshot_tree (dir);
        for (auto& x : now) REQUIRE (before.count (x.first) && before.at (x.first) == x.second, "%s wrote %s", what, x.first.c_str ());
        for (auto& x : before) REQUIRE (now.count (x.first), "%s removed %s", what, x.first.c_str ());
        auto left = temporaries (); clear_temporaries ();
        REQUIRE (left.empty (), "%s left /tmp/%s behind", what, left[0].c_str ());
        REQUIRE (open_fds () == fds, "%s left %d descriptors open", what, open_fds () - fds);
    }
    std::vector<Listed> list (struct disir_import *imp, int n)
    {
        std::vector<Listed> r;
        for (int i = 0; i < n; i++)
        {
            const char *id = nullptr, *g = nullptr, *v = nullptr, *info = nullptr;
            enum disir_status st = disir_import_entry_status (imp, i, &id, &g, &v, &info);
            REQUIRE (id && g && v, "entry %d has no %s", i, !id ? "name" : !g ? "group" : "version");
            REQUIRE (st == DISIR_STATUS_OK || st == DISIR_STATUS_CONFLICT || st == DISIR_STATUS_CONFLICTING_SEMVER || st == DISIR_STATUS_NO_CAN_DO || st == DISIR_STATUS_CONFIG_INVALID, "entry %d is %s", i, ss (st));
            r.push_back ({ g, id, v, st });
        }
        return r;
    }
    void play (bool first);
};
void Run::play (bool first)
{
    dir = fresh_dir (); clear_temporaries ();
    // the directory from which the archive climbs and the files it aims at
    mkdir ((dir + "/victim").c_str (), 0700);
    write_file (dir + "/victim/f", "mine"); write_file (dir + "/victim/a.json", "{}");
    if (chdir ((dir + "/victim").c_str ())) fail ("HARNESS: chdir");
    sys.dir = dir + "/sys"; sys.groups = plan.groups;
    for (size_t g = 0; g < plan.groups.size (); g++)
    {
        for (auto& m : plan.groups[g].molds) sys.put_mold (g, m.first, m.second);
        for (auto& s : plan.stored[g]) System::put (sys.config_file (g, s.first), json_of (grouped (s.second, 1)));
    }
    sys.open ();
    // names hold placeholders, so that what is drawn does not depend on where this runs
    auto place = [&] (std::string s)
    {
        auto sub = [&] (const std::string& a, const std::string& b) { for (size_t i; (i = s.find (a)) != std::string::npos;) s.replace (i, a.size (), b); };
        sub ("%V", dir + "/victim"); sub ("%R", "../../../../../.." + dir + "/victim");
        return s;
    };
    std::vector<Member> m = plan.members;
    for (auto& x : m) { x.name = place (x.name); x.link = place (x.link); x.data = place (x.data); }
    std::string a = dir + "/a.disir";
    write_archive (a, m, plan.xz);
    if (!plan.flips.empty ())
    {
        std::string raw; read_file (a, raw);
        for (auto& f : plan.flips) if (!raw.empty ()) { size_t at = f.first % raw.size (); if (f.second < 0) raw.resize (at); else raw[at] = (char) f.second; }
        write_file (a, raw);
    }
    Tree before = snapshot_tree (dir);
    int fds = open_fds (), n = -1;
    std::vector<Listed> entries;
    enum disir_status st, imported;
    {
        ImportH own (sys.p);
        imported = disir_archive_import (sys.p, a.c_str (), &own.p, &n);
        if (c.verbose) c.log ("import: %s, %d entries", ss (imported), own.p ? n : -1);
        REQUIRE ((imported == DISIR_STATUS_OK) == (own.p != nullptr), "the import returned %s and %s", ss (imported), own.p ? "something" : "nothing");
        clean ("the import", before, fds);
        if (own.p)
        {
            if (first) c.label (n ? "imported" : "imported: nothing");
            entries = list (own.p, n);
            for (int i = 0; i < n; i++)
            {
                st = disir_import_resolve_entry (own.p, i, (enum disir_import_option) plan.opts[i % plan.opts.size ()]);
                if (c.verbose) c.log ("%s of %s: %s, resolved %d: %s", quote (entries[i].id).c_str (), quote (entries[i].group).c_str (), ss (entries[i].st), plan.opts[i % plan.opts.size ()], ss (st));
            }
            clean ("resolving", before, fds);
            struct import_report *rep = nullptr;
            st = disir_import_finalize (sys.p, plan.drop ? DISIR_IMPORT_DISCARD : DISIR_IMPORT_DO, &own.p, &rep);
            REQUIRE (st == DISIR_STATUS_OK && !own.p, "finalizing the import returned %s", ss (st));
            if (plan.drop) clean ("the import that was given up", before, fds);
            else
            {
                REQUIRE (rep && rep->ir_entries == n, "%d entries are reported of %d", rep ? rep->ir_entries : -1, n);
                for (int i = 0; i < n; i++) REQUIRE (rep->ir_entry[i], "entry %d is not reported", i);
                disir_import_report_destroy (&rep);
                // What was written are valid configurations of entries with a mold, where they belong
                std::map<std::string, std::pair<size_t, std::string>> may;
                for (size_t g = 0; g < plan.groups.size (); g++) for (auto& x : plan.groups[g].molds) may[sys.config_file (g, x.first).substr (dir.size () + 1)] = { g, x.first };
                Tree now = snapshot_tree (dir);
                for (auto& x : before) REQUIRE (now.count (x.first), "the import removed %s", x.first.c_str ());
                for (auto& x : now)
                {
                    if (before.count (x.first) && before[x.first] == x.second) continue;
                    if (!x.first.empty () && x.first.back () == '/') { REQUIRE (x.first.compare (0, 5, "sys/c") == 0, "the import made %s", x.first.c_str ()); continue; }
                    REQUIRE (may.count (x.first), "the import wrote %s", x.first.c_str ());
                    auto& w = may[x.first];
                    ConfigH cf;
                    st = disir_config_read (sys.p, plan.groups[w.first].name.c_str (), w.second.c_str (), nullptr, &cf.p);
                    REQUIRE (st == DISIR_STATUS_OK, "the import wrote %s, which is read as %s", x.first.c_str (), ss (st));
                    if (first) { c.label ("written"); c.nontrivial (); }
                }
                before = now;
                clean ("the finished import", before, fds);
            }
        }
    }
    if (!plan.extend) return;
    struct disir_archive *ar = nullptr;
    st = disir_archive_export_begin (sys.p, a.c_str (), &ar);
    if (c.verbose) c.log ("extend: %s", ss (st));
    REQUIRE ((st == DISIR_STATUS_OK) == (ar != nullptr), "opening the archive returned %s and %s", ss (st), ar ? "something" : "nothing");
    REQUIRE (snapshot_tree (dir) == before, "opening the archive changed files");
    if (!ar) { clean ("opening the archive", before, fds); return; }
    if (first) c.label ("opened");
    enum disir_status app = disir_archive_append_entry (sys.p, ar, plan.groups[plan.eg].name.c_str (), plan.stored[plan.eg][plan.ee].first.c_str ());
    if (c.verbose) c.log ("append %s: %s", plan.stored[plan.eg][plan.ee].first.c_str (), ss (app));
    st = disir_archive_finalize (sys.p, plan.to_new ? (dir + "/b").c_str () : a.c_str (), &ar);
    if (c.verbose) c.log ("finalize: %s", ss (st));
    REQUIRE (!ar, "finalize returned %s and kept the archive", ss (st));
    std::string made = plan.to_new ? "b.disir" : "a.disir";
    if (st != DISIR_STATUS_OK) { if (first) c.label ("extended: refused"); clean ("the failed finalize", before, fds); return; }
    Tree now = snapshot_tree (dir);
    REQUIRE (now.count (made), "there is no archive");
    before[made] = now[made];
    if (plan.to_new) before.erase ("a.disir");
    clean ("finalize", before, fds);
    ImportH own (sys.p);
    st = disir_archive_import (sys.p, (dir + "/" + made).c_str (), &own.p, &n);
    REQUIRE (st == DISIR_STATUS_OK, "the extended archive is imported as %s, the one before as %s", ss (st), ss (imported));
    auto got = list (own.p, n);
    std::set<std::pair<std::string, std::string>> have;
    for (auto& g : got) have.insert ({ g.group, g.id });
    if (imported == DISIR_STATUS_OK) for (auto& e : entries) REQUIRE (have.count ({ e.group, e.id }), "the extended archive misses %s of %s", quote (e.id).c_str (), quote (e.group).c_str ());
    if (app == DISIR_STATUS_OK) REQUIRE (have.count ({ plan.groups[plan.eg].name, plan.stored[plan.eg][plan.ee].first }), "the extended archive misses what was appended");
    if (first) { c.label ("extended"); if (!entries.empty ()) c.nontrivial (); }
    own.~ImportH (); own.p = nullptr;
    clean ("the last import", before, fds);
}

void run (Ctx& c)
{
    Plan p;
    GenOpt o;
    o.max_depth = 2; o.max_kids = 3; o.max_entries = 2; o.strings = c.s.range (0, 2);
    int ng = c.s.range (1, 2);
    static const char *names[] = { "g", "my group" }, *ids[] = { "a", "b", "a/c" };
    std::map<std::string, std::map<std::string, std::vector<std::pair<std::string, std::string>>>> by;
    for (int g = 0; g < ng; g++)
    {
        Group x; x.name = names[g]; x.backend = c.s.below (3) == 2 ? "JSON Config" : "JSON";
        p.stored.push_back ({});
        for (int i = 0; i < 3; i++)
        {
            MoldSpec m = gen_mold (c.s, o);
            x.molds[ids[i]] = m;
            CfgSpec cf = gen_config (c.s, m, gen_version_of (c.s, m), o);
            if (i == 0 || c.s.below (2)) p.stored[g].push_back ({ ids[i], cf });
            if (c.s.below (4) != 3) { CfgSpec y = c.s.below (2) ? cf : gen_config (c.s, m, gen_version_of (c.s, m), o); by[x.backend][x.name].push_back ({ ids[i], json_of (grouped (y, 1)) }); }
        }
        p.groups.push_back (x);
    }
    std::string meta = "implementation = \"" + std::string (libdisir_version_string) + "\"\ndisir_org_version = \"0/1-draft\"\n";
    std::vector<Member> cm;
    for (auto& b : by)
    {
        std::string gs, index;
        for (auto& g : b.second)
        {
            gs += (gs.empty () ? "" : ", ") + quoted (g.first);
            index += "[" + quoted (g.first) + "]\n";
            for (auto& e : g.second) { index += quoted (e.first) + " = \"" + (e.second.size () > 20 ? "1.0" : "1.1") + "\"\n"; Member x; x.name = b.first + "/" + g.first + "/" + e.first; x.data = e.second; cm.push_back (x); }
        }
        meta += "[[backend]]\nid = " + quoted (b.first) + "\ngroups = [" + gs + "]\n";
        Member x; x.name = b.first + "/entries.toml"; x.data = index; cm.push_back (x);
    }
    { Member x; x.name = "metadata.toml"; x.data = meta; cm.insert (cm.begin (), x); }
    p.members = cm;
    std::vector<std::string> tok { "backend", "id", "groups", "[[backend]]", "[]", "\"g\"", "\"a\"", "\"my group\"", "[g]", "\"1.0\"", "1", "= ", "\n", "JSON", "entries.toml", "metadata.toml", "../", "/", "implementation", "disir_org_version", "true", "1979-05-27T07:32:00Z", "[\"g\"]", "\"../../x\" = \"1.0\"\n", "\"%R/a\" = \"1.0\"\n", "\"a\" = 5\n", "\"\" = \"\"\n", "{", "}", "null" };
    auto name = [&] () -> std::string
    {
        static const char *n[] = { "metadata.toml", "JSON/entries.toml", "JSON/g/a", "JSON/g/b", "JSON/g/x", "JSON/none/a", "JSON/entries", "JSON", "JSON/", "JSON/g", "", "/", ".", "..", "./JSON/g/a", "JSON//g/a", "JSON/g/../g/b",
            "../f", "%V/f", "%V/new", "%R/f", "%R/new", "JSON/g/../../../f", "link/f", "link/new", "link", "JSON/g/a/c", "JSON/g/b/c", "metadata.toml/x", "Other/entries.toml", "Other/g/a" };
        size_t i = c.s.below (sizeof n / sizeof *n + 2);
        if (i < sizeof n / sizeof *n) return n[i];
        if (i == sizeof n / sizeof *n) return std::string (c.s.range (200, 6000), 'n');
        std::string r; for (int k = c.s.range (1, 300); k > 0; k--) r += "d/"; return r + "f";
    };
    int n = c.s.weighted ({ 2, 6, 4, 2, 1 });
    for (int i = 0; i < n; i++)
    {
        auto& m = p.members;
        size_t k = m.empty () ? 0 : c.s.below (m.size ());
        switch (c.s.weighted ({ 6, 3, 3, 2, 2, 3, 2, 3 }))
        {
        case 0: if (!m.empty ()) { size_t q = c.s.below (3) ? k : 0; for (size_t z = 0; z < m.size () && c.s.below (2); z++) if (m[z].name.find (".toml") != std::string::npos) { q = z; break; } c.log ("in %s: %s", quote (m[q].name).c_str (), text_mutate (c.s, m[q].data, tok).c_str ()); } break;
        case 1: if (!m.empty ()) { m[k].name = name (); c.log ("a member becomes %s", quote (m[k].name).c_str ()); } break;
        case 2:
        {
            Member x; x.name = name (); x.data = m.empty () ? "x" : m[k].data;
            m.insert (m.begin () + c.s.below (m.size () + 1), x); c.log ("one more member %s", quote (x.name).c_str ());
            break;
        }
        case 3: if (!m.empty ()) { c.log ("without %s", quote (m[k].name).c_str ()); m.erase (m.begin () + k); } break;
        case 4: if (!m.empty ()) { Member x = m[k]; if (c.s.below (2)) x.data = m[c.s.below (m.size ())].data; m.push_back (x); c.log ("twice %s", quote (x.name).c_str ()); } break;
        case 5:
        {
            // a link, and something written through it
            Member x; x.name = c.s.below (2) ? name () : "link"; x.type = AE_IFLNK; x.hard = c.s.below (4) == 3;
            static const char *to[] = { "%V", "%R", "%V/f", "%R/f", "..", "/", "metadata.toml", "link", "." };
            x.link = to[c.s.below (9)];
            m.insert (m.begin () + c.s.below (m.size () + 1), x);
            Member y; y.name = x.name + (c.s.below (2) ? "/f" : c.s.below (2) ? "/new" : ""); y.data = "taken";
            m.push_back (y);
            c.log ("%s %s to %s, then %s", x.hard ? "a hard link" : "a link", quote (x.name).c_str (), quote (x.link).c_str (), quote (y.name).c_str ());
            break;
        }
        case 6:
        {
            if (m.empty ()) break;
            static const int types[] = { AE_IFDIR, AE_IFIFO, AE_IFCHR, AE_IFSOCK, AE_IFBLK };
            m[k].type = types[c.s.below (5)]; m[k].mode = c.s.below (2) ? 0644 : c.s.below (010000); c.log ("%s becomes of type %o", quote (m[k].name).c_str (), m[k].type);
            break;
        }
        default: if (!m.empty ()) { m[k].mode = c.s.below (010000); c.log ("%s gets mode %o", quote (m[k].name).c_str (), m[k].mode); } break;
        }
    }
    p.xz = c.s.below (6) == 5;
    if (c.s.below (6) == 5) for (int i = c.s.range (1, 3); i > 0; i--) { p.flips.push_back ({ c.s.below (1 << 20), c.s.below (4) == 3 ? -1 : (int) c.s.below (256) }); c.log ("byte %zu becomes %d", p.flips.back ().first, p.flips.back ().second); }
    static const int opts[] = { DISIR_IMPORT_FORCE, DISIR_IMPORT_DO, DISIR_IMPORT_UPDATE_WITH_DISCARD, DISIR_IMPORT_DISCARD };
    for (int i = c.s.range (1, 3); i > 0; i--) p.opts.push_back (opts[c.s.weighted ({ 6, 2, 2, 1 })]);
    p.drop = c.s.below (10) == 9; p.extend = c.s.below (2); p.to_new = c.s.below (2);
    p.eg = c.s.below (ng); p.ee = c.s.below (p.stored[p.eg].size ());
    c.log ("%s%s%s", p.xz ? "compressed, " : "", p.drop ? "given up, " : "", p.extend ? "extended" : "");
    if (c.verbose) for (auto& m : p.members) c.log ("member %s type %o mode %o:\n%s", quote (m.name).c_str (), m.type, m.mode, quote (m.data).c_str ());
    { Run r (c, p); r.play (true); }
    bool v = c.verbose; c.verbose = false;
    auto again = [&] { Run r (c, p); r.play (false); };
    if (c.s.below (3) == 2)
    {
        again ();
        size_t b0 = heap_bytes (); again (); size_t b1 = heap_bytes ();
        if (b1 > b0) { again (); size_t b2 = heap_bytes (); if (b2 > b1) { again (); size_t b3 = heap_bytes (); REQUIRE (b3 <= b2, "%zu bytes are lost", b3 - b2); } }
        c.label ("leaks");
    }
    c.verbose = v;
}
}
Property property = { "C26",
    "archives of 1-2 groups whose members are renamed (also out of the archive), doubled, left out, linked, of other types or with changed contents, and whose bytes are changed or cut; imported with random resolutions, and extended; non-trivial: something was written to the system, or an archive with entries was extended",
    run, 4000, 40000, {}, make_instance, true };
