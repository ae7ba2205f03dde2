// C21, C22: a filesystem store of configurations against a map: what was written is what is read,
// listed and removed, whatever happened in between; an operation that fails changes nothing.
#include "model.h"
#include "text.h"
#include <disir/fslib/json.h>
#include <disir/fslib/toml.h>
#include <disir/fslib/util.h>
#include <algorithm>
#include <dirent.h>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

// A crash is the process ending just before its n-th call that changes a file.
static long g_crash_at = -1;
static void crash_point () { if (g_crash_at >= 0 && g_crash_at-- == 0) _exit (7); }
extern "C" {
ssize_t __real_write (int, const void *, size_t);
ssize_t __wrap_write (int fd, const void *p, size_t n) { crash_point (); return __real_write (fd, p, n); }
int __real_rename (const char *, const char *);
int __wrap_rename (const char *a, const char *b) { crash_point (); return __real_rename (a, b); }
int __real_fclose (FILE *);
int __wrap_fclose (FILE *f) { crash_point (); return __real_fclose (f); }
int __real_unlink (const char *);
int __wrap_unlink (const char *p) { crash_point (); return __real_unlink (p); }
int __real_remove (const char *);
int __wrap_remove (const char *p) { crash_point (); return __real_remove (p); }
int __real_mkdir (const char *, mode_t);
int __wrap_mkdir (const char *p, mode_t m) { crash_point (); return __real_mkdir (p, m); }
}

namespace {
struct InstH
{
    struct disir_instance *p = nullptr;
    ~InstH () { if (p) disir_instance_destroy (&p); }
};
enum disir_status no_molds_plugin (struct disir_instance *) { return DISIR_STATUS_OK; }

struct Store
{
    Ctx& c;
    bool toml;
    std::string dir, cb, mb, cext;
    InstH inst;
    std::map<std::string, std::string> files;           // below dir, as they must be
    std::map<std::string, MoldSpec> molds;              // by file name below mb, without the suffix
    std::set<std::string> blocked;                      // outside interference: what happens there is only half specified
    std::vector<MoldSpec> specs;
    std::vector<std::unique_ptr<MoldH>> objs;
    GenOpt o;

    Store (Ctx& x, bool t) : c (x), toml (t) {}
    ~Store () { for (auto& b : locked) chmod (b.c_str (), 0700); }
    std::vector<std::string> locked;

    std::string config_file (const std::string& id) { return cb + "/" + id + cext; }
    std::string mold_file (const std::string& id) { return mb + "/" + id + ".json"; }
    static bool legal (const std::string& id)
    {
        for (char x : id) if (!(x >= 'a' && x <= 'z') && !(x >= '0' && x <= '9') && x != '_' && x != '/') return false;
        return true;
    }
    // the name the file system resolves the id to
    static std::string nid (const std::string& id)
    {
        std::string p = canon (id);
        return !p.empty () && p[0] == '/' ? p.substr (1) : p;
    }
    // the mold that counts for the entry
    const MoldSpec *mold_of (const std::string& id)
    {
        auto it = molds.find (id);
        if (it != molds.end ()) return &it->second;
        size_t s = id.rfind ('/');
        it = molds.find ((s == std::string::npos ? "" : id.substr (0, s + 1)) + "__namespace");
        return it == molds.end () ? nullptr : &it->second;
    }
    std::string serialize (struct disir_config *cfg, enum disir_status& st)
    {
        return with_output ([&] (FILE *f) { st = (toml ? dio_toml_serialize_config : dio_json_serialize_config) (instance (), cfg, f); });
    }
    void tree (const char *when, bool crashed = false, const std::string& target = "", const std::string& fresh = "")
    {
        auto now = snapshot_tree (dir);
        if (crashed)
        {
            // what a crash may leave: the entry as before or as written, and files that are no entries
            for (auto it = now.begin (); it != now.end ();)
            {
                bool entry = it->first.size () > 5 && it->first.substr (it->first.size () - 5) == (toml ? ".toml" : ".json");
                if (!files.count (it->first) && it->first != target && !entry) { unlink ((dir + "/" + it->first).c_str ()); it = now.erase (it); }
                else ++it;
            }
            auto t = now.find (target);
            if (t != now.end () && t->second == fresh && (!files.count (target) || files[target] != fresh)) { files[target] = fresh; c.label ("crash: new"); }
            else c.label ("crash: old");
        }
        for (auto& f : files)
        {
            auto it = now.find (f.first);
            REQUIRE (it != now.end (), "%s: %s is gone", when, f.first.c_str ());
            REQUIRE (it->second == f.second, "%s: %s holds %s, not %s", when, f.first.c_str (), quote (it->second).c_str (), quote (f.second).c_str ());
        }
        for (auto& f : now) REQUIRE (files.count (f.first), "%s: %s was made", when, f.first.c_str ());
    }
    std::string rel (const std::string& abs) { return abs.substr (dir.size () + 1); }
    // the file's name as the file system sees it (a//b is a/b)
    static std::string canon (std::string p)
    {
        size_t at;
        while ((at = p.find ("//")) != std::string::npos) p.erase (at, 1);
        return p;
    }
    bool blocked_path (const std::string& abs)
    {
        std::string p = canon (abs);
        for (auto& b : blocked) if (p == b || p.compare (0, b.size () + 1, b + "/") == 0) return true;
        return false;
    }
    std::string pick_id ()
    {
        static const std::vector<std::string> ok = { "a", "b", "n/a", "n/b", "n/m/a", "x_1/y9/z", "n", "n/m/k/a", "d/e/f/g/h" };
        static const std::vector<std::string> odd = { "A", "../x", "a b", "a.b", "n/", "/", "", "/a", "n//a", "a.json", "n/../a", "\xc3\xa9" };
        int how = c.s.below (10);
        if (how == 9) return c.s.pick (odd);
        if (how >= 6 || how == 0) return c.s.pick (ok);
        // one that is there
        std::vector<std::string> there;
        for (auto& f : files)
        {
            std::string p = dir + "/" + f.first;
            if (!p.compare (0, cb.size () + 1, cb + "/") && p.size () > cb.size () + 1 + cext.size () && p.substr (p.size () - cext.size ()) == cext)
                there.push_back (p.substr (cb.size () + 1, p.size () - cb.size () - 1 - cext.size ()));
        }
        return there.empty () ? c.s.pick (ok) : c.s.pick (there);
    }
    void write_mold ()
    {
        static const std::vector<std::string> ids = { "a", "b", "n/a", "n/__namespace", "__namespace", "n/m/__namespace", "x_1/y9/__namespace", "n", "n/m/k/__namespace", "d/e/f/g/__namespace" };
        static const std::vector<std::string> odd = { "A", "a b", "a.b", "../y", "n//a", "a.o" };
        bool o_ = c.s.below (12) == 11;
        std::string id = o_ ? c.s.pick (odd) : c.s.pick (ids);
        size_t k = c.s.below (specs.size ());
        enum disir_status st = disir_mold_write (inst.p, "g", id.c_str (), objs[k]->p);
        c.log ("mold %zu written to \"%s\": %s", k, id.c_str (), ss (st));
        std::string path = canon (mold_file (id));
        if (o_ && id != "n//a") REQUIRE (st != DISIR_STATUS_OK, "a mold was written to \"%s\", which is no name", id.c_str ());
        else if (!blocked_path (path)) REQUIRE (st == DISIR_STATUS_OK, "writing the mold \"%s\" returned %s (%s)", id.c_str (), ss (st), disir_error (inst.p));
        if (st == DISIR_STATUS_OK)
        {
            enum disir_status t = DISIR_STATUS_OK;
            files[rel (path)] = with_output ([&] (FILE *f) { t = dio_json_serialize_mold (instance (), objs[k]->p, f); });
            REQUIRE (t == DISIR_STATUS_OK, "writing the mold elsewhere returned %s", ss (t));
            if (id == "n//a") id = "n/a";
            molds[id] = specs[k];
        }
        tree ("after writing a mold");
    }
    // outcome of a write: 0 not specified, 1 has to work, 2 has to fail
    int writable (const std::string& id, enum disir_status& want)
    {
        want = DISIR_STATUS_OK;
        if (id.empty () || id.back () == '/') { want = DISIR_STATUS_FS_ERROR; return 2; }
        if (!legal (id)) { want = DISIR_STATUS_RESTRICTION_VIOLATED; return 2; }
        if (blocked_path (mold_file (id))) return 0;
        if (!mold_of (nid (id))) { want = DISIR_STATUS_MOLD_MISSING; return 2; }
        if (blocked_path (config_file (id))) return 0;
        return 1;
    }
    void write_config (int fault)       // 0 none, 1 the disk is full, 2 a crash
    {
        std::string id = pick_id ();
        // mostly of the mold that is read back with
        size_t k = c.s.below (specs.size ());
        if (auto m = mold_of (nid (id))) if (c.s.below (4)) for (size_t i = 0; i < specs.size (); i++) if (dump (specs[i]) == dump (*m)) { k = i; break; }
        MoldSpec& ms = specs[k];
        CfgSpec cs = gen_config (c.s, ms, gen_version_of (c.s, ms), o);
        bool broken = c.s.below (5) == 4;
        if (broken) mutate_config (c.s, ms, cs, 1 + c.s.below (2), o, false);
        enum disir_status built;
        ConfigH cfg (build_config_lax (objs[k]->p, cs, &built));
        if (!cfg.p) return;
        enum disir_status can, want;
        std::string text = serialize (cfg.p, can);
        int w = writable (id, want);
        if (w == 1 && can != DISIR_STATUS_OK) { w = 2; want = can; }
        std::string path = canon (config_file (id)), file = rel (path);
        bool had = files.count (file);
        if (broken) c.label ("an invalid configuration");
        if (can != DISIR_STATUS_OK) c.label ("not to be written");
        if (had) c.label ("over another");
        c.log ("write \"%s\", mold %zu, %s%s:", id.c_str (), k, broken ? "broken, " : "", quote (text, 300).c_str ());
        if (fault == 2)
        {
            int at = c.s.below (c.s.below (2) ? 5 : 60);
            pid_t pid = fork ();
            if (pid == 0) { g_crash_at = at; disir_config_write (inst.p, "g", id.c_str (), cfg.p); _exit (0); }
            int status = 0;
            REQUIRE (pid > 0, "HARNESS: fork failed");
            waitpid (pid, &status, 0);
            REQUIRE (WIFEXITED (status), "HARNESS: the writer died");
            if (WEXITSTATUS (status) == 7) { c.label ("crash"); if (had) c.nontrivial ("crash over another"); }
            c.log ("  crash before change %d: %d", at, WEXITSTATUS (status));
            bool may = w != 2;
            tree ("after a crash", true, may ? file : "", text);
            return;
        }
        struct rlimit rl, low;
        getrlimit (RLIMIT_FSIZE, &rl);
        size_t room = 0;
        if (fault == 1)
        {
            room = c.s.below (2) ? c.s.below (text.size () + 2) : 0;
            low = rl; low.rlim_cur = room;
            setrlimit (RLIMIT_FSIZE, &low);
        }
        enum disir_status st = disir_config_write (inst.p, "g", id.c_str (), cfg.p);
        if (fault == 1)
        {
            setrlimit (RLIMIT_FSIZE, &rl);
            c.log ("  with room for %zu bytes of %zu", room, text.size ());
            if (room < text.size () && w != 2)
            {
                c.label ("no room"); if (had) c.nontrivial ("no room over another");
                REQUIRE (st != DISIR_STATUS_OK, "there was no room to write \"%s\", but writing returned OK", id.c_str ());
                w = 0;
            }
        }
        c.log ("  %s (%s)", ss (st), disir_error (inst.p) ? disir_error (inst.p) : "");
        if (w == 1) REQUIRE (st == DISIR_STATUS_OK, "writing \"%s\" returned %s (%s)", id.c_str (), ss (st), disir_error (inst.p));
        if (w == 2) REQUIRE (st == want, "writing \"%s\" returned %s, not %s", id.c_str (), ss (st), ss (want));
        if (st == DISIR_STATUS_OK) files[file] = text;
        tree ("after writing");
        if (st == DISIR_STATUS_OK && !broken && w == 1)
        {
            const MoldSpec *m = mold_of (nid (id));
            if (m && dump (*m) == dump (ms))
            {
                ConfigH got;
                st = disir_config_read (inst.p, "g", id.c_str (), nullptr, &got.p);
                REQUIRE (st == DISIR_STATUS_OK, "reading \"%s\" right after returned %s (%s)", id.c_str (), ss (st), disir_error (inst.p));
                int how = toml ? 2 : 1;
                std::string a = dump (grouped (cs, how)), b = dump (grouped (observe_config (got.p), how));
                REQUIRE (a == b, "\"%s\" reads back otherwise: %s", id.c_str (), dump_diff (a, b).c_str ());
            }
        }
    }
    void read_config ()
    {
        std::string id = pick_id ();
        bool own = c.s.below (4) == 3;
        size_t k = c.s.below (specs.size ());
        ConfigH got, want;
        enum disir_status st = disir_config_read (inst.p, "g", id.c_str (), own ? objs[k]->p : nullptr, &got.p);
        c.log ("read \"%s\"%s: %s", id.c_str (), own ? fmt (" by mold %zu", k).c_str () : "", ss (st));
        if (blocked_path (config_file (id)) || blocked_path (mold_file (id))) { tree ("after reading"); return; }
        const MoldSpec *m = legal (id) ? mold_of (nid (id)) : nullptr;
        auto f = files.find (rel (canon (config_file (id))));
        if (!m || f == files.end () || id.empty () || id.back () == '/')
        {
            if (!(id.empty () || id.back () == '/')) REQUIRE (st == DISIR_STATUS_NOT_EXIST, "reading \"%s\", which is not there, returned %s", id.c_str (), ss (st));
            REQUIRE (st != DISIR_STATUS_OK && !got.p, "reading \"%s\", which is not there, gave a configuration", id.c_str ());
        }
        else
        {
            MoldH mold (own ? nullptr : build_mold (*m));
            FILE *in = input_of (f->second);
            enum disir_status ws = (toml ? dio_toml_unserialize_config : dio_json_unserialize_config) (instance (), in, own ? objs[k]->p : mold.p, &want.p);
            fclose (in);
            REQUIRE (st == ws && !got.p == !want.p, "reading \"%s\" returned %s and %s configuration; reading its file %s and %s", id.c_str (), ss (st), got.p ? "a" : "no", ss (ws), want.p ? "a" : "no");
            if (got.p)
            {
                std::string a = dump (observe_config_lax (want.p)), b = dump (observe_config_lax (got.p));
                REQUIRE (a == b, "\"%s\" holds: %s", id.c_str (), dump_diff (a, b).c_str ());
                enum disir_status v1, v2;
                std::string x = join (observe_invalid (want.p, &v1)), y = join (observe_invalid (got.p, &v2));
                REQUIRE (x == y && v1 == v2, "\"%s\": invalid is %s, not %s", id.c_str (), y.c_str (), x.c_str ());
                c.nontrivial ("read");
            }
        }
        tree ("after reading");
    }
    void remove_config ()
    {
        std::string id = pick_id ();
        enum disir_status want, st = disir_config_remove (inst.p, "g", id.c_str ());
        c.log ("remove \"%s\": %s", id.c_str (), ss (st));
        int w = writable (id, want);
        std::string file = rel (canon (config_file (id)));
        if (w == 1 && !files.count (file)) { w = 2; want = DISIR_STATUS_NOT_EXIST; }
        if (w == 2) REQUIRE (st == want, "removing \"%s\" returned %s, not %s", id.c_str (), ss (st), ss (want));
        if (w == 1) { REQUIRE (st == DISIR_STATUS_OK, "removing \"%s\" returned %s (%s)", id.c_str (), ss (st), disir_error (inst.p)); c.nontrivial ("removed"); }
        if (st == DISIR_STATUS_OK) files.erase (file);
        tree ("after removing");
    }
    void query_config ()
    {
        std::string id = pick_id ();
        struct disir_entry *e = nullptr;
        bool ask = c.s.below (2);
        enum disir_status want, st = disir_config_query (inst.p, "g", id.c_str (), ask ? &e : nullptr);
        c.log ("query \"%s\": %s", id.c_str (), ss (st));
        std::string name = e && e->de_entry_name ? e->de_entry_name : "";
        bool got = e != nullptr;
        if (e) disir_entry_finished (&e);
        int w = writable (id, want);
        if (id.empty () || id.back () == '/') { tree ("after a query"); return; }
        if (w) 
        {
            if (w == 1) want = files.count (rel (canon (config_file (id)))) ? DISIR_STATUS_EXISTS : DISIR_STATUS_NOT_EXIST;
            REQUIRE (st == want, "a query for \"%s\" returned %s, not %s", id.c_str (), ss (st), ss (want));
            REQUIRE (got == (ask && st == DISIR_STATUS_EXISTS), "a query for \"%s\" returned %s and %s entry", id.c_str (), ss (st), got ? "an" : "no");
            if (got) REQUIRE (name == id, "the entry for \"%s\" is named \"%s\"", id.c_str (), name.c_str ());
        }
        tree ("after a query");
    }
    void list_configs ()
    {
        struct disir_entry *e = nullptr;
        enum disir_status st = disir_config_entries (inst.p, "g", &e);
        std::multiset<std::string> got, want;
        while (e) { struct disir_entry *n = e->next; got.insert (e->de_entry_name); disir_entry_finished (&e); e = n; }
        c.log ("list: %s, %s", ss (st), join (got).c_str ());
        if (locked.empty ()) REQUIRE (st == DISIR_STATUS_OK, "listing returned %s (%s)", ss (st), disir_error (inst.p));
        std::set<std::string> maybe;
        for (auto& f : files)
        {
            std::string p = dir + "/" + f.first;
            if (p.compare (0, cb.size () + 1, cb + "/") || p.size () < cext.size () || p.substr (p.size () - cext.size ()) != cext) continue;
            std::string id = p.substr (cb.size () + 1, p.size () - cb.size () - 1 - cext.size ());
            if (!legal (id) || id.empty () || id.back () == '/') { if (id.empty () || id.back () == '/') maybe.insert (id); continue; }
            if (blocked_path (p) || blocked_path (mold_file (id))) { maybe.insert (id); continue; }
            if (mold_of (id)) want.insert (id);
        }
        for (auto& m : maybe) got.erase (m);
        REQUIRE (got == want, "listed: %s; there are: %s", join (got).c_str (), join (want).c_str ());
        if (want.size () > 1) c.nontrivial ("listed");
        tree ("after listing");
    }
    void outside ()
    {
        int what = c.s.below (8);
        std::string id = c.s.pick (std::vector<std::string> { "a", "b", "n/a", "n/b", "n/m/a", "x_1/y9/z" });
        std::string p = config_file (id), d = p.substr (0, p.rfind ('/'));
        if (what == 0 && !molds.empty ())
        {
            auto it = molds.begin (); std::advance (it, c.s.below (molds.size ()));
            std::string f = mold_file (it->first);
            c.log ("outside: %s is removed", rel (f).c_str ());
            if (blocked_path (f)) return;
            __real_unlink (f.c_str ()); files.erase (rel (f)); molds.erase (it);
        }
        else if (what == 1 && files.count (rel (p)) && !blocked_path (p)) { c.log ("outside: %s is removed", rel (p).c_str ()); __real_unlink (p.c_str ()); files.erase (rel (p)); }
        else if (what == 2 || what == 3)
        {
            static const std::vector<std::string> stray = { "notes.txt", "A.json", "A.toml", "a b.json", "a b.toml", "x.json~", "json", ".json", ".toml", "a.json.bak", "a.toml.bak", "README", "q.json", "q.toml" };
            std::string f = d + "/" + c.s.pick (stray);
            if (fslib_mkdir_p (instance (), d.c_str ()) == DISIR_STATUS_OK && write_file (f, "stray")) { files[rel (f)] = "stray"; c.log ("outside: %s is made", rel (f).c_str ()); }
        }
        else if (what == 4 && !files.count (rel (p)))
        {
            if (fslib_mkdir_p (instance (), p.c_str ()) == DISIR_STATUS_OK) { blocked.insert (p); c.log ("outside: %s is a directory", rel (p).c_str ()); c.label ("directory for a file"); }
        }
        else if (what == 5 && id.find ('/') != std::string::npos)
        {
            struct stat sb;
            if (stat (d.c_str (), &sb) == 0) return;
            std::string up = d.substr (0, d.rfind ('/'));
            if (fslib_mkdir_p (instance (), up.c_str ()) == DISIR_STATUS_OK && write_file (d, "file")) { blocked.insert (d); files[rel (d)] = "file"; c.log ("outside: %s is a file", rel (d).c_str ()); c.label ("file for a directory"); }
        }
        else if (what == 6 && files.count (rel (p)) && !blocked_path (p))
        {
            std::string text = c.s.below (2) ? files[rel (p)].substr (0, c.s.below (files[rel (p)].size () + 1)) : "";
            c.log ("outside: %s is cut to %zu bytes", rel (p).c_str (), text.size ());
            if (write_file (p, text)) files[rel (p)] = text;
        }
        else if (what == 7 && getuid () != 0)
        {
            struct stat sb;
            if (stat (d.c_str (), &sb) == 0 && S_ISDIR (sb.st_mode)) { chmod (d.c_str (), 0500); locked.push_back (d); blocked.insert (d); c.log ("outside: %s cannot be written", rel (d).c_str ()); c.label ("not writable"); }
        }
    }
    void run ()
    {
        o.max_depth = c.s.range (1, 2); o.max_kids = 3; o.max_entries = 3;
        o.strings = c.s.range (0, 2);
        dir = fresh_dir ();
        cb = dir + (c.s.below (2) ? "/c" : "/deep/er/c");
        mb = dir + "/m";
        cext = toml ? ".toml" : ".json";
        OKAY (disir_instance_create (NULL, NULL, &inst.p));
        struct disir_register_plugin p = {};
        p.dp_name = (char *) "store"; p.dp_description = (char *) "store";
        p.dp_config_entry_type = (char *) (toml ? "toml" : "json"); p.dp_mold_entry_type = (char *) "json";
        bool relative = c.s.below (6) == 5;         // to the working directory
        if (relative && chdir (dir.c_str ()) != 0) relative = false;
        size_t skip = relative ? dir.size () + 1 : 0;
        if (relative) c.label ("relative paths");
        p.dp_config_base_id = strdup (cb.c_str () + skip); p.dp_mold_base_id = strdup (mb.c_str () + skip);
        p.dp_config_read = toml ? dio_toml_config_read : dio_json_config_read;
        p.dp_config_write = toml ? dio_toml_config_write : dio_json_config_write;
        p.dp_config_remove = dio_json_config_remove;
        p.dp_config_entries = toml ? dio_toml_config_entries : dio_json_config_entries;
        p.dp_config_query = toml ? dio_toml_config_query : dio_json_config_query;
        p.dp_mold_read = dio_json_mold_read; p.dp_mold_write = dio_json_mold_write;
        p.dp_mold_entries = dio_json_mold_entries; p.dp_mold_query = dio_json_mold_query;
        OKAY (disir_plugin_register (inst.p, &p, "store", "g"));
        int n = c.s.range (1, 2);
        for (int i = 0; i < n; i++)
        {
            specs.push_back (gen_mold (c.s, o));
            objs.emplace_back (new MoldH (build_mold (specs.back ())));
            c.log ("mold %d:\n%s", i, dump (specs.back ()).c_str ());
        }
        // lists make the base directories when they are missing
        int steps = c.s.range (4, 18);
        for (int i = c.s.range (1, 4); i > 0; i--) write_mold ();
        int f0 = -1;
        for (int i = 0; i < steps; i++)
        {
            switch (c.s.weighted ({ 6, 4, 4, 2, 2, 2, 2, 2, 1 }))
            {
            case 0: write_config (0); break;
            case 1: read_config (); break;
            case 2: write_mold (); break;
            case 3: remove_config (); break;
            case 4: list_configs (); break;
            case 5: query_config (); break;
            case 6: outside (); break;
            case 7: write_config (1); break;
            case 8: write_config (2); break;
            }
            int f1 = open_fds ();
            REQUIRE (f0 < 0 || f1 == f0, "a file is left open");
            f0 = f1;
        }
        list_configs ();
    }
};
}
