// C24, C25, C26: systems with JSON stores, archives made and read without the library.
#pragma once
#include "model.h"
#include "text.h"
#include <archive.h>
#include <archive_entry.h>
#include <disir/archive.h>
#include <disir/fslib/json.h>
#include <disir/fslib/util.h>
#include <algorithm>
#include <cstring>
#include <dirent.h>
#include <map>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>

namespace {
// ---------------------------------------------------------------- temporary files
// What of the library's temporary files in /tmp belongs to this process (each worker has its own user)
std::vector<std::string> temporaries ()
{
    std::vector<std::string> r;
    DIR *d = opendir ("/tmp");
    if (!d) return r;
    while (struct dirent *e = readdir (d))
    {
        std::string n = e->d_name;
        if (n.compare (0, 6, "disir.") && n.compare (0, 4, "arc.")) continue;
        struct stat sb;
        if (lstat (("/tmp/" + n).c_str (), &sb) == 0 && sb.st_uid == geteuid ()) r.push_back (n);
    }
    closedir (d);
    return r;
}
void clear_temporaries () { for (auto& n : temporaries ()) remove_tree ("/tmp/" + n); }

// ---------------------------------------------------------------- archives
struct Member { std::string name, data; int type = AE_IFREG; std::string link; bool hard = false; int mode = 0644; };
const char *ORG = "0/1-draft";

void write_archive (const std::string& path, const std::vector<Member>& m, bool xz)
{
    struct archive *a = archive_write_new ();
    archive_write_set_format_pax_restricted (a);
    if (xz) { archive_write_add_filter_xz (a); archive_write_set_filter_option (a, "xz", "compression-level", "0"); }
    if (archive_write_open_filename (a, path.c_str ()) != ARCHIVE_OK) fail ("HARNESS: %s", archive_error_string (a));
    for (auto& x : m)
    {
        struct archive_entry *e = archive_entry_new ();
        archive_entry_set_pathname (e, x.name.c_str ());
        if (x.hard) archive_entry_set_hardlink (e, x.link.c_str ());
        else archive_entry_set_filetype (e, x.type);
        if (x.type == AE_IFLNK && !x.hard) archive_entry_set_symlink (e, x.link.c_str ());
        archive_entry_set_perm (e, x.mode);
        archive_entry_set_size (e, x.type == AE_IFREG && !x.hard ? x.data.size () : 0);
        if (archive_write_header (a, e) >= ARCHIVE_WARN && x.type == AE_IFREG && !x.hard) archive_write_data (a, x.data.data (), x.data.size ());
        archive_entry_free (e);
    }
    archive_write_close (a);
    archive_write_free (a);
}
// false if the file is no complete archive
bool read_archive (const std::string& path, std::vector<std::pair<std::string, std::string>>& out)
{
    struct archive *a = archive_read_new ();
    archive_read_support_format_tar (a);
    archive_read_support_filter_xz (a);
    bool ok = archive_read_open_filename (a, path.c_str (), 10240) == ARCHIVE_OK;
    int r = ARCHIVE_OK;
    struct archive_entry *e;
    while (ok && (r = archive_read_next_header (a, &e)) == ARCHIVE_OK)
    {
        std::string d; char buf[4096]; la_ssize_t n;
        while ((n = archive_read_data (a, buf, sizeof buf)) > 0) d.append (buf, n);
        if (n < 0) { ok = false; break; }
        out.push_back ({ archive_entry_pathname (e) ? archive_entry_pathname (e) : "", d });
    }
    if (ok && r != ARCHIVE_EOF) ok = false;
    archive_read_free (a);
    return ok;
}

// ---------------------------------------------------------------- systems
struct Group { std::string name, backend; std::map<std::string, MoldSpec> molds; };
struct System
{
    std::string dir;
    struct disir_instance *p = nullptr;
    std::vector<Group> groups;
    ~System () { close (); }
    void close () { if (p) disir_instance_destroy (&p); p = nullptr; }
    std::string config_file (size_t g, const std::string& id) { return dir + fmt ("/c%zu/", g) + id + ".json"; }
    std::string config_base (size_t g) { return dir + fmt ("/c%zu", g); }
    static void mkdirs (const std::string& f)
    {
        for (size_t i = 1; i < f.size (); i++) if (f[i] == '/') mkdir (f.substr (0, i).c_str (), 0700);
    }
    static void put (const std::string& f, const std::string& text) { mkdirs (f); write_file (f, text); }
    void put_mold (size_t g, const std::string& id, const MoldSpec& m) { groups[g].molds[id] = m; put (dir + fmt ("/m%zu/", g) + id + ".json", json_of_mold (m)); }
    void open ()
    {
        OKAY (disir_instance_create (NULL, NULL, &p));
        for (size_t g = 0; g < groups.size (); g++)
        {
            mkdirs (config_base (g) + "/"); mkdirs (dir + fmt ("/m%zu/", g));
            struct disir_register_plugin r = {};
            std::string name = groups[g].backend;
            r.dp_name = &name[0]; r.dp_description = (char *) "store"; r.dp_config_entry_type = (char *) "json"; r.dp_mold_entry_type = (char *) "json";
            r.dp_config_base_id = strdup (config_base (g).c_str ()); r.dp_mold_base_id = strdup ((dir + fmt ("/m%zu", g)).c_str ());
            r.dp_config_read = dio_json_config_read; r.dp_config_write = dio_json_config_write; r.dp_config_remove = dio_json_config_remove;
            r.dp_config_entries = dio_json_config_entries; r.dp_config_query = dio_json_config_query;
            r.dp_config_fd_read = dio_json_config_fd_read; r.dp_config_fd_write = dio_json_config_fd_write;
            r.dp_mold_read = dio_json_mold_read; r.dp_mold_write = dio_json_mold_write; r.dp_mold_entries = dio_json_mold_entries; r.dp_mold_query = dio_json_mold_query;
            OKAY (disir_plugin_register (p, &r, "store", groups[g].name.c_str ()));
        }
    }
    int group (const std::string& n) { for (size_t i = 0; i < groups.size (); i++) if (groups[i].name == n) return i; return -1; }
};
std::string dump_json (const CfgSpec& c) { return dump (grouped (c, 1)); }
struct ImportH
{
    struct disir_import *p = nullptr;
    struct disir_instance *i;
    explicit ImportH (struct disir_instance *x) : i (x) {}
    ImportH (const ImportH&) = delete;
    ~ImportH () { if (p) disir_import_finalize (i, DISIR_IMPORT_DISCARD, &p, nullptr); }
};
}
