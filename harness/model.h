// Reference model of molds and configurations: specifications, generators, builders that go
// through the public API only, observers that read back through the public API only, and the
// reference semantics (what is active, allowed, valid, generated at a version).
#pragma once
#include "core.h"
#include <disir/disir.h>
#include <disir/context.h>
#include <disir/config.h>
#include <disir/mold.h>
#include <disir/collection.h>
#include <disir/util.h>
#include <disir/plugin.h>

struct Ver
{
    uint32_t maj = 1, min = 0;
    Ver () {}
    Ver (uint32_t a, uint32_t b) : maj (a), min (b) {}
    bool operator< (const Ver& o) const { return maj != o.maj ? maj < o.maj : min < o.min; }
    bool operator== (const Ver& o) const { return maj == o.maj && min == o.min; }
    bool operator!= (const Ver& o) const { return !(*this == o); }
    bool operator<= (const Ver& o) const { return !(o < *this); }
    bool operator> (const Ver& o) const { return o < *this; }
    bool operator>= (const Ver& o) const { return !(*this < o); }
    bool zero () const { return maj == 0 && min == 0; }
    std::string str () const { return fmt ("%u.%u", maj, min); }
    struct disir_version c () const { struct disir_version v; v.sv_major = maj; v.sv_minor = min; return v; }
};

enum VT { VSTR = 1, VINT, VFLT, VBOOL, VENUM };
const char *vt_name (VT t);

struct Val
{
    VT t = VINT;
    std::string s; int64_t i = 0; double f = 0; bool b = false;
    static Val str (const std::string& v) { Val r; r.t = VSTR; r.s = v; return r; }
    static Val en (const std::string& v) { Val r; r.t = VENUM; r.s = v; return r; }
    static Val integer (int64_t v) { Val r; r.t = VINT; r.i = v; return r; }
    static Val flt (double v) { Val r; r.t = VFLT; r.f = v; return r; }
    static Val boolean (bool v) { Val r; r.t = VBOOL; r.b = v; return r; }
    std::string dump () const;      // exact
    std::string text () const;      // what the library's text form must be
    bool operator== (const Val& o) const { return dump () == o.dump (); }
    bool operator!= (const Val& o) const { return !(*this == o); }
};

struct DefSpec { Ver intro; Val v; };
enum ET { X_ENUM = 3, X_RANGE = 4, X_NUM = 5 };
struct ExcSpec { ET t = X_ENUM; std::string s; double lo = 0, hi = 0; Ver intro, depr { 0, 0 }; std::string doc; };
struct IncSpec { bool max = false; int64_t n = 1; Ver intro, depr { 0, 0 }; };

struct MoldNode
{
    bool section = false;
    std::string name, doc;
    VT type = VINT;
    std::vector<DefSpec> defs;      // distinct versions, any order
    std::vector<ExcSpec> excs;
    std::vector<IncSpec> incs;
    Ver sec_intro;                  // sections
    Ver depr { 0, 0 };
    std::vector<MoldNode> kids;

    Ver intro () const;             // when the element exists from
    const MoldNode *kid (const std::string& n) const;
};
struct MoldSpec
{
    std::string doc;
    std::vector<MoldNode> kids;
    Ver version () const;           // highest introduced or deprecated anywhere
    const MoldNode *kid (const std::string& n) const;
    std::vector<Ver> versions () const;     // every version mentioned, plus 1.0
};
struct CfgNode
{
    bool section = false;
    std::string name;
    Val v;
    std::vector<CfgNode> kids;
};
struct CfgSpec { Ver version; std::vector<CfgNode> kids; };

// ---------------------------------------------------------------- reference semantics
bool active_at (const MoldNode& n, Ver v);
const DefSpec& active_default (const MoldNode& n, Ver v);
const DefSpec& highest_default (const MoldNode& n);
// minimum/maximum entries at a version; max == 0 is unlimited, -1 is "none allowed"
int min_entries (const MoldNode& n, Ver v);
int max_entries (const MoldNode& n, Ver v);
bool exc_active (const ExcSpec& e, Ver v);
bool value_allowed (const MoldNode& n, const Val& val, Ver v);
CfgSpec generate_model (const MoldSpec& m, Ver v);
// Elements the validity report must name, as resolved paths ("a@1.b", "" for the root)
// Values of keyvals the mold does not know as the string "?" (they cannot be read back)
void mask_unknown (const MoldSpec& m, CfgSpec& c);
std::multiset<std::string> invalid_model (const MoldSpec& m, const CfgSpec& c);

// ---------------------------------------------------------------- dumps (canonical text)
std::string dump (const MoldSpec& m);
std::string dump (const CfgSpec& c, bool with_version = true);
std::string dump_nodes (const std::vector<CfgNode>& k, const std::string& ind);

// ---------------------------------------------------------------- generators
struct GenOpt
{
    int max_kids = 5, max_depth = 3;
    bool restrictions = true;       // value restrictions
    bool entries = true;            // minimum / maximum entries
    bool deprecations = true;
    bool multi_version = true;
    bool docs = true;
    bool big_versions = false;
    bool valid_defaults = true;     // every default allowed wherever it is the active one
    bool nonempty_sections = true;  // every section has at least one child
    int types = 0x3e;               // bit per VT
    int strings = 2;                // 0 plain ascii, 1 printable, 2 any utf-8 without NUL
    bool floats_exact6 = false;     // floats that survive %lf
    int max_entries = 4;
    bool shuffle = true;            // configurations: siblings in any order
    int crowd = 0;                  // one mold in so many has a parent of up to 80 elements, one repeated often
};
std::string gen_name (Src& s);
std::string gen_text (Src& s, int level);
Ver gen_version (Src& s, bool big = false);
Val gen_value (Src& s, VT t, const GenOpt& o);
double gen_double (Src& s, bool exact6 = false);
int64_t gen_int (Src& s);
MoldSpec gen_mold (Src& s, const GenOpt& o);
// A version at which to look at the mold: one of those mentioned, or in between; never above
Ver gen_version_of (Src& s, const MoldSpec& m, bool allow_above = false);
// A value allowed for the keyval at v (falls back on the active default)
Val gen_allowed (Src& s, const MoldNode& n, Ver v, const GenOpt& o);
// A value to try on a keyval: near its restrictions, of another type, inactive, or anything
Val gen_try (Src& s, const MoldNode& n, Ver v, const GenOpt& o);
// Valid children of a section
std::vector<CfgNode> gen_config_kids (Src& s, const std::vector<MoldNode>& mold, Ver v, const GenOpt& o);
// Breaks a configuration in n places: elements dropped, repeated, renamed, of another type, with
// forbidden values, below unknown sections. types: an element of the mold may come as the other
// kind (section for keyval) too.
void mutate_config (Src& s, const MoldSpec& m, CfgSpec& c, int n, const GenOpt& o, bool kinds);
// A valid configuration of the mold at v
CfgSpec gen_config (Src& s, const MoldSpec& m, Ver v, const GenOpt& o);
// Siblings of one name brought together, groups in order of first appearance (how == 0), sorted
// by name below repeated sections (how == 1), sorted by name everywhere (how == 2)
std::vector<CfgNode> grouped (const std::vector<CfgNode>& kids, int how);
CfgSpec grouped (CfgSpec c, int how);

// ---------------------------------------------------------------- paths into a configuration
typedef std::vector<int> Path;          // child indices from the root
std::vector<Path> all_paths (const CfgSpec& c, bool keyvals, bool sections);
CfgNode& node_at (CfgSpec& c, const Path& p);
std::vector<CfgNode>& kids_at (CfgSpec& c, const Path& p);      // {} is the root
const MoldNode *mold_at (const MoldSpec& m, CfgSpec& c, const Path& p);
const std::vector<MoldNode>& mold_kids_at (const MoldSpec& m, CfgSpec& c, const Path& p);
// name and occurrence number among the siblings of that name
std::pair<std::string, int> element_id (const std::vector<CfgNode>& kids, int idx);
// the query naming the element; the indices "@0" are left out or written, drawn from s
std::string query_of (CfgSpec& c, const Path& p, Src *s = nullptr);
int count_of (const std::vector<CfgNode>& kids, const std::string& name);
int nth_of (const std::vector<CfgNode>& kids, const std::string& name, int n);     // -1: none
// ---------------------------------------------------------------- library side
#define OKAY(call) do { enum disir_status st__ = (call); if (st__ != DISIR_STATUS_OK) \
    fail ("%s:%d: %s returned %s", __FILE__, __LINE__, #call, disir_status_string (st__)); } while (0)
const char *ss (enum disir_status s);

struct disir_mold *build_mold (const MoldSpec& m);
// order: permutes the insertion order of siblings when not null
struct disir_config *build_config (struct disir_mold *mold, const CfgSpec& c);
void add_mold_node (struct disir_context *parent, const MoldNode& n);
void add_cfg_nodes (struct disir_context *parent, const std::vector<CfgNode>& kids);
enum disir_status set_value (struct disir_context *kv, const Val& v);
// As add_cfg_nodes, but elements the mold does not know or allow are built as well, below a parent
// that is under construction
void add_cfg_lax (struct disir_context *parent, const std::vector<CfgNode>& kids);
struct disir_config *build_config_lax (struct disir_mold *mold, const CfgSpec& c, enum disir_status *status);
Val get_value (struct disir_context *kv);        // fails the case on any error
MoldSpec observe_mold (struct disir_mold *mold);
CfgSpec observe_config (struct disir_config *cfg);
CfgSpec observe_config_lax (struct disir_config *cfg);   // unreadable values as "?"
CfgSpec observe_config_ctx (struct disir_context *root);
std::multiset<std::string> observe_invalid (struct disir_config *cfg, enum disir_status *status);
enum disir_status set_by_query (struct disir_config *cfg, const Val& v, const std::string& q);
enum disir_status get_by_query (struct disir_config *cfg, VT t, const std::string& q, Val& out);
enum disir_status get_below (struct disir_context *from, VT t, const std::string& q, Val& out);  // the same below any context
struct disir_context *ctx_at (struct disir_config *cfg, CfgSpec& c, const Path& p);   // owned
std::string join (const std::multiset<std::string>& s);

struct MoldH
{
    struct disir_mold *p = nullptr;
    MoldH () {}
    explicit MoldH (struct disir_mold *m) : p (m) {}
    MoldH (const MoldH&) = delete;
    ~MoldH () { reset (); }
    void reset () { if (p) disir_mold_finished (&p); p = nullptr; }
};
struct ConfigH
{
    struct disir_config *p = nullptr;
    ConfigH () {}
    explicit ConfigH (struct disir_config *c) : p (c) {}
    ConfigH (const ConfigH&) = delete;
    ~ConfigH () { reset (); }
    void reset () { if (p) disir_config_finished (&p); p = nullptr; }
};
struct CtxH
{
    struct disir_context *p = nullptr;
    CtxH () {}
    explicit CtxH (struct disir_context *c) : p (c) {}
    CtxH (const CtxH&) = delete;
    CtxH (CtxH&& o) : p (o.p) { o.p = nullptr; }
    ~CtxH () { reset (); }
    void reset () { if (p) dc_putcontext (&p); p = nullptr; }
};
struct disir_instance *instance ();     // one per worker, no plugins
void make_instance ();                  // worker_init

// FILE* in memory helpers
std::string with_output (std::function<void (FILE *)> f);
FILE *input_of (const std::string& data);   // fmemopen/tmpfile; caller closes

std::string dump_diff (const std::string& expect, const std::string& got);
