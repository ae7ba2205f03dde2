// C07: validity is decided exactly: whatever a configuration contains, it is reported valid if and
// only if it meets its mold at its version, and the report names each offending element and no
// other - whether it was built element by element or read from JSON or TOML.
#include "model.h"
#include <disir/fslib/json.h>
#include <disir/fslib/toml.h>
#include "text.h"

static int toml_kind (const Val& v) { return v.t == VENUM ? VSTR : v.t; }
static void run (Ctx& c)
{
    GenOpt o; o.crowd = 40;
    o.max_depth = c.s.range (1, 3);
    o.strings = c.s.range (0, 1);
    o.nonempty_sections = c.s.below (2);
    MoldSpec ms = gen_mold (c.s, o);
    Ver v = gen_version_of (c.s, ms);
    CfgSpec cs = gen_config (c.s, ms, v, o);
    int how = c.s.below (3);        // built, json, toml
    if (c.s.below (5)) mutate_config (c.s, ms, cs, c.s.range (1, 5), o, false);
    MoldH mold (build_mold (ms));
    ConfigH cfg;
    enum disir_status st;
    std::string text;
    c.log ("%s%s", dump (ms).c_str (), dump (cs).c_str ());
    if (how == 0) cfg.p = build_config_lax (mold.p, cs, &st);
    else
    {
        // text has no enumerations: a string is one where the mold says so, and elements of one
        // name are read together
        std::function<void (const std::vector<MoldNode> *, std::vector<CfgNode>&)> fix = [&] (const std::vector<MoldNode> *mk, std::vector<CfgNode>& k)
        {
            std::map<std::string, int> kind;
            for (auto it = k.begin (); it != k.end (); )
            {
                const MoldNode *mn = nullptr;
                if (mk) for (auto& m : *mk) if (m.name == it->name) mn = &m;
                if (it->section) { fix (mn ? &mn->kids : nullptr, it->kids); ++it; continue; }
                if (it->v.t == VENUM || it->v.t == VSTR) it->v.t = mn && mn->type == VENUM ? VENUM : VSTR;
                ++it;
            }
        };
        fix (&ms.kids, cs.kids);
        // TOML arrays hold one type
        std::function<bool (const std::vector<CfgNode>&)> uniform = [&] (const std::vector<CfgNode>& k)
        {
            for (auto& a : k)
            {
                for (auto& b : k)
                    if (a.name == b.name && (a.section != b.section || (!a.section && toml_kind (a.v) != toml_kind (b.v)))) return false;
                if (a.section && !uniform (a.kids)) return false;
            }
            return true;
        };
        if (how == 2 && !uniform (cs.kids)) how = 1;
        // JSON does not tell integers from floats
        std::function<void (const std::vector<MoldNode> *, std::vector<CfgNode>&)> ints = [&] (const std::vector<MoldNode> *mk, std::vector<CfgNode>& k)
        {
            for (auto& x : k)
            {
                const MoldNode *mn = nullptr;
                if (mk) for (auto& m : *mk) if (m.name == x.name) mn = &m;
                if (x.section) ints (mn ? &mn->kids : nullptr, x.kids);
                else if (x.v.t == VINT && mn && mn->type == VFLT) x.v = Val::flt ((double) x.v.i);
            }
        };
        if (how == 1) ints (&ms.kids, cs.kids);
        cs = grouped (cs, how == 1 ? 0 : 2);
        text = how == 1 ? json_of (cs) : toml_of (cs);
        c.log ("%s\n", text.c_str ());
        FILE *f = input_of (text);
        st = how == 1 ? dio_json_unserialize_config (instance (), f, mold.p, &cfg.p)
                      : dio_toml_unserialize_config (instance (), f, mold.p, &cfg.p);
        fclose (f);
        REQUIRE (st == DISIR_STATUS_OK || st == DISIR_STATUS_INVALID_CONTEXT, "reading returned %s", ss (st));
        REQUIRE (cfg.p, "reading returned %s and no configuration", ss (st));
    }
    auto want = invalid_model (ms, cs);
    CfgSpec masked = cs; mask_unknown (ms, masked);
    std::string w = dump (masked), g = dump (observe_config_lax (cfg.p));
    REQUIRE (w == g, "contents: %s", dump_diff (w, g).c_str ());
    REQUIRE ((st == DISIR_STATUS_OK) == want.empty (), "%s, but the status is %s", want.empty () ? "everything is valid" : ("invalid are " + join (want)).c_str (), ss (st));
    enum disir_status valid;
    auto got = observe_invalid (cfg.p, &valid);
    REQUIRE ((valid == DISIR_STATUS_OK) == want.empty (), "invalid are %s, reported %s", join (want).c_str (), ss (valid));
    REQUIRE (got == want, "invalid are %s, the report says %s", join (want).c_str (), join (got).c_str ());
    // asking again changes nothing
    REQUIRE (observe_invalid (cfg.p, nullptr) == want, "a second report differs");
    if (want.empty ()) c.label ("valid");
    if (want.count ("")) c.label ("root invalid");
    c.label (how == 0 ? "built" : how == 1 ? "json" : "toml");
    if (want.size () > 1) c.nontrivial ();
}
Property property = { "C07",
    "random mold, valid configuration at one of its versions, broken in 0-5 places (elements dropped, repeated, renamed, unknown, of another type, with forbidden values, misplaced); built through the API, read from JSON or read from TOML; non-trivial: at least two offending elements",
    run, 9000, 150000, {}, make_instance };
