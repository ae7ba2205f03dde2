// C11: updating a configuration to a later version of its mold keeps what the user set, takes the
// new defaults where the user never deviated from the old one, and asks exactly about the rest.
#include "model.h"
#include <cstring>

static bool same (const Val& a, const Val& b)
{
    if (a.t != b.t) return false;
    return a.t == VFLT ? a.f == b.f : a == b;
}
static std::string text_of (const Val& v) { return v.t == VFLT ? fmt ("%.17g", v.f) : v.text (); }
struct Conflict { std::string name; Val own, mold; const MoldNode *mn; std::vector<Val *> at; };
struct Upd
{
    Ver from, to;
    std::vector<Conflict> conflicts;    // `at` index into a flat list is not stable, so paths are used
    std::vector<Path> where;
    int kept = 0, fresh = 0, dropped = 0, extra = 0;

    void walk (const std::vector<MoldNode>& mk, const std::vector<CfgNode>& old, std::vector<CfgNode>& out, Path at)
    {
        for (auto& mn : mk)
        {
            std::vector<const CfgNode *> have;
            for (auto& k : old) if (k.name == mn.name) have.push_back (&k);
            int mx = max_entries (mn, to), mi = min_entries (mn, to);
            size_t n = have.size ();
            if (mx != 0 && (int) n > mx) { n = mx < 0 ? 0 : mx; dropped++; }
            if ((int) n > mi) extra++;
            for (int i = 0; i < (int) n || i < mi; i++)
            {
                CfgNode x; x.section = mn.section; x.name = mn.name;
                Path p = at; p.push_back ((int) out.size ());
                if (i >= (int) n)
                {
                    fresh++;
                    if (mn.section)
                    {
                        MoldSpec m; m.kids = mn.kids;
                        x.kids = generate_model (m, to).kids;
                    }
                    else x.v = active_default (mn, to).v;
                    out.push_back (x);
                    continue;
                }
                if (mn.section) { walk (mn.kids, have[i]->kids, x.kids, p); out.push_back (x); continue; }
                const DefSpec& d = active_default (mn, to);
                const Val& own = have[i]->v;
                bool ask = false;
                if (same (own, d.v)) x.v = d.v;
                else if (d.intro <= from) { if (value_allowed (mn, own, to)) { x.v = own; kept++; } else ask = true; }
                else if (same (own, active_default (mn, from).v)) x.v = d.v;
                else ask = true;
                if (ask)
                {
                    x.v = own;
                    Conflict c; c.name = mn.name; c.own = own; c.mold = d.v; c.mn = &mn;
                    conflicts.push_back (c);
                    where.push_back (p);
                }
                out.push_back (x);
            }
        }
    }
};
static std::vector<CfgNode> sorted (const std::vector<CfgNode>& k) { return grouped (k, 2); }
struct UpdH { struct disir_update *p = nullptr; ~UpdH () { if (p) disir_update_finished (&p, nullptr); } };
static Val val_of (VT t, const std::string& s)
{
    Val v; v.t = t;
    if (t == VINT) v.i = strtoll (s.c_str (), nullptr, 10);
    else if (t == VFLT) v.f = strtod (s.c_str (), nullptr);
    else if (t == VBOOL) v.b = s == "True";
    else v.s = s;
    return v;
}
// values of the elements both have, by name and occurrence
static void overlay (std::vector<CfgNode>& old, std::vector<CfgNode>& now)
{
    std::map<std::string, int> seen;
    for (auto& k : old)
    {
        int i = nth_of (now, k.name, seen[k.name]++);
        if (i < 0) continue;
        if (k.section) overlay (k.kids, now[i].kids); else k.v = now[i].v;
    }
}
static void run (Ctx& c)
{
    GenOpt o; o.crowd = 12;
    o.max_kids = c.s.range (2, 5); o.max_depth = c.s.range (1, 3);
    o.strings = c.s.range (0, 2);
    o.max_entries = 3;
    o.nonempty_sections = c.s.below (2);
    o.restrictions = c.s.below (3) != 2;
    MoldSpec ms = gen_mold (c.s, o);
    Ver top = ms.version (), from = gen_version_of (c.s, ms), to = top;
    bool null = c.s.below (3) == 2;
    if (!null && c.s.below (2)) to = gen_version_of (c.s, ms, c.s.below (8) == 7);
    if (from == top && ms.versions ().size () > 1 && c.s.below (4)) from = ms.versions ().front ();
    if (null) to = top;
    CfgSpec cs = gen_config (c.s, ms, from, o);
    c.log ("%s%supdate to %s\n", dump (ms).c_str (), dump (cs).c_str (), to.str ().c_str ());
    // elements back on the default of the configuration's version, as a user who never changed them
    std::function<void (const std::vector<MoldNode>&, std::vector<CfgNode>&)> reset = [&] (const std::vector<MoldNode>& mk, std::vector<CfgNode>& k)
    {
        for (auto& x : k) for (auto& m : mk) if (m.name == x.name)
        {
            if (x.section) reset (m.kids, x.kids);
            else if (c.s.below (3) == 2) x.v = active_default (m, from).v;
        }
    };
    reset (ms.kids, cs.kids);
    MoldH mold (build_mold (ms));
    ConfigH cfg (build_config (mold.p, cs));
    std::string before = dump (observe_config (cfg.p));
    UpdH up;
    struct disir_version tv = to.c ();
    enum disir_status st = disir_update_config (cfg.p, null ? nullptr : &tv, &up.p);
    auto refused = [&] (enum disir_status want)
    {
        REQUIRE (st == want && !up.p, "updating %s to %s (mold at %s) returned %s", from.str ().c_str (), to.str ().c_str (), top.str ().c_str (), ss (st));
        REQUIRE (dump (observe_config (cfg.p)) == before, "the refused update changed the configuration");
        c.label (ss (want));
    };
    if (from == to) return refused (DISIR_STATUS_NO_CAN_DO);
    if (from > to || to > top) return refused (DISIR_STATUS_CONFLICTING_SEMVER);

    Upd u; u.from = from; u.to = to;
    CfgSpec want; want.version = to;
    u.walk (ms.kids, cs.kids, want.kids, Path ());
    std::vector<bool> done (u.conflicts.size ());
    const char *name = nullptr, *own = nullptr, *theirs = nullptr;
    bool quit = c.s.below (8) == 7;
    size_t asked = 0;
    // one way of answering per distinct question
    std::map<std::string, std::vector<std::string>> answers;
    while (st == DISIR_STATUS_CONFLICT)
    {
        asked++;
        REQUIRE (up.p, "no update object with a conflict");
        REQUIRE (disir_update_continue (up.p) == DISIR_STATUS_CONFLICT, "continued over an unresolved conflict");
        OKAY (disir_update_conflict (up.p, &name, &own, &theirs));
        std::string nm = name, key = fmt ("%s|%s|%s", name, own, theirs);
        std::vector<size_t> cand;
        for (size_t i = 0; i < u.conflicts.size (); i++)
            if (!done[i] && u.conflicts[i].name == nm && same (val_of (u.conflicts[i].own.t, own), u.conflicts[i].own)
                && same (val_of (u.conflicts[i].mold.t, theirs), u.conflicts[i].mold)) cand.push_back (i);
        REQUIRE (!cand.empty (), "asked about %s (%s or %s), which is not in conflict", name, own, theirs);
        REQUIRE (dump (observe_config (cfg.p)) == before, "the configuration changed before the update was through");
        if (quit && c.s.below (2)) { c.label ("given up"); return; }
        if (!answers.count (key))
        {
            auto& a = answers[key];
            const MoldNode& mn = *u.conflicts[cand[0]].mn;
            if (c.s.below (3) == 2) { Val v = c.s.below (2) ? gen_allowed (c.s, mn, to, o) : gen_value (c.s, mn.type, o); a.push_back (text_of (v)); }
            if (mn.type == VSTR && c.s.below (6) == 5) a.push_back (std::string (c.s.range (900, 2500), 'y'));
            if (c.s.below (3) != 2) a.push_back (own);
            a.push_back (theirs);
        }
        std::vector<std::string> as = answers[key];     // the texts may go away when resolved
        size_t k = 0;
        for (; k < as.size (); k++)
        {
            st = disir_update_resolve (up.p, as[k].c_str ());
            c.log ("resolve %s (%s / %s) with %s: %s\n", nm.c_str (), key.c_str (), "", as[k].c_str (), ss (st));
            REQUIRE (st == DISIR_STATUS_OK || st == DISIR_STATUS_RESTRICTION_VIOLATED, "resolving %s with '%s' returned %s", nm.c_str (), as[k].c_str (), ss (st));
            if (st == DISIR_STATUS_OK) break;
            c.label ("resolution refused");
            REQUIRE (disir_update_continue (up.p) == DISIR_STATUS_CONFLICT, "continued after a refused resolution");
        }
        REQUIRE (k < as.size (), "the default %s of %s was refused", as.back ().c_str (), nm.c_str ());
        bool found = false;
        for (size_t i : cand)
        {
            size_t e = 0;
            for (; e < as.size (); e++) if (value_allowed (*u.conflicts[i].mn, val_of (u.conflicts[i].mn->type, as[e]), to)) break;
            if (e != k) continue;
            done[i] = found = true;
            node_at (want, u.where[i]).v = val_of (u.conflicts[i].mn->type, as[e]);
            break;
        }
        REQUIRE (found, "%s was resolved with '%s', but its mold does not allow that or allows an earlier answer", nm.c_str (), as[k].c_str ());
        REQUIRE (disir_update_conflict (up.p, &name, &own, &theirs) == DISIR_STATUS_NO_CAN_DO, "still in conflict after a resolution");
        REQUIRE (disir_update_resolve (up.p, "1") == DISIR_STATUS_NO_CAN_DO, "resolved without a conflict");
        st = disir_update_continue (up.p);
    }
    REQUIRE (st == DISIR_STATUS_OK && up.p, "the update ended with %s", ss (st));
    for (size_t i = 0; i < done.size (); i++)
        REQUIRE (done[i], "%s is in conflict (%s, default now %s) but was not asked about", u.conflicts[i].name.c_str (), u.conflicts[i].own.dump ().c_str (), u.conflicts[i].mold.dump ().c_str ());
    ConfigH res;
    OKAY (disir_update_finished (&up.p, &res.p));
    REQUIRE (!up.p && res.p, "no updated configuration");
    CfgSpec got = observe_config (res.p);
    got.kids = sorted (got.kids);
    CfgSpec w = want; w.kids = sorted (want.kids);
    REQUIRE (dump (got) == dump (w), "updated: %s", dump_diff (dump (w), dump (got)).c_str ());
    st = disir_config_valid (res.p, nullptr);
    REQUIRE (st == DISIR_STATUS_OK, "the updated configuration is reported %s", ss (st));
    // the object that was updated
    CfgSpec self = cs; self.version = to;
    overlay (self.kids, want.kids);
    std::string sg = dump (observe_config (cfg.p));
    REQUIRE (sg == dump (self), "the configuration itself: %s", dump_diff (dump (self), sg).c_str ());
    if (asked) c.label ("conflicts");
    if (u.dropped) c.label ("elements dropped");
    if (u.fresh) c.label ("elements introduced");
    if (u.extra) c.label ("optional or repeated elements kept");
    if ((asked != 0) + (u.kept != 0) + (u.fresh != 0) + (u.dropped != 0) >= 2) c.nontrivial ();
}
Property property = { "C11",
    "random mold with defaults, restrictions, entry limits and deprecations over versions, a valid configuration at one version with some values left on their default, updated to a later version, conflicts answered with the own, the default or any value (also refused ones), sometimes given up; non-trivial: at least two of conflicts, kept deviations, introduced and dropped elements",
    run, 16000, 150000, {}, make_instance };
