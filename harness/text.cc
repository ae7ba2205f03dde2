#include "text.h"
#include <cmath>

std::string json_string (const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s)
        switch (ch)
        {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        default: if (ch < 0x20) o += fmt ("\\u%04x", ch); else o += (char) ch;
        }
    return o + "\"";
}
static std::string number (double d)
{
    std::string s = fmt ("%.17g", d);
    if (s.find_first_of (".eE") == std::string::npos) s += ".0";
    return s;
}
std::string json_value (const Val& v)
{
    switch (v.t)
    {
    case VSTR: case VENUM: return json_string (v.s);
    case VINT: return fmt ("%lld", (long long) v.i);
    case VFLT: return number (v.f);
    default: return v.b ? "true" : "false";
    }
}
static std::string json_node (const CfgNode& n);
static std::string json_kids (const std::vector<CfgNode>& k)
{
    std::string o = "{";
    for (size_t i = 0; i < k.size (); )
    {
        size_t j = i;
        while (j < k.size () && k[j].name == k[i].name) j++;
        if (i) o += ",\n";
        o += json_string (k[i].name) + ": ";
        if (j - i == 1) o += json_node (k[i]);
        else
        {
            o += "[";
            for (size_t x = i; x < j; x++) o += (x > i ? ", " : "") + json_node (k[x]);
            o += "]";
        }
        i = j;
    }
    return o + "}";
}
static std::string json_node (const CfgNode& n) { return n.section ? json_kids (n.kids) : json_value (n.v); }
std::string json_of (const CfgSpec& c)
{
    return "{\"version\": \"" + c.version.str () + "\",\n\"config\": " + json_kids (c.kids) + "}\n";
}
static std::string jnum (double d, VT t) { return t == VINT ? fmt ("%lld", (long long) d) : number (d); }
static std::string json_mold_kids (const std::vector<MoldNode>& k)
{
    std::string o = "{";
    for (size_t i = 0; i < k.size (); i++)
    {
        const MoldNode& n = k[i];
        if (i) o += ",\n";
        o += json_string (n.name) + ": {";
        std::vector<std::string> f;
        if (n.section) f.push_back ("\"introduced\": \"" + n.sec_intro.str () + "\"");
        else f.push_back (std::string ("\"type\": \"") + vt_name (n.type) + "\"");
        if (!n.depr.zero ()) f.push_back ("\"deprecated\": \"" + n.depr.str () + "\"");
        if (!n.doc.empty ()) f.push_back ("\"documentation\": " + json_string (n.doc));
        if (!n.defs.empty ())
        {
            std::string d = "\"defaults\": [";
            for (size_t x = 0; x < n.defs.size (); x++)
                d += (x ? ", " : "") + ("{\"introduced\": \"" + n.defs[x].intro.str ()) + "\", \"value\": " + json_value (n.defs[x].v) + "}";
            f.push_back (d + "]");
        }
        std::vector<std::string> r;
        for (auto& e : n.excs)
        {
            std::string x = "{\"introduced\": \"" + e.intro.str () + "\"";
            if (!e.depr.zero ()) x += ", \"deprecated\": \"" + e.depr.str () + "\"";
            if (!e.doc.empty ()) x += ", \"documentation\": " + json_string (e.doc);
            if (e.t == X_ENUM) x += ", \"type\": \"ENUM\", \"value\": " + json_string (e.s);
            else if (e.t == X_NUM) x += ", \"type\": \"NUMERIC\", \"value\": " + jnum (e.lo, n.type);
            else x += ", \"type\": \"RANGE\", \"value\": [" + jnum (e.lo, n.type) + ", " + jnum (e.hi, n.type) + "]";
            r.push_back (x + "}");
        }
        for (auto& e : n.incs)
            r.push_back ("{\"introduced\": \"" + e.intro.str () + "\", \"type\": \"" + (e.max ? "MAXIMUM" : "MINIMUM") + fmt ("_ENTRIES\", \"value\": %lld}", (long long) e.n));
        if (!r.empty ())
        {
            std::string x = "\"restrictions\": [";
            for (size_t y = 0; y < r.size (); y++) x += (y ? ", " : "") + r[y];
            f.push_back (x + "]");
        }
        if (n.section) f.push_back ("\"elements\": " + json_mold_kids (n.kids));
        for (size_t x = 0; x < f.size (); x++) o += (x ? ", " : "") + f[x];
        o += "}";
    }
    return o + "}";
}
std::string json_of_mold (const MoldSpec& m)
{
    std::string o = "{";
    if (!m.doc.empty ()) o += "\"documentation\": " + json_string (m.doc) + ",\n";
    return o + "\"mold\": " + json_mold_kids (m.kids) + "}\n";
}
std::string toml_string (const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s)
        switch (ch)
        {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        case '\r': o += "\\r"; break;
        default: if (ch < 0x20) o += fmt ("\\u%04x", ch); else o += (char) ch;
        }
    return o + "\"";
}
std::string toml_value (const Val& v)
{
    switch (v.t)
    {
    case VSTR: case VENUM: return toml_string (v.s);
    case VINT: return fmt ("%lld", (long long) v.i);
    case VFLT: return number (v.f);
    default: return v.b ? "true" : "false";
    }
}
static void toml_kids (const std::vector<CfgNode>& k, const std::string& prefix, std::string& o)
{
    std::set<std::string> done;
    for (auto& n : k)
    {
        if (n.section || !done.insert (n.name).second) continue;
        std::string vals; int cnt = 0;
        for (auto& x : k) if (!x.section && x.name == n.name) { vals += (cnt++ ? ", " : "") + toml_value (x.v); }
        o += n.name + " = " + (cnt > 1 ? "[" + vals + "]" : vals) + "\n";
    }
    done.clear ();
    for (auto& n : k)
    {
        if (!n.section || !done.insert (n.name).second) continue;
        for (auto& x : k)
        {
            if (!x.section || x.name != n.name) continue;
            bool many = count_of (k, n.name) > 1;
            o += (many ? "[[" : "[") + prefix + n.name + (many ? "]]\n" : "]\n");
            toml_kids (x.kids, prefix + n.name + ".", o);
        }
    }
}
std::string toml_of (const CfgSpec& c)
{
    std::string o = "\"@DISIR_CONFIG_VERSION\" = \"" + c.version.str () + "\"\n";
    toml_kids (c.kids, "", o);
    return o;
}
