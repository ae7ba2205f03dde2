#include "store.h"
static void run (Ctx& c) { Store s (c, false); s.run (); }
Property property = { "C21",
    "histories of 4-18 operations on a JSON store in a scratch directory: molds and configurations written, read, listed, queried, removed, files changed from outside, writes without room, writes cut short by a crash; non-trivial: something is read back, removed or listed, or a fault strikes a write over an existing entry",
    run, 4000, 60000, {}, make_instance };
