// C08: a call that is refused leaves everything as it was.
#include "api.h"
static void run (Ctx& c) { api_case (c, true); }
Property property = { "C08",
    "up to 25 calls drawn from the whole public context interface over a pool of handles on molds, configurations, their parts and what is under construction; everything that can be seen of every object is read before each call and after each refused one; non-trivial: at least three refused and five successful calls",
    run, 12000, 150000, {}, make_instance };
