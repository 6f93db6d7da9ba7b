#include "prog.h"
#include "misc.h"
const scenario_t scenarios[] = {
    { "prog", prog_gen, prog_main, prog_check },
    { "arena", arena_gen, arena_main, no_check },
    { "atomic", atomic_gen, atomic_main, atomic_check },
    { "tls", tls_gen, tls_main, no_check },
    { "text", text_gen, text_main, no_check, 1 },
    { 0 }
};
