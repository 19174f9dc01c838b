#include "sim.h"
int sim_history(const char *which, const uint8_t *ops, size_t n)
{
    (void)ops; (void)n;
    sim_finish(OUT_HARNESS, 0, "history %s: the interface of the containers changed, sim/history.c does not compile", which);
}
