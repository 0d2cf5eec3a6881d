// P09 - update rules
#include "optmodel.hpp"
using namespace pbt;

static void lock(Case &c) { om::lockstep(c, libs()[c.draw(libs().size() - 1)], 900, 4); }

static void defaults(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    float v[15]; int bs, sh, mn, pr;
    L.sh_opt_defaults(v, &bs, &sh, &mn, &pr);
    static const float want[15] = {0.01f, 0, 0, 0, 0.001f, 0.9f, 0, 0, 0, 0.01f, 0, 0.001f, 0.9f, 0.999f, 1e-4f};
    for (int i = 0; i < 15; i++) CHECK(c, v[i] == want[i], "default setting %d is %g instead of %g", i, v[i], want[i]);
    CHECK(c, bs == 32 && sh == 1 && mn && pr, "defaults of batch size, shuffle, metrics or progress differ: %d %d %d %d", bs, sh, mn, pr);
}

// a network whose gradient is known exactly: one linear layer without noise, long runs
static void longrun(Case &c) {
    const Lib &L = libs()[c.draw(libs().size() - 1)];
    om::lockstep(c, L, 120, c.tier == "thorough" ? 400 : 40);
}

static void wide(Case &c) { om::lockstep(c, libs()[c.draw(libs().size() - 1)], 20000, 3, 1, 1); }
static void batches(Case &c) { om::lockstep(c, libs()[c.draw(libs().size() - 1)], 100, 2, 1, 2); }
static void many(Case &c) { om::lockstep(c, libs()[c.draw(libs().size() - 1)], 40, 600, 1, 3); }
static void steps(Case &c) { om::lockstep(c, libs()[c.draw(libs().size() - 1)], 4, 140000, 1, 4); }
static void vast(Case &c) { om::lockstep(c, libs()[c.draw(libs().size() - 1)], 6000000, 2, 1 + (int) c.draw(2), 5); }
int main(int argc, char **argv) {
    libs();
    return main_("P09", {{"lockstep", lock, 150000, 3000000}, {"longrun", longrun, 20000, 300000}, {"wide", wide, 6000, 100000}, {"batches", batches, 8000, 120000}, {"many", many, 8000, 100000}, {"steps", steps, 200, 4000, 120}, {"vast", vast, 48, 1500, 120}, {"defaults", defaults, 8, 8}},
                 "random networks, data, optimizers, settings (each given or left to its default), batch sizes, sample counts, epochs; the parameters at every batch are compared with the update rule applied to the previous ones; non-trivial: at least two steps", argc, argv);
}
