// Chooses a (T, D, O) instantiation for the interpolation scenarios.
#include "ih.hpp"
static const IEntry* g_e[64];
static int g_n;
extern "C" void ireg(const IEntry* e) { g_e[g_n++] = e; }
extern "C" const IEntry* ipick(uint32_t k) { return g_e[k % (uint32_t)g_n]; }
static void go(int which, bool thr_bias) {
    uint32_t tot = 0;
    for (int i = 0; i < g_n; i++) tot += g_e[i]->weight * (thr_bias && g_e[i]->throwing ? 5 : 1);
    uint32_t k = sim_w(tot);
    for (int i = 0; i < g_n; i++) {
        uint32_t w = g_e[i]->weight * (thr_bias && g_e[i]->throwing ? 5 : 1);
        if (k < w) {
            sim_note("[%s] ", g_e[i]->tag);
            g_e[i]->fn[which]();
            return;
        }
        k -= w;
    }
}
static void construct() { go(S_CONSTRUCT, false); }
static void conc() { go(S_CONC, false); }
static void readers() { go(S_READ, false); }
static void det() { go(S_DET, false); }
static void input() { go(S_INPUT, false); }
static void value() { go(S_VALUE, false); }
static void fault() { go(S_FAULT, true); }
static void outlive() { go(S_OUTLIVE, true); }
static void leak() { go(S_LEAK, true); }
SCENARIO("construct", construct, 200000000);
SCENARIO("concurrent", conc, 120000000);
SCENARIO("readers", readers, 100000000);
SCENARIO("reproducible", det, 100000000);
SCENARIO("inputs", input, 100000000);
SCENARIO("values", value, 100000000);
SCENARIO("faults", fault, 100000000);
SCENARIO("outlive", outlive, 100000000);
SCENARIO("leaks", leak, 100000000);
