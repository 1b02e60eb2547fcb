#pragma once
#include <stdint.h>
struct SimScenario {
    const char* name;
    void (*fn)();
    uint64_t max_steps;
};
extern "C" void sim_register(const char* name, void (*fn)(), uint64_t max_steps);
struct SimReg {
    SimReg(const char* n, void (*f)(), uint64_t s) { sim_register(n, f, s); }
};
#define SCENARIO(name, fn, steps) static SimReg sim_reg_##fn(name, fn, steps)
