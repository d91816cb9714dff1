// Controlled-scheduler exploration of real multi-threaded code (see mcrt.cpp).
#pragma once
#include "mc.hpp"
#include <functional>
#include <string>

namespace mcrt {

struct Scenario {
    std::string name;
    std::function<void()> setup;                        // before the threads are controlled
    std::function<std::string()> run;                   // controlled; returns the observed outcome
    std::function<std::string(const std::string &)> verify;   // afterwards; "" or what is wrong
};

struct Limits {
    int bound = 2;              // preemptions + spurious wake-ups (-1: unlimited)
    int coldBound = 0;          // the same, for executions in fresh processes (-1: none)
    bool spurious = true;       // condition variables may wake up spuriously
    double seconds = 60;
};

// explores every schedule of the scenario within the limits (or replays one: case "<name>#<choices>")
void explore(mc::Ctx & ctx, const Scenario & s, const Limits & l);

// enumerated nondeterministic choice in [0, n), for use inside run
int choose(int n);
}
