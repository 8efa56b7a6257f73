#pragma once
#include "world.hpp"
#include <functional>
struct TrialSpec {
    const double *X = nullptr, *Y = nullptr; bool learn = false, covering = false; const double *cover = nullptr; bool cover_check_ro = false;
    int action = -1; // reinforcement: the learning set is the rules advocating it
    double *ret = nullptr;
};
extern bool in_peek;
S in_child(const std::function<S()> &f);
void ref_trial(Model &mo, const TrialSpec &t, const std::function<void()> &op);
void ref_rl_update(Model &mo, const double *state, int action, double reward, bool done, const std::function<void()> &op);
