// Common declarations of the simulated world (code under test + simulator).
#pragma once
#include "rt/simrt.h"
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
extern "C" {
#include "action.h"
#include "cl.h"
#include "clset.h"
#include "clset_neural.h"
#include "cond_dgp.h"
#include "cond_gp.h"
#include "cond_neural.h"
#include "condition.h"
#include "config.h"
#include "ea.h"
#include "env.h"
#include "env_csv.h"
#include "pa.h"
#include "param.h"
#include "gp.h"
#include "pred_neural.h"
#include "prediction.h"
#include "rule_dgp.h"
#include "rule_neural.h"
#include "utils.h"
#include "xcs_rl.h"
#include "xcs_supervised.h"
#include "xcsf.h"
}
typedef uint64_t u64;
typedef std::string S;
typedef std::vector<double> Vd;

// ---- results: JSON lines into shared memory ----
void out_raw(const S &s);
S jstr(const S &s);
S jnum(double d);
S hex(u64 h);
S fmt(const char *f, ...);
// a violation seen by the in-process checks
void viol(const char *prop, const S &msg);
extern int cur_op;
void count(const S &key, long n = 1);

struct Chk { bool inv = true, ref = false, dig = false, rng = false, bnd = false; };
extern Chk chk;

struct Ptrs { std::vector<Cl *> v; };
struct Model {
    XCSF *x = nullptr; bool inited = false, env = false; bool noref = false; bool stateful_rules = false, classifies = false;
    // reinforcement episode as the environment sees it
    bool in_trial = false; bool have_prev = false; std::set<Cl *> prev_aset; double prev_reward = 0; Vd prev_state;
    std::set<Cl *> cur_aset; int cur_action = -1; bool cur_uncertain = false, prev_uncertain = false; Vd cur_pa;
};

// one rule, as observed
struct RuleObs {
    Cl *p; double err, fit, size; int num, exp, time, age, mtotal, action; bool m; Vd pred; u64 jc, ja, jp;
};
struct PopObs { std::vector<RuleObs> r; int size, num; int time; double error; std::map<Cl *, int> at; };
u64 hcond(const XCSF *x, const Cl *c); u64 hact(const XCSF *x, const Cl *c); u64 hpred(const XCSF *x, const Cl *c);
PopObs observe(const XCSF *x, bool bodies);
void check_invariants(Model &m, const char *when);
// reference checks around real operations
void ref_fit1(Model &m, const double *X, const double *Y, double (*op)(Model &, void *), void *arg, double *result);
void check_bounds(Model &m, double lo, double hi);
void op_vary(Model &m, u64 seed, int k, double lo, double hi);
