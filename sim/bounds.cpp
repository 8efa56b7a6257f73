// What variation may and may not do to a rule: every rule lies within the bounds its configuration gives it,
// traits that may not evolve keep their configured values, crossover only exchanges, and an offspring said to be
// unchanged is unchanged.
#include "world.hpp"
#include <cfloat>
#include <functional>
extern "C" {
#include "cond_dgp.h"
#include "cond_ellipsoid.h"
#include "cond_gp.h"
#include "cond_rectangle.h"
#include "cond_ternary.h"
#include "act_neural.h"
#include "act_integer.h"
#include "pred_nlms.h"
#include "rule_dgp.h"
#include "neural_activations.h"
}
S in_child(const std::function<S()> &f);
static std::vector<S> *sink;
static void bad(const S &m) { if (sink) { if (sink->size() < 3) sink->push_back(m); } else viol("C24", m); }
static bool in_range(double v, double lo, double hi) { return v >= lo && v <= hi; }
struct Parts { std::vector<const Layer *> v; };
static std::vector<const Layer *> parts(const Layer *l)
{
    if (l->type == RECURRENT) return { l->input_layer, l->self_layer, l->output_layer };
    if (l->type == LSTM) return { l->uf, l->ui, l->ug, l->uo, l->wf, l->wi, l->wg, l->wo };
    if (l->type == CONNECTED || l->type == CONVOLUTIONAL) return { l };
    return {};
}
static int units(const Layer *l) { return l->type == CONVOLUTIONAL ? l->n_filters : l->n_outputs; }
static void layer_ok(const Layer *l, const ArgsLayer *a, const char *what, int i)
{
    if (l->type != a->type) { bad(fmt("layer %d of a %s has type %d, configured is %d", i, what, l->type, a->type)); return; }
    auto ps = parts(l); if (ps.empty()) return;
    int n = units(l); double eta_lo = fmin(a->eta_min, a->eta), eta_hi = fmax(a->eta_min, a->eta);
    if (a->evolve_neurons) { if (n < 1 || n > (a->n_max > a->n_init ? a->n_max : a->n_init)) bad(fmt("layer %d of a %s has %d units, allowed are 1 to %d", i, what, n, a->n_max)); }
    else if (n != a->n_init) bad(fmt("layer %d of a %s has %d units although their number does not evolve from %d", i, what, n, a->n_init));
    if (!a->evolve_functions) { if (l->function != a->function) bad(fmt("layer %d of a %s has activation %d although it does not evolve from %d", i, what, l->function, a->function)); }
    else if (l->function < 0 || l->function >= NUM_ACTIVATIONS) bad(fmt("layer %d of a %s has unknown activation %d", i, what, l->function));
    if (l->type == LSTM) { if (!a->evolve_functions ? l->recurrent_function != a->recurrent_function : l->recurrent_function < 0 || l->recurrent_function >= NUM_ACTIVATIONS) bad(fmt("layer %d of a %s has recurrent activation %d", i, what, l->recurrent_function)); }
    if (l->type == RECURRENT && l->output_layer->function != l->function) bad(fmt("layer %d of a %s reports activation %d, it uses %d", i, what, l->function, l->output_layer->function));
    for (const Layer *p : ps) {
        if (!a->evolve_eta ? p->eta != a->eta : !in_range(p->eta, eta_lo, eta_hi)) { bad(fmt("layer %d of a %s has learning rate %.9g, configured are %.9g to %.9g%s", i, what, p->eta, a->eta_min, a->eta, a->evolve_eta ? "" : " and it does not evolve")); break; }
        if (p->eta != l->eta) { bad(fmt("layer %d of a %s reports learning rate %.9g, one part has %.9g", i, what, l->eta, p->eta)); break; }
        bool stop = false;
        for (int k = 0; k < p->n_weights && !stop; ++k) {
            if (!p->weight_active[k] && p->weights[k] != 0) { bad(fmt("layer %d of a %s: a removed connection has weight %.9g", i, what, p->weights[k])); stop = true; }
            else if (!p->weight_active[k] && !a->evolve_connect) { bad(fmt("layer %d of a %s: a connection was removed although they do not evolve", i, what)); stop = true; }
            else if (std::isfinite(p->weights[k]) && !in_range(p->weights[k], WEIGHT_MIN, WEIGHT_MAX)) { bad(fmt("layer %d of a %s: weight %.9g out of bounds", i, what, p->weights[k])); stop = true; }
        }
        for (int k = 0; k < p->n_biases && !stop; ++k) if (std::isfinite(p->biases[k]) && !in_range(p->biases[k], WEIGHT_MIN, WEIGHT_MAX)) { bad(fmt("layer %d of a %s: bias %.9g out of bounds", i, what, p->biases[k])); stop = true; }
        if (p->type == CONNECTED && (p->n_weights != p->n_inputs * p->n_outputs || p->n_biases != p->n_outputs)) bad(fmt("layer %d of a %s: %d weights and %d biases for %d inputs and %d neurons", i, what, p->n_weights, p->n_biases, p->n_inputs, p->n_outputs));
        if (p->type == CONVOLUTIONAL && (p->n_weights != p->n_filters * p->channels * p->size * p->size || p->n_biases != p->n_filters || p->n_outputs != p->out_h * p->out_w * p->out_c || p->out_c != p->n_filters)) bad(fmt("layer %d of a %s: sizes of a convolution do not fit its %d filters", i, what, p->n_filters));
    }
    if (l->type == RECURRENT || l->type == LSTM) for (const Layer *p : ps) if (p->n_outputs != l->n_outputs) { bad(fmt("layer %d of a %s: parts of different sizes", i, what)); break; }
}
static void net_ok(const Net *net, const ArgsLayer *a, const char *what, int n_in, int n_out)
{
    int i = 0, n = 0; const Layer *prev = nullptr;
    for (const Llist *it = net->tail; it; it = it->prev) ++n;
    for (const Llist *it = net->tail; it; it = it->prev, a = a->next, ++i) {
        if (!a) { bad(fmt("a %s has %d layers, more than configured", what, n)); return; }
        layer_ok(it->layer, a, what, i);
        int want = prev ? prev->n_outputs : n_in;
        if (it->layer->n_inputs != want) bad(fmt("layer %d of a %s takes %d inputs, it is given %d", i, what, it->layer->n_inputs, want));
        prev = it->layer;
    }
    if (a) bad(fmt("a %s has %d layers, fewer than configured", what, n));
    if (n != net->n_layers) bad(fmt("a %s reports %d layers and has %d", what, net->n_layers, n));
    if (prev && n_out > 0 && prev->n_outputs != n_out) bad(fmt("a %s has %d outputs, needed are %d", what, prev->n_outputs, n_out));
    if (prev && net->n_outputs != prev->n_outputs) bad(fmt("a %s reports %d outputs and has %d", what, net->n_outputs, prev->n_outputs));
}
static void mu_ok(const cJSON *j, const char *what)
{
    const cJSON *it; cJSON_ArrayForEach(it, j) {
        if (it->string && !strcmp(it->string, "mutation") && cJSON_IsArray(it)) { const cJSON *v; cJSON_ArrayForEach(v, it) if (!(v->valuedouble >= 0 && v->valuedouble <= 1)) bad(fmt("a %s has mutation rate %.9g", what, v->valuedouble)); }
        else if (cJSON_IsObject(it)) mu_ok(it, what);
    }
}
static void json_mu(char *t, const char *what) { if (!t) return; cJSON *j = cJSON_Parse(t); sim_free(t); if (!j) return; mu_ok(j, what); cJSON_Delete(j); }
// Reads a tree from pos; returns the position after it or -1.
static int walk(const GPTree *g, const ArgsGPTree *a, int pos, int depth = 0)
{
    const int F = 4; if (pos < 0 || pos >= g->len || depth > 100000) return -1;
    int t = g->tree[pos]; if (t < 0 || t >= F + a->n_constants + a->n_inputs) return -1;
    if (t >= F) return pos + 1;
    int p = walk(g, a, pos + 1, depth + 1); return p < 0 ? -1 : walk(g, a, p, depth + 1);
}
static void graph_ok(const Graph *g, const ArgsDGP *a)
{
    if (g->n != a->n || g->n_inputs != a->n_inputs || g->max_k != a->max_k || g->klen != a->n * a->max_k) { bad(fmt("a graph of %d nodes with %d connections, configured are %d nodes with %d each", g->n, g->klen, a->n, a->max_k)); return; }
    if (a->evolve_cycles ? g->t < 1 || g->t > a->max_t : g->t != a->max_t) bad(fmt("a graph runs %d cycles, configured are %s%d", g->t, a->evolve_cycles ? "1 to " : "", a->max_t));
    for (int i = 0; i < g->klen; ++i) if (g->connectivity[i] < 0 || g->connectivity[i] >= g->n + g->n_inputs) { bad(fmt("a graph has a connection to node %d of %d", g->connectivity[i], g->n + g->n_inputs)); break; }
    for (int i = 0; i < g->n; ++i) if (g->function[i] < 0 || g->function[i] > 2) { bad(fmt("a graph node has function %d", g->function[i])); break; }
    for (int i = 0; i < g->n; ++i) if (!in_range(g->initial_state[i], 0, 1)) { bad("a graph's initial state is out of bounds"); break; }
}
// mutated: the condition has just been mutated, so lies within the configured range; otherwise it may have been centred on an input in [lo,hi].
static void rule_ok(const XCSF *x, const Cl *c, bool mutated, double lo, double hi)
{
    double mn = x->cond->min, mx = x->cond->max, s = fmax(fabs(mx - mn), x->cond->spread_min); if (!mutated) { lo = fmin(lo, mn); hi = fmax(hi, mx); } else { lo = mn; hi = mx; }
    double t = 1e-9 * (1 + fabs(lo) + fabs(hi));
    switch (x->cond->type) {
        case COND_TYPE_HYPERRECTANGLE_CSR: { auto *q = (const CondRectangle *) c->cond; for (int i = 0; i < x->x_dim; ++i) { if (!in_range(q->b1[i], lo - t, hi + t)) { bad(fmt("a hyperrectangle's centre %.9g lies outside %.9g to %.9g", q->b1[i], lo, hi)); break; } if (!(q->b2[i] > 0)) { bad(fmt("a hyperrectangle has spread %.9g", q->b2[i])); break; } } break; }
        case COND_TYPE_HYPERRECTANGLE_UBR: { auto *q = (const CondRectangle *) c->cond; if (!mutated) { lo -= s; hi += s; } for (int i = 0; i < x->x_dim; ++i) for (double v : { q->b1[i], q->b2[i] }) if (!in_range(v, lo - t, hi + t)) { bad(fmt("a hyperrectangle's bound %.9g lies outside %.9g to %.9g", v, lo, hi)); i = x->x_dim; break; } break; }
        case COND_TYPE_HYPERELLIPSOID: { auto *q = (const CondEllipsoid *) c->cond; for (int i = 0; i < x->x_dim; ++i) { if (!in_range(q->center[i], lo - t, hi + t)) { bad(fmt("a hyperellipsoid's centre %.9g lies outside %.9g to %.9g", q->center[i], lo, hi)); break; } if (!(q->spread[i] > 0)) { bad(fmt("a hyperellipsoid has spread %.9g", q->spread[i])); break; } } break; }
        case COND_TYPE_TERNARY: { auto *q = (const CondTernary *) c->cond; if (q->length != x->x_dim * x->cond->bits) bad(fmt("a ternary condition has %d characters for %d inputs of %d bits", q->length, x->x_dim, x->cond->bits)); else for (int i = 0; i < q->length; ++i) if (!strchr("01#", q->string[i]) || !q->string[i]) { bad("a ternary condition has a character other than 0, 1 and #"); break; } break; }
        case COND_TYPE_GP: { auto *q = (const CondGP *) c->cond; int e = walk(&q->gp, x->cond->targs, 0); if (e != q->gp.len) bad(fmt("a tree of length %d is read up to %d", q->gp.len, e)); break; }
        case COND_TYPE_DGP: graph_ok(&((const CondDGP *) c->cond)->dgp, x->cond->dargs); break;
        case RULE_TYPE_DGP: graph_ok(&((const RuleDGP *) c->cond)->dgp, x->cond->dargs); break;
        case COND_TYPE_NEURAL: net_ok(&((const CondNeural *) c->cond)->net, x->cond->largs, "condition network", x->x_dim, 0); break;
        case RULE_TYPE_NEURAL: net_ok(&((const RuleNeural *) c->cond)->net, x->cond->largs, "rule network", x->x_dim, 0); break;
    }
    if (x->cond->type != COND_TYPE_DUMMY) json_mu(cond_json_export(x, c), "condition");
    switch (x->pred->type) {
        case PRED_TYPE_NEURAL: net_ok(&((const PredNeural *) c->pred)->net, x->pred->largs, "prediction network", x->x_dim, x->y_dim); break;
        case PRED_TYPE_NLMS_LINEAR: case PRED_TYPE_NLMS_QUADRATIC: { double e = ((const PredNLMS *) c->pred)->eta, a = fmin(x->pred->eta_min, x->pred->eta), b = fmax(x->pred->eta_min, x->pred->eta); if (!x->pred->evolve_eta ? e != x->pred->eta : !in_range(e, a, b)) bad(fmt("a prediction has learning rate %.9g, configured are %.9g to %.9g%s", e, x->pred->eta_min, x->pred->eta, x->pred->evolve_eta ? "" : " and it does not evolve")); json_mu(pred_json_export(x, c), "prediction"); break; }
    }
    if (x->n_actions > 1 && x->cond->type != RULE_TYPE_DGP && x->cond->type != RULE_TYPE_NEURAL) {
        if (x->act->type == ACT_TYPE_INTEGER) { int a = ((const ActInteger *) c->act)->action; if (a < 0 || a >= x->n_actions) bad(fmt("a rule has action %d of %d", a, x->n_actions)); json_mu(act_json_export(x, c), "action"); }
        else if (x->act->type == ACT_TYPE_NEURAL) net_ok(&((const ActNeural *) c->act)->net, x->act->largs, "action network", x->x_dim, x->n_actions);
    }
}
void check_bounds(Model &m, double lo, double hi)
{
    int k = 0; for (const Clist *it = m.x->pset.list; it; it = it->next, ++k) rule_ok(m.x, it->cl, false, lo, hi);
    count("rules_bounded", k);
}
// The genes of a rule, without mutation rates and activations.
static u64 hs(u64 h, const void *p, size_t n) { return sim_hash(h, p, n); }
static u64 hnet(const Net *n, bool weights_only)
{
    u64 h = SIM_HASH0; for (const Llist *it = n->tail; it; it = it->prev) { const Layer *l = it->layer; for (const Layer *p : parts(l)) { h = hs(h, p->weights, 8 * (size_t) p->n_weights); h = hs(h, p->biases, 8 * (size_t) p->n_biases); h = hs(h, p->weight_active, (size_t) p->n_weights); if (!weights_only) { h = hs(h, &p->function, 4); h = hs(h, &p->eta, 8); } } if (!weights_only && !parts(l).empty()) { h = hs(h, &l->function, 4); h = hs(h, &l->recurrent_function, l->type == LSTM ? 4 : 0); } } return h;
}
static u64 hgraph(const Graph *g) { u64 h = SIM_HASH0; h = hs(h, g->connectivity, 4 * (size_t) g->klen); h = hs(h, g->function, 4 * (size_t) g->n); h = hs(h, &g->t, 4); return hs(h, g->initial_state, 8 * (size_t) g->n); }
static const Net *cnet(const XCSF *x, const Cl *c) { return x->cond->type == COND_TYPE_NEURAL ? &((const CondNeural *) c->cond)->net : x->cond->type == RULE_TYPE_NEURAL ? &((const RuleNeural *) c->cond)->net : nullptr; }
static const Net *pnet(const XCSF *x, const Cl *c) { return x->pred->type == PRED_TYPE_NEURAL ? &((const PredNeural *) c->pred)->net : nullptr; }
static const Net *anet(const XCSF *x, const Cl *c) { return x->n_actions > 1 && !cnet(x, c) && x->cond->type != RULE_TYPE_DGP && x->act->type == ACT_TYPE_NEURAL ? &((const ActNeural *) c->act)->net : nullptr; }
static u64 hgenes(const XCSF *x, const Cl *c)
{
    u64 h = SIM_HASH0; size_t d = 8 * (size_t) x->x_dim;
    switch (x->cond->type) {
        case COND_TYPE_HYPERRECTANGLE_CSR: case COND_TYPE_HYPERRECTANGLE_UBR: { auto *q = (const CondRectangle *) c->cond; h = hs(hs(h, q->b1, d), q->b2, d); break; }
        case COND_TYPE_HYPERELLIPSOID: { auto *q = (const CondEllipsoid *) c->cond; h = hs(hs(h, q->center, d), q->spread, d); break; }
        case COND_TYPE_TERNARY: { auto *q = (const CondTernary *) c->cond; h = hs(h, q->string, (size_t) q->length); break; }
        case COND_TYPE_GP: { auto *q = (const CondGP *) c->cond; h = hs(h, q->gp.tree, 4 * (size_t) q->gp.len); break; }
        case COND_TYPE_DGP: h ^= hgraph(&((const CondDGP *) c->cond)->dgp); break;
        case RULE_TYPE_DGP: h ^= hgraph(&((const RuleDGP *) c->cond)->dgp); break;
        default: if (cnet(x, c)) h ^= hnet(cnet(x, c), false);
    }
    if (pnet(x, c)) h = h * 31 + hnet(pnet(x, c), false); else { char *t = pred_json_export(x, c); cJSON *j = cJSON_Parse(t); sim_free(t); if (j) { cJSON_DeleteItemFromObject(j, "mutation"); char *s = cJSON_PrintUnformatted(j); h = hs(h, s, strlen(s)); sim_free(s); cJSON_Delete(j); } }
    if (anet(x, c)) h = h * 31 + hnet(anet(x, c), false); else if (x->n_actions > 1 && x->cond->type != RULE_TYPE_DGP && !cnet(x, c) && x->act->type == ACT_TYPE_INTEGER) h = hs(h, &((const ActInteger *) c->act)->action, 4);
    return h;
}
static bool frozen(const ArgsLayer *a) { for (; a; a = a->next) if (a->evolve_weights || a->evolve_neurons || a->evolve_connect) return false; return true; }
static Cl *twin_of(XCSF *x, const Cl *p) { Cl *c = (Cl *) sim_malloc(sizeof(Cl)); cl_init(x, c, p->size, p->time); cl_copy(x, c, p); return c; }
// do a and b together hold exactly what p and q held, gene by gene?
static void swapped(const char *what, const double *a, const double *b, const double *p, const double *q, int n)
{
    for (int i = 0; i < n; ++i) if (!((a[i] == p[i] && b[i] == q[i]) || (a[i] == q[i] && b[i] == p[i]))) { bad(fmt("crossover of %.9g and %.9g gave %.9g and %.9g as %s", p[i], q[i], a[i], b[i], what)); return; }
}
static void crossed(const XCSF *x, const Cl *a, const Cl *b, const Cl *p, const Cl *q)
{
    switch (x->cond->type) {
        case COND_TYPE_HYPERRECTANGLE_CSR: case COND_TYPE_HYPERRECTANGLE_UBR: { auto *A = (const CondRectangle *) a->cond, *B = (const CondRectangle *) b->cond, *P = (const CondRectangle *) p->cond, *Q = (const CondRectangle *) q->cond; swapped("first bound", A->b1, B->b1, P->b1, Q->b1, x->x_dim); swapped("second bound", A->b2, B->b2, P->b2, Q->b2, x->x_dim); break; }
        case COND_TYPE_HYPERELLIPSOID: { auto *A = (const CondEllipsoid *) a->cond, *B = (const CondEllipsoid *) b->cond, *P = (const CondEllipsoid *) p->cond, *Q = (const CondEllipsoid *) q->cond; swapped("centre", A->center, B->center, P->center, Q->center, x->x_dim); swapped("spread", A->spread, B->spread, P->spread, Q->spread, x->x_dim); break; }
        case COND_TYPE_TERNARY: { auto *A = (const CondTernary *) a->cond, *B = (const CondTernary *) b->cond, *P = (const CondTernary *) p->cond, *Q = (const CondTernary *) q->cond; for (int i = 0; i < P->length; ++i) if (!((A->string[i] == P->string[i] && B->string[i] == Q->string[i]) || (A->string[i] == Q->string[i] && B->string[i] == P->string[i]))) { bad(fmt("crossover made %c and %c of %c and %c", A->string[i], B->string[i], P->string[i], Q->string[i])); break; } break; }
        case COND_TYPE_GP: {
            auto *A = (const CondGP *) a->cond, *B = (const CondGP *) b->cond, *P = (const CondGP *) p->cond, *Q = (const CondGP *) q->cond; std::multiset<int> u, v;
            for (int i = 0; i < A->gp.len; ++i) u.insert(A->gp.tree[i]); for (int i = 0; i < B->gp.len; ++i) u.insert(B->gp.tree[i]); for (int i = 0; i < P->gp.len; ++i) v.insert(P->gp.tree[i]); for (int i = 0; i < Q->gp.len; ++i) v.insert(Q->gp.tree[i]);
            if (u != v) bad(fmt("crossover of trees of %d and %d nodes gave %d and %d nodes, not an exchange", P->gp.len, Q->gp.len, A->gp.len, B->gp.len)); break; }
    }
}
void op_vary(Model &m, u64 seed, int k, double lo, double hi)
{
    XCSF *x = m.x; if (x->pset.size < 1) return;
    S s = in_child([&]() {
        std::vector<S> out; sink = &out; SimRng r = { seed }; std::vector<Cl *> v; for (const Clist *it = x->pset.list; it; it = it->next) v.push_back(it->cl);
        for (u64 i = sim_next(&r) % 50; i > 0; --i) rand_uniform(0, 1);
        for (int t = 0; t < k && out.empty(); ++t) {
            Cl *p = v[sim_next(&r) % v.size()], *q = v[sim_next(&r) % v.size()]; u64 hp = hgenes(x, p), hq = hgenes(x, q);
            Cl *a = twin_of(x, p), *b = twin_of(x, q);
            if (x->ea->pred_reset) { pred_free(x, a); pred_free(x, b); pred_copy(x, a, p); pred_copy(x, b, q); } // judged elsewhere
            if (hgenes(x, a) != hp || hgenes(x, b) != hq) { bad("an offspring does not start with its parent's genes"); break; }
            bool ch = cl_crossover(x, a, b); u64 ha = hgenes(x, a), hb = hgenes(x, b);
            if (!ch && (ha != hp || hb != hq)) bad("crossover changed offspring and says it did not");
            if (ch && x->ea->p_crossover == 0) bad("crossover took place although its probability is zero");
            if (hgenes(x, p) != hp || hgenes(x, q) != hq) bad("crossover changed a parent");
            crossed(x, a, b, p, q); rule_ok(x, a, false, lo, hi); rule_ok(x, b, false, lo, hi);
            for (int g = 0; g < 6 && out.empty(); ++g) {
                u64 h0 = hgenes(x, a); const Net *N[3] = { cnet(x, a), pnet(x, a), anet(x, a) }; const ArgsLayer *L[3] = { x->cond->largs, x->pred->largs, x->act->largs }; u64 w[3]; std::vector<int> sz[3];
                for (int j = 0; j < 3; ++j) if (N[j]) { w[j] = hnet(N[j], true); for (const Llist *it = N[j]->tail; it; it = it->prev) sz[j].push_back(units(it->layer)); }
                u64 hp0 = pnet(x, a) ? 0 : hpred(x, a);
                bool mod = cl_mutate(x, a);
                if (!mod && hgenes(x, a) != h0) bad("mutation changed a rule and says it did not");
                rule_ok(x, a, true, lo, hi);
                for (int j = 0; j < 3; ++j) if (N[j]) {
                    if (frozen(L[j]) && hnet(N[j], true) != w[j]) bad("mutation changed weights although none may evolve");
                    size_t i = 0; const ArgsLayer *A = L[j]; for (const Llist *it = N[j]->tail; it && A; it = it->prev, A = A->next, ++i) if (A->evolve_neurons && !parts(it->layer).empty() && abs(units(it->layer) - sz[j][i]) > A->max_neuron_grow) bad(fmt("a layer went from %d to %d units in one mutation, allowed are %d", sz[j][i], units(it->layer), A->max_neuron_grow));
                }
                if (!pnet(x, a) && !(x->pred->evolve_eta && (x->pred->type == PRED_TYPE_NLMS_LINEAR || x->pred->type == PRED_TYPE_NLMS_QUADRATIC)) && hpred(x, a) != hp0) bad("mutation changed a prediction that does not evolve");
                if (hgenes(x, p) != hp || hgenes(x, q) != hq) bad("mutation changed a parent");
            }
            cl_free(x, a); cl_free(x, b);
        }
        sink = nullptr; S all; for (auto &e : out) all += e + "\n"; return all + "ok\n"; });
    if (s.empty()) { count("vary_failed"); return; }
    size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); S l = s.substr(i, e - i); if (l != "ok") viol("C24", l); i = e + 1; }
    count("varied", k);
}
