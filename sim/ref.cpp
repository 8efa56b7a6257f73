// Reference checks: before a real operation the state is observed, a forked
// child evaluates each rule in isolation through the rule interfaces, the real
// operation runs, and the outcome is compared with an independent account of
// matching, prediction, covering, credit assignment, evolution and deletion.
#include "ref.hpp"
#include <functional>
#include <sys/wait.h>
#include <unistd.h>

static bool close_(double a, double b)
{
    if (a == b) return true;
    if (std::isnan(a) && std::isnan(b)) return true;
    double s = fmax(fabs(a), fabs(b));
    return fabs(a - b) <= 1e-9 * s + 1e-12;
}
// everything a rule's condition, action and prediction hold, as the code saves it
static char *hbuf; static size_t hlen; static FILE *hfp;
static void hbegin() { if (!hfp) { hbuf = (char *) malloc(1 << 22); hfp = fmemopen(hbuf, 1 << 22, "wb"); setvbuf(hfp, nullptr, _IOFBF, 1 << 18); } rewind(hfp); }
static u64 hend() { fflush(hfp); hlen = (size_t) ftell(hfp); return sim_hash(SIM_HASH0, hbuf, hlen); }
u64 hcond(const XCSF *x, const Cl *c) { hbegin(); cond_save(x, c, hfp); return hend(); }
u64 hact(const XCSF *x, const Cl *c) { hbegin(); act_save(x, c, hfp); return hend(); }
u64 hpred(const XCSF *x, const Cl *c) { hbegin(); pred_save(x, c, hfp); return hend(); }

PopObs observe(const XCSF *x, bool bodies)
{
    PopObs o; o.size = x->pset.size; o.num = x->pset.num; o.time = x->time; o.error = x->error;
    int guard = 0;
    for (const Clist *it = x->pset.list; it && guard < 100000; it = it->next, ++guard) {
        Cl *c = it->cl; RuleObs r;
        r.p = c; r.err = c->err; r.fit = c->fit; r.size = c->size; r.num = c->num; r.exp = c->exp; r.time = c->time;
        r.age = c->age; r.mtotal = c->mtotal; r.action = c->action; r.m = c->m; r.pred.assign(c->prediction, c->prediction + x->y_dim);
        r.jc = r.ja = r.jp = 0;
        if (bodies) { r.jc = hcond(x, c); r.ja = hact(x, c); r.jp = hpred(x, c); }
        o.at[c] = (int) o.r.size(); o.r.push_back(r);
    }
    return o;
}
void check_invariants(Model &m, const char *when)
{
    if (!chk.inv || !m.inited) return;
    XCSF *x = m.x; std::set<const Cl *> seen; long n = 0, num = 0;
    for (const Clist *it = x->pset.list; it; it = it->next) {
        size_t sz = 0;
        if (!sim_heap_live(it, &sz)) { viol("C06", fmt("%s: population list node is not live memory", when)); return; }
        if (!sim_heap_live(it->cl, &sz)) { viol("C06", fmt("%s: a removed rule is still reachable from the population", when)); return; }
        if (!seen.insert(it->cl).second) { viol("C06", fmt("%s: a rule appears twice in the population", when)); return; }
        const Cl *c = it->cl;
        if (c->num < 1) viol("C06", fmt("%s: rule with numerosity %d", when, c->num));
        if (c->mtotal > c->age) viol("C06", fmt("%s: rule matched %d of %d inputs seen", when, c->mtotal, c->age));
        if (c->exp < 0 || c->age < 0 || c->mtotal < 0) viol("C06", fmt("%s: negative counter", when));
        if (++n > 200000) { viol("C06", fmt("%s: population list does not end", when)); return; }
        num += c->num;
    }
    if (n != x->pset.size) viol("C06", fmt("%s: population size recorded %d, actual %ld", when, x->pset.size, n));
    if (num != x->pset.num) viol("C06", fmt("%s: total numerosity recorded %d, actual %ld", when, x->pset.num, num));
    if (num > x->POP_SIZE) viol("C06", fmt("%s: total numerosity %ld exceeds the maximum %d", when, num, x->POP_SIZE));
    count("invariant_checks");
}
S in_child(const std::function<S()> &f)
{
    int p[2]; if (pipe(p)) return "";
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]); in_peek = true; sim_disk_faults_on = 0; sim_sched.budget = 0;
        S s = f(); size_t k = 0;
        while (k < s.size()) { ssize_t w = write(p[1], s.data() + k, s.size() - k); if (w <= 0) break; k += (size_t) w; }
        _exit(0);
    }
    close(p[1]); S r; char b[65536]; ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) r.append(b, (size_t) n);
    close(p[0]); int st; waitpid(pid, &st, 0);
    if (st != 0) { count("peek_failed"); return ""; }
    return r;
}

// ---------- an independent account of the rules' own arithmetic ----------
// What a rule holds, as it exports itself.
struct View { S type; Vd a, b; S str; Vd w; double eta = 0; int action = -1; bool ok = false; };
static Vd arr(const cJSON *o, const char *k) { Vd v; const cJSON *it, *a = cJSON_GetObjectItem(o, k); cJSON_ArrayForEach(it, a) v.push_back(it->valuedouble); return v; }
static View view_of(char *j)
{
    View v; if (!j) return v; cJSON *o = cJSON_Parse(j); sim_free(j); if (!o) return v;
    const cJSON *t = cJSON_GetObjectItem(o, "type"); if (t && t->valuestring) v.type = t->valuestring;
    if (v.type == "hyperrectangle_ubr") { v.a = arr(o, "bound1"); v.b = arr(o, "bound2"); }
    else if (v.type == "hyperrectangle_csr" || v.type == "hyperellipsoid") { v.a = arr(o, "center"); v.b = arr(o, "spread"); }
    else if (v.type == "ternary") { const cJSON *q = cJSON_GetObjectItem(o, "string"); if (q && q->valuestring) v.str = q->valuestring; }
    else if (v.type == "constant") v.w = arr(o, "prediction");
    else { v.w = arr(o, "weights"); const cJSON *q = cJSON_GetObjectItem(o, "eta"); if (q) v.eta = q->valuedouble; q = cJSON_GetObjectItem(o, "action"); if (q && cJSON_IsNumber(q)) v.action = q->valueint; }
    v.ok = true; cJSON_Delete(o); return v;
}
static bool geometric(const XCSF *x) { switch (x->cond->type) { case COND_TYPE_DUMMY: case COND_TYPE_HYPERRECTANGLE_CSR: case COND_TYPE_HYPERRECTANGLE_UBR: case COND_TYPE_HYPERELLIPSOID: case COND_TYPE_TERNARY: return true; } return false; }
static View cview(const XCSF *x, const Cl *c) { if (x->cond->type == COND_TYPE_DUMMY) { View v; v.type = "dummy"; v.ok = true; return v; } return view_of(cond_json_export(x, c)); }
static S bits_of(double f, int n) { if (f >= 1) return S((size_t) n, '1'); if (f <= 0) return S((size_t) n, '0'); S s; for (int i = 0; i < n; ++i) { f *= 2; if (f >= 1) { s += '1'; f -= 1; } else s += '0'; } return s; }
static double ell(const View &v, const double *p) { double d = 0; for (size_t i = 0; i < v.a.size(); ++i) { double q = (p[i] - v.a[i]) / v.b[i]; d += q * q; } return d; }
// 1 inside, 0 outside, -1 unknown or within rounding of the border
static int geo_match(const XCSF *x, const View &v, const double *X)
{
    size_t n = (size_t) x->x_dim; bool edge = false;
    if (v.type == "dummy") return 1;
    if (v.type == "hyperrectangle_ubr" && v.a.size() == n && v.b.size() == n) { for (size_t i = 0; i < n; ++i) if ((X[i] < v.a[i] && X[i] < v.b[i]) || (X[i] > v.a[i] && X[i] > v.b[i])) return 0; return 1; }
    if (v.type == "hyperrectangle_csr" && v.a.size() == n && v.b.size() == n) {
        for (size_t i = 0; i < n; ++i) { double d = fabs(X[i] - v.a[i]); if (d == 0) continue; if (fabs(d - v.b[i]) <= 1e-12 * (1 + fabs(X[i]) + fabs(v.a[i]))) edge = true; else if (d > v.b[i]) return 0; }
        return edge ? -1 : 1;
    }
    if (v.type == "hyperellipsoid" && v.a.size() == n && v.b.size() == n) { double d = ell(v, X); if (!(fabs(d - 1) > 1e-9 * (1 + d))) return -1; return d < 1; }
    if (v.type == "ternary") {
        int b = x->cond->bits; if (v.str.size() != n * (size_t) b) return -1;
        for (size_t i = 0; i < n; ++i) { S s = bits_of(X[i], b); for (int j = 0; j < b; ++j) { char c = v.str[i * (size_t) b + (size_t) j]; if (c != '#' && c != s[(size_t) j]) return 0; } }
        return 1;
    }
    return -1;
}
// 1: a is at least as general as b; 0: it is not; -1: unknown or a matter of rounding
static int geo_general(const XCSF *x, const View &a, const View &b)
{
    size_t n = (size_t) x->x_dim; bool edge = false;
    if (a.type == "dummy") return 0;
    if (a.type == "hyperrectangle_ubr" && a.a.size() == n && b.a.size() == n) { for (size_t i = 0; i < n; ++i) if (fmin(a.a[i], a.b[i]) > fmin(b.a[i], b.b[i]) || fmax(a.a[i], a.b[i]) < fmax(b.a[i], b.b[i])) return 0; return 1; }
    if (a.type == "hyperrectangle_csr" && a.a.size() == n && b.a.size() == n) {
        for (size_t i = 0; i < n; ++i) { double m = a.b[i] - b.b[i] - fabs(a.a[i] - b.a[i]); if (a.a[i] == b.a[i] && a.b[i] == b.b[i]) continue; if (fabs(m) <= 1e-12 * (1 + fabs(a.a[i]) + a.b[i])) edge = true; else if (m < 0) return 0; }
        return edge ? -1 : 1;
    }
    if (a.type == "hyperellipsoid" && a.a.size() == n && b.a.size() == n) {
        Vd p = b.a;
        for (size_t i = 0; i < n; ++i) { if (a.a[i] == b.a[i] && a.b[i] == b.b[i]) continue;
            for (int s = -1; s < 2; s += 2) { p[i] = b.a[i] + s * b.b[i]; double d = ell(a, p.data()); if (!(fabs(d - 1) > 1e-9 * (1 + d))) edge = true; else if (d > 1) return 0; }
            p[i] = b.a[i]; }
        return edge ? -1 : 1;
    }
    if (a.type == "ternary") { if (a.str.size() != b.str.size()) return -1; bool more = false; for (size_t i = 0; i < a.str.size(); ++i) { if (a.str[i] != '#' && a.str[i] != b.str[i]) return 0; if (a.str[i] != b.str[i]) more = true; } return more ? 1 : -1; }
    return -1;
}
static bool own_act_general(const XCSF *x, const Cl *a, const Cl *b)
{
    bool ruled = x->cond->type == RULE_TYPE_DGP || x->cond->type == RULE_TYPE_NEURAL || x->cond->type == RULE_TYPE_NETWORK;
    if (x->act->type != ACT_TYPE_INTEGER || ruled) return act_general(x, a, b);
    View u = view_of(act_json_export(x, a)), v = view_of(act_json_export(x, b)); return u.ok && v.ok && u.action >= 0 ? u.action == v.action : act_general(x, a, b);
}
static Vd feats_of(const XCSF *x, const double *X)
{
    Vd v; v.push_back(x->pred->x0); for (int i = 0; i < x->x_dim; ++i) v.push_back(X[i]);
    if (x->pred->type == PRED_TYPE_NLMS_QUADRATIC || x->pred->type == PRED_TYPE_RLS_QUADRATIC) for (int i = 0; i < x->x_dim; ++i) for (int j = i; j < x->x_dim; ++j) v.push_back(X[i] * X[j]);
    return v;
}
static bool linear_pred(const XCSF *x) { switch (x->pred->type) { case PRED_TYPE_CONSTANT: case PRED_TYPE_NLMS_LINEAR: case PRED_TYPE_NLMS_QUADRATIC: case PRED_TYPE_RLS_LINEAR: case PRED_TYPE_RLS_QUADRATIC: return true; } return false; }
static bool near_(double a, double b, double scale, double rel = 1e-8) { if (a == b) return true; if (!std::isfinite(a) || !std::isfinite(b) || !std::isfinite(scale)) return true; return fabs(a - b) <= rel * (fabs(a) + fabs(b) + scale) + 1e-12; }
// does c->prediction follow from the weights and the input
static bool pred_ok(const XCSF *x, const View &v, const Cl *c, const double *X)
{
    if (x->pred->type == PRED_TYPE_CONSTANT) return true;
    Vd f = feats_of(x, X); if (v.w.size() != f.size() * (size_t) x->y_dim) return true;
    for (int i = 0; i < x->y_dim; ++i) { double s = 0, big = 0; for (size_t k = 0; k < f.size(); ++k) { double q = v.w[(size_t) i * f.size() + k] * f[k]; s += q; big += fabs(q); } if (!near_(s, c->prediction[i], big)) return false; }
    return true;
}
// the gain matrix of a recursive least squares prediction, from its saved form
static Vd rls_matrix(const XCSF *x, const Cl *c, size_t n)
{
    hpred(x, c); Vd m; size_t want = 2 * sizeof(int) + sizeof(double) * (n * (size_t) x->y_dim + n * n); if (hlen != want) return m;
    m.resize(n * n); memcpy(m.data(), hbuf + hlen - sizeof(double) * n * n, sizeof(double) * n * n); return m;
}
struct Before { View c, p; Vd m, pred; bool on = false; };
static Before learners_before(const XCSF *x, const Cl *c, const double *X)
{
    Before b; b.on = true; if (geometric(x)) b.c = cview(x, c);
    if (linear_pred(x)) { b.p = view_of(pred_json_export(x, c)); b.pred.assign(c->prediction, c->prediction + x->y_dim); if (x->pred->type == PRED_TYPE_RLS_LINEAR || x->pred->type == PRED_TYPE_RLS_QUADRATIC) b.m = rls_matrix(x, c, feats_of(x, X).size()); }
    return b;
}
// after one update with experience c->exp: 0 as documented, 1 prediction differs, 2 condition differs
static int learners_after(const XCSF *x, const Before &b, const Cl *c, const double *X, const double *Y)
{
    size_t yd = (size_t) x->y_dim;
    if (geometric(x) && b.c.ok) {
        View v = cview(x, c); double eta = x->cond->eta;
        if ((v.type == "hyperrectangle_csr" || v.type == "hyperellipsoid") && v.a.size() == b.c.a.size()) { for (size_t i = 0; i < v.a.size(); ++i) if (!near_(v.a[i], b.c.a[i] + eta * (X[i] - b.c.a[i]), 1e-3) || v.b[i] != b.c.b[i]) return 2; }
        else if (v.a != b.c.a || v.b != b.c.b || v.str != b.c.str) return 2;
    }
    if (!linear_pred(x) || !b.p.ok) return 0;
    View v = view_of(pred_json_export(x, c));
    if (x->pred->type == PRED_TYPE_CONSTANT) {
        for (size_t i = 0; i < yd; ++i) { double e = c->exp * x->BETA < 1 ? (b.pred[i] * (c->exp - 1) + Y[i]) / c->exp : b.pred[i] + x->BETA * (Y[i] - b.pred[i]); if (!near_(c->prediction[i], e, fabs(Y[i]))) return 1; }
        return 0;
    }
    Vd f = feats_of(x, X); size_t n = f.size(); if (v.w.size() != n * yd || b.p.w.size() != n * yd) return 0;
    Vd g(n); double rel = 1e-8;
    if (x->pred->type == PRED_TYPE_NLMS_LINEAR || x->pred->type == PRED_TYPE_NLMS_QUADRATIC) {
        double norm = f[0] * f[0]; for (int i = 0; i < x->x_dim; ++i) norm += X[i] * X[i];
        for (size_t k = 0; k < n; ++k) g[k] = b.p.eta * f[k] / norm;
        if (v.eta != b.p.eta) return 1;
    } else {
        if (b.m.size() != n * n) return 0;
        double d = 0, big = 0; for (size_t i = 0; i < n; ++i) { g[i] = 0; for (size_t k = 0; k < n; ++k) { g[i] += b.m[i * n + k] * f[k]; big = fmax(big, fabs(b.m[i * n + k])); } d += f[i] * g[i]; }
        d += x->pred->lambda; if (!(fabs(d) > 1e-3) || !(big < 1e7)) return 0; // too ill-conditioned to recompute
        for (size_t i = 0; i < n; ++i) g[i] /= d;
        rel = 1e-6;
        Vd m = rls_matrix(x, c, n); if (m.size() != n * n) return 0;
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { double e = b.m[i * n + j]; for (size_t k = 0; k < n; ++k) e -= g[i] * f[k] * b.m[k * n + j]; if (!near_(m[i * n + j], e / x->pred->lambda, big, rel)) return 1; }
    }
    for (size_t i = 0; i < yd; ++i) { double err = Y[i] - b.pred[i]; for (size_t k = 0; k < n; ++k) { double e = b.p.w[i * n + k] + g[k] * err; if (!near_(v.w[i * n + k], e, fabs(g[k] * err) + fabs(g[k]) * (fabs(Y[i]) + fabs(b.pred[i])), rel)) return 1; } }
    return 0;
}
// the configured measure of error; NaN when there is no opinion
static double own_loss(const XCSF *x, const double *p, const double *y)
{
    int n = x->y_dim; double s = 0; S t = loss_type_as_string(x->LOSS_FUNC);
    if (t == "mae") { for (int i = 0; i < n; ++i) s += fabs(y[i] - p[i]); return s / n; }
    if (t == "mse" || t == "rmse") { for (int i = 0; i < n; ++i) s += (y[i] - p[i]) * (y[i] - p[i]); s /= n; return t == "mse" ? s : sqrt(s); }
    if (t == "log") { for (int i = 0; i < n; ++i) s -= y[i] * log(fmax(p[i], DBL_EPSILON)); return s; }
    if (t == "binary_log") { for (int i = 0; i < n; ++i) s -= y[i] * log(fmax(p[i], DBL_EPSILON)) + (1 - y[i]) * log(fmax(1 - p[i], DBL_EPSILON)); return s; }
    if (t == "onehot") { int b = 0; for (int i = 1; i < n; ++i) { if (p[i] == p[b]) return NAN; if (p[i] > p[b]) b = i; } for (int i = 0; i < n; ++i) if (i != b && p[i] == p[b]) return NAN; return y[b] == 1 ? 0 : 1; }
    if (t == "huber") { double d = x->HUBER_DELTA; for (int i = 0; i < n; ++i) { double a = fabs(y[i] - p[i]); s += a > d ? d * (a - 0.5 * d) : 0.5 * a * a; } return s / n; }
    return NAN;
}
static bool loss_ok(const XCSF *x, double l, const double *p, const double *y) { double e = own_loss(x, p, y); return std::isnan(e) || near_(l, e, 1e-3); }
enum { F_MATCH = 1, F_PRED = 2, F_UPD = 4, F_COND = 8, F_LOSS = 16, F_ACT = 32, F_GEN = 64 };
static void report_flags(int i, int f)
{
    if (f & F_MATCH) viol("C07", fmt("rule %d: its condition does not match according to its bounds", i));
    if (f & F_ACT) viol("C07", fmt("rule %d: it does not advocate the action it holds", i));
    if (f & F_PRED) viol("C07", fmt("rule %d: its prediction does not follow from its weights and the input", i));
    if (f & F_UPD) viol("C08", fmt("rule %d: its prediction was not updated by its learning rule", i));
    if (f & F_COND) viol("C08", fmt("rule %d: its condition was not updated by its learning rule", i));
    if (f & F_LOSS) viol("C08", fmt("rule %d: its error is not the configured measure of its prediction's error", i));
    if (f & F_GEN) viol("C09", fmt("rule %d: it counts as more general than a rule whose region it does not contain, or the reverse", i));
}
struct PR { int m, action, flags; double loss; u64 jc0, ja0, jp0, jc1, ja1, jp1; int eligible; };
struct Peek { bool ok = false; std::vector<PR> r; std::vector<Vd> pred; std::vector<std::vector<uint8_t>> gen; };

// update_if: which matched rules the trial is going to update (-2: none, -1: all, a: those advocating a)
static Peek peek(Model &mo, const double *X, const double *Y, int update_if)
{
    XCSF *x = mo.x;
    S s = in_child([&]() {
        S o; std::vector<PR> rs; std::vector<Cl *> cs; S preds; std::vector<View> vs; int n0 = x->pset.size;
        bool look = geometric(x) && n0 <= 100, ruled = x->cond->type == RULE_TYPE_DGP || x->cond->type == RULE_TYPE_NEURAL || x->cond->type == RULE_TYPE_NETWORK;
        for (const Clist *it = x->pset.list; it; it = it->next) {
            Cl *c = it->cl; PR r; memset(&r, 0, sizeof r);
            View cv; if (look) { cv = cview(x, c); vs.push_back(cv); }
            r.m = cond_match(x, c, X); r.action = act_compute(x, c, X);
            if (look && cv.ok) { int gm = geo_match(x, cv, X); if (gm >= 0 && gm != r.m) r.flags |= F_MATCH; }
            if (x->act->type == ACT_TYPE_INTEGER && !ruled && n0 <= 100) { View a = view_of(act_json_export(x, c)); if (a.action >= 0 && a.action != r.action) r.flags |= F_ACT; }
            r.jc0 = hcond(x, c); r.ja0 = hact(x, c);
            bool up = r.m && update_if != -2 && (update_if == -1 || r.action == update_if); Before bf;
            if (r.m) { pred_compute(x, c, X); if (up && n0 <= 100) bf = learners_before(x, c, X); if (linear_pred(x) && n0 <= 100 && !pred_ok(x, bf.on ? bf.p : view_of(pred_json_export(x, c)), c, X)) r.flags |= F_PRED; }
            r.jp0 = hpred(x, c);
            preds.append((char *) c->prediction, sizeof(double) * (size_t) x->y_dim);
            if (up) {
                r.loss = x->loss_ptr(x, c->prediction, Y); c->exp++; if (!loss_ok(x, r.loss, c->prediction, Y)) r.flags |= F_LOSS;
                cond_update(x, c, X, Y); pred_update(x, c, X, Y); act_update(x, c, X, Y);
                if (bf.on) { int l = learners_after(x, bf, c, X, Y); if (l) r.flags |= l == 1 ? F_UPD : F_COND; if (look) vs.back() = cview(x, c); }
                r.jc1 = hcond(x, c); r.ja1 = hact(x, c); r.jp1 = hpred(x, c);
                int e = c->exp; double err = e * x->BETA < 1 ? (c->err * (e - 1) + r.loss) / e : c->err + x->BETA * (r.loss - c->err);
                r.eligible = e > x->THETA_SUB && err < x->E0;
            }
            rs.push_back(r); cs.push_back(c);
        }
        int n = (int) rs.size();
        if (look && n <= 40) for (int i = 0; i < n; ++i) if (rs[i].eligible) for (int j = 0; j < n; ++j) if (i != j) { int g = geo_general(x, vs[i], vs[j]); if ((g >= 0 && g != (int) cond_general(x, cs[i], cs[j])) || act_general(x, cs[i], cs[j]) != own_act_general(x, cs[i], cs[j])) rs[i].flags |= F_GEN; }
        o.append((char *) &n, sizeof n); o.append((char *) rs.data(), sizeof(PR) * rs.size()); o += preds;
        for (int i = 0; i < n; ++i)
            if (rs[i].eligible)
                for (int j = 0; j < n; ++j) {
                    bool upd = rs[j].m && (update_if == -1 || rs[j].action == update_if);
                    o += (char) (i != j && upd && cond_general(x, cs[i], cs[j]) && act_general(x, cs[i], cs[j]));
                }
        return o;
    });
    Peek p; if (s.size() < sizeof(int)) return p;
    int n; memcpy(&n, s.data(), sizeof n); size_t k = sizeof n;
    p.r.resize((size_t) n); memcpy(p.r.data(), s.data() + k, sizeof(PR) * (size_t) n); k += sizeof(PR) * (size_t) n;
    for (int i = 0; i < n; ++i) { Vd v((size_t) x->y_dim); memcpy(v.data(), s.data() + k, sizeof(double) * v.size()); k += sizeof(double) * v.size(); p.pred.push_back(v); }
    p.gen.resize((size_t) n);
    for (int i = 0; i < n; ++i) if (p.r[(size_t) i].eligible) { p.gen[(size_t) i].assign(s.data() + k, s.data() + k + n); k += (size_t) n; }
    p.ok = true; return p;
}
struct ChildEval { std::map<Cl *, std::pair<int, int>> v; bool ok = false; };
static ChildEval eval_all(XCSF *x, const double *X)
{
    S s = in_child([&]() {
        S o;
        for (const Clist *it = x->pset.list; it; it = it->next) {
            int a[2]; a[0] = cond_match(x, it->cl, X); a[1] = act_compute(x, it->cl, X);
            if (geometric(x) && x->pset.size <= 100) { int g = geo_match(x, cview(x, it->cl), X); if (g >= 0) a[0] = g; }
            o.append((char *) a, sizeof a);
        }
        return o;
    });
    ChildEval e; size_t k = 0;
    for (const Clist *it = x->pset.list; it; it = it->next) {
        if (k + 8 > s.size()) return e;
        int a[2]; memcpy(a, s.data() + k, 8); k += 8; e.v[it->cl] = { a[0], a[1] };
    }
    e.ok = true; return e;
}
static double acc_of(const XCSF *x, double err)
{
    if (err > x->E0) return fmax(x->ALPHA * pow(err / x->E0, -x->NU), DBL_EPSILON);
    return 1;
}
static void upd(const XCSF *x, double &err, double &size, int &exp, double loss, double set_num)
{
    ++exp;
    if (exp * x->BETA < 1) { err = (err * (exp - 1) + loss) / exp; size = (size * (exp - 1) + set_num) / exp; }
    else { err += x->BETA * (loss - err); size += x->BETA * (set_num - size); }
}
// members of an evolving set, with their values when evolution ran
struct Mem { double err, fit, size; int num; };
static void check_offspring(const XCSF *x, const std::vector<Mem> &set, const std::vector<const RuleObs *> &off, bool exact)
{
    if (off.empty()) return;
    int pairs = (x->ea->lambda + 1) / 2;
    for (auto *o : off) {
        if (o->exp != 0) viol("C09", fmt("offspring starts with experience %d", o->exp));
        if (o->age != 0 || o->mtotal != 0) viol("C09", "offspring starts with match counts");
    }
    if ((int) off.size() > 2 * pairs) viol("C09", fmt("%zu offspring inserted, at most %d expected", off.size(), 2 * pairs));
    if (!exact || set.size() > 64) return;
    auto one = [&](const RuleObs *o, const Mem &p) {
        if (!close_(o->err, x->ea->err_reduc * p.err)) return false;
        for (int k = 0; k <= 2 * pairs; ++k) if (close_(o->fit, x->ea->fit_reduc * (p.fit / (p.num + k)))) return true;
        return false;
    };
    auto cross = [&](const RuleObs *o, const Mem &p, const Mem &q) {
        if (!close_(o->err, x->ea->err_reduc * 0.5 * (p.err + q.err))) return false;
        for (int k = 0; k <= 2 * pairs; ++k) for (int l = 0; l <= 2 * pairs; ++l)
            if (close_(o->fit, x->ea->fit_reduc * 0.5 * (p.fit / (p.num + k) + q.fit / (q.num + l)))) return true;
        return false;
    };
    for (auto &p : set) for (auto &q : set) {
        bool all = true;
        for (auto *o : off) if (!(one(o, p) || one(o, q) || cross(o, p, q))) { all = false; break; }
        if (!all) continue;
        bool sz = true;
        for (auto *o : off) if (!close_(o->size, p.size) && !close_(o->size, q.size)) sz = false;
        if (sz) { count("offspring_checked", (long) off.size()); return; }
    }
    S d; for (auto *o : off) d += fmt(" (err %.12g fit %.12g size %.12g)", o->err, o->fit, o->size);
    viol("C09", "offspring error/fitness/set size do not derive from two members of the set:" + d);
}

// ---------- what became of the offspring ----------
// The step is played twice in copies of the process without a population limit: once with
// offspring subsumption off, which shows the offspring, and once as configured.
struct TR { u64 id; int num, exp, time, off; double err; }; // id: the address of a rule that was there, the contents of a new one
struct Twin { bool ok = false; std::vector<TR> r; std::vector<u64> off; std::vector<std::vector<signed char>> gen; int time = 0; }; // gen[rule][offspring]
static Twin twin_run(XCSF *x, const PopObs &pre, bool sub, const std::function<void()> &op)
{
    S s = in_child([&]() {
        x->ea->subsumption = sub; x->ea->lambda = 2; x->POP_SIZE = 1 << 28; op(); S o; std::vector<TR> rs; std::vector<Cl *> off, cs; std::vector<u64> oid; std::set<u64> used;
        for (const Clist *it = x->pset.list; it; it = it->next) {
            Cl *c = it->cl; u64 id = (u64) (uintptr_t) c; bool fresh = !pre.at.count(c), isoff = fresh && c->exp == 0 && c->time == x->time;
            if (fresh) { u64 q[3] = { hcond(x, c), hact(x, c), hpred(x, c) }; id = sim_hash(SIM_HASH0, q, sizeof q); while (!used.insert(id).second) ++id; }
            cs.push_back(c); rs.push_back({ id, c->num, c->exp, c->time, isoff, c->err }); if (isoff) { off.push_back(c); oid.push_back(id); }
        }
        int h[3] = { (int) rs.size(), (int) off.size(), x->time }; o.append((char *) h, sizeof h); o.append((char *) rs.data(), sizeof(TR) * rs.size()); o.append((char *) oid.data(), sizeof(u64) * oid.size());
        bool geo = geometric(x) && rs.size() <= 100;
        for (size_t i = 0; i < rs.size(); ++i) for (Cl *c : off) { // 1 yes, 0 no, 2 cannot say
            signed char g = 0; const TR &r = rs[i];
            if (!r.off && r.time == x->time && r.exp > x->THETA_SUB && own_act_general(x, cs[i], c)) { int k = geo ? geo_general(x, cview(x, cs[i]), cview(x, c)) : (int) cond_general(x, cs[i], c); g = (signed char) (k < 0 ? 2 : k); }
            o += (char) g;
        }
        return o;
    });
    Twin t; int h[3]; if (s.size() < sizeof h) return t; memcpy(h, s.data(), sizeof h); size_t k = sizeof h; t.time = h[2];
    t.r.resize((size_t) h[0]); memcpy((void *) t.r.data(), s.data() + k, sizeof(TR) * t.r.size()); k += sizeof(TR) * t.r.size();
    t.off.resize((size_t) h[1]); memcpy(t.off.data(), s.data() + k, sizeof(u64) * t.off.size()); k += sizeof(u64) * t.off.size();
    for (size_t i = 0; i < t.r.size(); ++i) { t.gen.emplace_back(s.data() + k, s.data() + k + h[1]); k += (size_t) h[1]; }
    t.ok = true; return t;
}
static void check_subsumed(XCSF *x, const PopObs &pre, const std::function<void()> &op)
{
    if (!x->ea->subsumption) return;
    Twin a = twin_run(x, pre, false, op); if (!a.ok || a.off.empty()) return;
    Twin b = twin_run(x, pre, true, op); if (!b.ok) return;
    count("offspring_subsumption_checked");
    std::map<u64, int> nb; for (auto &r : b.r) nb[r.id] = r.num;
    std::set<u64> offs(a.off.begin(), a.off.end()), known; for (auto &r : a.r) known.insert(r.id);
    for (auto &r : b.r) if (!known.count(r.id)) { viol("C09", "with subsumption a rule appeared that is neither an offspring nor was there before"); return; }
    std::vector<size_t> grown; int total = 0; // indices in a.r, once for each unit of growth
    for (size_t i = 0; i < a.r.size(); ++i) {
        if (offs.count(a.r[i].id)) continue;
        if (!nb.count(a.r[i].id)) { viol("C09", "a rule was removed by the subsumption of offspring"); return; }
        int d = nb[a.r[i].id] - a.r[i].num; total += d;
        if (d < 0) { viol("C06", "a rule lost numerosity when offspring were subsumed"); return; }
        for (int k = 0; k < d; ++k) grown.push_back(i);
    }
    std::vector<size_t> lost; for (size_t j = 0; j < a.off.size(); ++j) if (!nb.count(a.off[j])) lost.push_back(j);
    if (total != (int) lost.size()) { viol("C06", fmt("%zu offspring were subsumed but numerosity grew by %d", lost.size(), total)); return; }
    auto border = [&](size_t i) { return fabs(a.r[i].err - x->E0) <= 1e-9 * fmax(1, x->E0); };
    auto may = [&](size_t i, size_t j) { int g = a.gen[i][j]; return g && (a.r[i].err < x->E0 || border(i)); };
    bool fine = lost.empty() || (lost.size() == 1 && may(grown[0], lost[0])) || (lost.size() == 2 && ((may(grown[0], lost[0]) && may(grown[1], lost[1])) || (may(grown[0], lost[1]) && may(grown[1], lost[0]))));
    if (!fine) viol("C09", "an offspring was subsumed by a rule that is not an experienced, accurate and more general member of the set");
    if (!lost.empty()) count("offspring_subsumed");
    for (size_t j = 0; j < a.off.size(); ++j) if (nb.count(a.off[j])) for (size_t i = 0; i < a.r.size(); ++i)
        if (!offs.count(a.r[i].id) && a.gen[i][j] == 1 && a.r[i].err < x->E0 && !border(i)) { viol("C09", "an offspring was added although an experienced, accurate and more general rule of the set could subsume it"); return; }
}


// A trial: matching (+ covering), prediction, and, when learn, update and evolution.
void ref_trial(Model &mo, const TrialSpec &t, const std::function<void()> &op)
{
    XCSF *x = mo.x; const double *X = t.X;
    if (mo.noref) { op(); return; }
    PopObs pre = observe(x, true);
    Peek pk = peek(mo, X, t.Y, t.learn ? t.action : -2);
    double pre_error = x->error, pre_ms = x->mset_size, pre_as = x->aset_size, pre_mf = x->mfrac; int pre_time = x->time;
    if (t.learn) check_subsumed(x, pre, op);
    op();
    if (!pk.ok || mo.noref) return;
    PopObs post = observe(x, true);
    count(t.learn ? "ref_learn_trials" : "ref_eval_trials");
    { int told = 0; for (size_t i = 0; i < pk.r.size() && told < 3; ++i) if (pk.r[i].flags) { report_flags((int) i, pk.r[i].flags); ++told; } }
    int n = (int) pre.r.size(), A = x->n_actions, Yd = x->y_dim;
    // --- matching and covering ---
    std::vector<char> adv((size_t) A, 0); int matched = 0;
    for (int i = 0; i < n; ++i) {
        if (pk.r[(size_t) i].action < 0 || pk.r[(size_t) i].action >= A) { viol("C07", fmt("rule advocates action %d of %d", pk.r[(size_t) i].action, A)); return; }
        if (pk.r[(size_t) i].m) { adv[(size_t) pk.r[(size_t) i].action] = 1; matched++; }
    }
    int missing = 0;
    if (t.covering) { if (A > 1) { for (char a : adv) if (!a) missing++; } else if (!matched) missing = 1; }
    bool delcov = missing > 0 && pre.num + missing > x->POP_SIZE;
    std::vector<const RuleObs *> fresh, covered, off;
    for (auto &r : post.r) if (!pre.at.count(r.p)) fresh.push_back(&r);
    for (auto *r : fresh) {
        if (!t.learn) covered.push_back(r);
        else if (r->exp > 0 || r->time != x->time) covered.push_back(r);
        else off.push_back(r);
    }
    if (missing) count("covering_trials");
    if (delcov) count("covering_with_deletion");
    if (!missing && !covered.empty()) viol("C07", fmt("%zu rules were created by covering although every action was advocated", covered.size()));
    if (!t.learn && missing && !delcov && (int) covered.size() != missing) viol("C07", fmt("%d actions were missing but %zu rules were created", missing, covered.size()));
    if (!t.learn) {
        for (auto *r : covered) {
            if (r->num != 1 && !delcov) viol("C06", "covering created a rule with numerosity other than one");
            if (A > 1 && r->action >= 0 && r->action < A && adv[(size_t) r->action] && !delcov) viol("C07", fmt("covering created a rule for action %d which was advocated already", r->action));
        }
        int exp_num = pre.num + missing; if (exp_num > x->POP_SIZE) exp_num = x->POP_SIZE;
        if (missing == 0) exp_num = pre.num;
        if (post.num != exp_num) viol("C06", fmt("total numerosity %d, expected %d (was %d, %d covered, maximum %d)", post.num, exp_num, pre.num, missing, x->POP_SIZE));
        if (t.covering && missing) {
            ChildEval e; // rules with internal state move on when evaluated again: take what they recorded
            if (mo.stateful_rules) { for (const Clist *it = x->pset.list; it; it = it->next) e.v[it->cl] = { it->cl->m, it->cl->action }; e.ok = true; } else e = eval_all(x, X);
            if (e.ok) {
                std::vector<char> ad((size_t) A, 0); bool any = false;
                for (auto &kv : e.v) if (kv.second.first && kv.second.second >= 0 && kv.second.second < A) { ad[(size_t) kv.second.second] = 1; any = true; }
                if (A > 1) { for (int a = 0; a < A; ++a) if (!ad[(size_t) a]) viol("C07", fmt("after covering no matching rule advocates action %d", a)); }
                else if (!any) viol("C07", "after covering no rule matches the input");
                count("cover_verified");
            }
        }
    }
    // --- per rule: match flags and counters ---
    for (int i = 0; i < n; ++i) {
        auto it = post.at.find(pre.r[(size_t) i].p); if (it == post.at.end()) continue;
        const RuleObs &a = pre.r[(size_t) i], &b = post.r[(size_t) it->second]; const PR &e = pk.r[(size_t) i];
        if (b.m != (bool) e.m) viol("C07", fmt("rule %d: match flag %d, the condition says %d", i, b.m, e.m));
        if (e.m && b.action != e.action) viol("C07", fmt("rule %d: recorded action %d, the rule says %d", i, b.action, e.action));
        if (b.age != a.age + 1 || b.mtotal != a.mtotal + (e.m ? 1 : 0)) viol("C06", fmt("rule %d: seen/matched %d/%d -> %d/%d with match=%d", i, a.age, a.mtotal, b.age, b.mtotal, e.m));
    }
    // --- statistics of the match ---
    if (!delcov) {
        double e = pre_ms + (matched + missing - pre_ms) * x->BETA;
        if (!close_(x->mset_size, e)) viol("C22", fmt("average match set size %.12g, expected %.12g (was %.12g, %d rules matched, %d were created)", x->mset_size, e, pre_ms, matched, missing));
        if (t.learn && t.action >= 0) {
            int k = 0; for (int i = 0; i < n; ++i) if (pk.r[(size_t) i].m && pk.r[(size_t) i].action == t.action) ++k;
            if (!k) k = missing ? 1 : 0;
            e = pre_as + (k - pre_as) * x->BETA;
            if (!close_(x->aset_size, e)) viol("C22", fmt("average action set size %.12g, expected %.12g (was %.12g, %d rules)", x->aset_size, e, pre_as, k));
        } else if (x->aset_size != pre_as) viol("C22", "average action set size changed although no action set was formed");
        // the fraction of inputs matched by the most general accurate rule, else by the most accurate one
        double best = -1, low = INFINITY; std::vector<double> lows; bool bord = false;
        for (int i = 0; i < n; ++i) {
            const RuleObs &a = pre.r[(size_t) i]; double w = a.exp * x->BETA; if (fabs(w - 1) < 1e-9) bord = true;
            if (!(w > 1)) continue;
            double m = (double) (a.mtotal + (pk.r[(size_t) i].m ? 1 : 0)) / (a.age + 1);
            if (a.err < x->E0) best = fmax(best, m);
            if (a.err < low) { low = a.err; lows.clear(); }
            if (a.err == low) lows.push_back(m);
        }
        if (best > 0) { lows.clear(); lows.push_back(best); } else if (lows.empty()) lows.push_back(0);
        bool ok = bord; for (double m : lows) if (close_(x->mfrac, pre_mf + (m - pre_mf) * x->BETA)) ok = true;
        if (!ok) viol("C22", fmt("average matched fraction %.12g, expected %.12g (was %.12g)", x->mfrac, pre_mf + (lows[0] - pre_mf) * x->BETA, pre_mf));
        count(best > 0 ? "mfrac_accurate" : low < INFINITY ? "mfrac_lowest" : "mfrac_none");
    }
    // --- prediction array ---
    bool removed_any = false; for (auto &r : pre.r) if (!post.at.count(r.p)) removed_any = true;
    if (t.cover && !matched) {
        for (int k = 0; k < A * Yd; ++k) if (!(x->pa[k] == t.cover[k])) viol("C07", fmt("no rule matched but prediction[%d] is %.12g, not the substitute %.12g", k, x->pa[k], t.cover[k]));
        count("cover_substitute");
    } else {
        bool usable = !(t.learn && (delcov || !covered.empty() || missing)) || (!t.learn);
        if (usable) {
            Vd s((size_t) (A * Yd), 0), w((size_t) (A * Yd), 0), big((size_t) (A * Yd), 0);
            for (int i = 0; i < n; ++i) {
                if (!pk.r[(size_t) i].m) continue;
                if (!t.learn && delcov && !post.at.count(pre.r[(size_t) i].p)) continue; // deleted while covering
                for (int j = 0; j < Yd; ++j) { size_t k = (size_t) (pk.r[(size_t) i].action * Yd + j); double q = pk.pred[(size_t) i][(size_t) j] * pre.r[(size_t) i].fit; s[k] += q; big[k] += fabs(q); w[k] += pre.r[(size_t) i].fit; }
            }
            if (!t.learn) for (auto *r : covered) for (int j = 0; j < Yd; ++j) { size_t k = (size_t) (r->action * Yd + j); s[k] += r->pred[(size_t) j] * r->fit; big[k] += fabs(r->pred[(size_t) j] * r->fit); w[k] += r->fit; }
            for (int k = 0; k < A * Yd; ++k) {
                double e = w[(size_t) k] != 0 ? s[(size_t) k] / w[(size_t) k] : 0;
                double tol = w[(size_t) k] != 0 ? 1e-9 * big[(size_t) k] / fabs(w[(size_t) k]) : 0;
                if (!close_(x->pa[k], e) && !(fabs(x->pa[k] - e) <= tol)) viol("C07", fmt("prediction[%d] is %.15g, the fitness-weighted vote is %.15g", k, x->pa[k], e));
            }
            count("vote_checked");
        }
    }
    if (!t.learn) {
        for (int i = 0; i < n; ++i) {
            auto it = post.at.find(pre.r[(size_t) i].p);
            if (it == post.at.end()) { if (!delcov) viol("C06", fmt("rule %d was removed by an evaluation", i)); continue; }
            const RuleObs &a = pre.r[(size_t) i], &b = post.r[(size_t) it->second];
            if (!(a.err == b.err && a.fit == b.fit && a.size == b.size && a.exp == b.exp && a.time == b.time)) viol("C08", fmt("rule %d: learned values changed although nothing was learned", i));
            if (!delcov && a.num != b.num) viol("C06", fmt("rule %d: numerosity %d -> %d in an evaluation", i, a.num, b.num));
            if (delcov && b.num > a.num) viol("C06", fmt("rule %d: numerosity grew while covering", i));
            const PR &e = pk.r[(size_t) i];
            if ((b.jc != a.jc && b.jc != e.jc0) || (b.ja != a.ja && b.ja != e.ja0) || (b.jp != a.jp && b.jp != e.jp0)) viol("C08", fmt("rule %d: condition, action or prediction changed although nothing was learned", i));
        }
        if (x->time != pre_time) viol("C09", "evolution time advanced without learning");
        if (t.cover && t.cover_check_ro) {}
        return;
    }
    // --- learning ---
    auto inset = [&](int i) { return pk.r[(size_t) i].m && (t.action < 0 || pk.r[(size_t) i].action == t.action); };
    int cov_in = 0; std::vector<const RuleObs *> cin;
    for (auto *r : covered) if (t.action < 0 || r->action == t.action) { cov_in++; cin.push_back(r); }
    int missing_in = t.action < 0 ? missing : (A > 1 ? (adv[(size_t) t.action] ? 0 : 1) : missing);
    bool exact = !delcov && cov_in == missing_in; // set membership and numerosities at update time known
    double set_num = 0; for (int i = 0; i < n; ++i) if (inset(i)) set_num += pre.r[(size_t) i].num;
    set_num += missing_in;
    std::vector<double> eerr((size_t) n), esize((size_t) n), efit((size_t) n); std::vector<int> eexp((size_t) n);
    double acc_sum = 0; std::vector<double> acc((size_t) n, 0);
    for (int i = 0; i < n; ++i) {
        eerr[(size_t) i] = pre.r[(size_t) i].err; esize[(size_t) i] = pre.r[(size_t) i].size; eexp[(size_t) i] = pre.r[(size_t) i].exp; efit[(size_t) i] = pre.r[(size_t) i].fit;
        if (!inset(i)) continue;
        upd(x, eerr[(size_t) i], esize[(size_t) i], eexp[(size_t) i], pk.r[(size_t) i].loss, set_num);
        acc[(size_t) i] = acc_of(x, eerr[(size_t) i]); acc_sum += acc[(size_t) i] * pre.r[(size_t) i].num;
    }
    for (auto *r : cin) acc_sum += acc_of(x, r->err);
    for (int i = 0; i < n; ++i) if (inset(i)) efit[(size_t) i] += x->BETA * (acc[(size_t) i] * pre.r[(size_t) i].num / acc_sum - efit[(size_t) i]);
    // an error within rounding of the accuracy threshold makes the accuracy ambiguous
    bool border = false;
    for (int i = 0; i < n; ++i) if (inset(i) && fabs(eerr[(size_t) i] - x->E0) < 1e-9 * fmax(1, x->E0)) border = true;
    for (auto *r : cin) if (fabs(r->err - x->E0) < 1e-9) border = true;
    if (x->E0 == 0) border = true;
    int bad = 0;
    for (int i = 0; i < n && bad < 3; ++i) {
        auto it = post.at.find(pre.r[(size_t) i].p); if (it == post.at.end()) continue;
        const RuleObs &a = pre.r[(size_t) i], &b = post.r[(size_t) it->second]; const PR &e = pk.r[(size_t) i];
        if (!inset(i)) {
            if (!(a.err == b.err && a.fit == b.fit && a.size == b.size && a.exp == b.exp)) { viol("C08", fmt("rule %d is not in the learning set but changed: err %.9g->%.9g fit %.9g->%.9g size %.9g->%.9g exp %d->%d", i, a.err, b.err, a.fit, b.fit, a.size, b.size, a.exp, b.exp)); bad++; }
            if ((b.jc != a.jc && b.jc != e.jc0) || (b.ja != a.ja && b.ja != e.ja0) || (b.jp != a.jp && b.jp != e.jp0)) { viol("C08", fmt("rule %d is not in the learning set but its condition, action or prediction changed", i)); bad++; }
            if (b.time != a.time) { viol("C09", fmt("rule %d is not in the set but its evolution time changed", i)); bad++; }
            continue;
        }
        count("updated_rules_checked");
        if (b.exp != eexp[(size_t) i]) { viol("C08", fmt("rule %d: experience %d, expected %d", i, b.exp, eexp[(size_t) i])); bad++; }
        if (!close_(b.err, eerr[(size_t) i])) { viol("C08", fmt("rule %d: error %.15g, expected %.15g (exp %d)", i, b.err, eerr[(size_t) i], b.exp)); bad++; }
        if (exact && !close_(b.size, esize[(size_t) i])) { viol("C08", fmt("rule %d: set size estimate %.15g, expected %.15g", i, b.size, esize[(size_t) i])); bad++; }
        if (exact && !border && !close_(b.fit, efit[(size_t) i])) { viol("C08", fmt("rule %d: fitness %.15g, expected %.15g", i, b.fit, efit[(size_t) i])); bad++; }
        if (b.jc != e.jc1 || b.ja != e.ja1 || b.jp != e.jp1) { viol("C08", fmt("rule %d: its %s was not updated exactly once with the target", i, b.jp != e.jp1 ? "prediction" : b.jc != e.jc1 ? "condition" : "action")); bad++; }
    }
    for (auto *r : covered) {
        bool in = t.action < 0 || r->action == t.action;
        if (in && r->exp != 1) viol("C08", fmt("a covered rule in the learning set has experience %d after its first update", r->exp));
    }
    // --- running error ---
    double loss;
    if (t.action >= 0) loss = x->loss_ptr(x, &x->pa[t.action], t.Y);
    else loss = x->loss_ptr(x, x->pa, t.Y);
    if (!loss_ok(x, loss, t.action >= 0 ? &x->pa[t.action] : x->pa, t.Y)) viol("C08", fmt("the error %.12g of the prediction is not the configured measure %.12g", loss, own_loss(x, t.action >= 0 ? &x->pa[t.action] : x->pa, t.Y)));
    if (!close_(x->error, pre_error + (loss - pre_error) * x->BETA)) viol("C08", fmt("running system error %.15g, expected %.15g", x->error, pre_error + (loss - pre_error) * x->BETA));
    if (!close_(x->error, pre_error + (loss - pre_error) * x->BETA)) viol("C22", fmt("running system error %.15g, expected %.15g", x->error, pre_error + (loss - pre_error) * x->BETA));
    if (!close_(*t.ret, loss)) viol("C22", fmt("reported error %.15g, the error of the prediction is %.15g", *t.ret, loss));
    if (!close_(*t.ret, loss)) viol("C08", fmt("reported error %.15g, the error of the prediction is %.15g", *t.ret, loss));
    // --- set subsumption ---
    bool sub_possible = false, sub_exact = true; std::vector<int> elig;
    if (x->SET_SUBSUMPTION) {
        for (int i = 0; i < n; ++i) if (inset(i) && pk.r[(size_t) i].eligible) elig.push_back(i);
        for (auto *r : cin) if (r->exp > x->THETA_SUB && r->err < x->E0) sub_exact = false;
        for (int i : elig) for (int j = 0; j < n; ++j) if (pk.gen[(size_t) i][(size_t) j]) sub_possible = true;
        if (!elig.empty() && missing_in) sub_exact = false;
        if (elig.size() > 1 && sub_possible) sub_exact = false;
        for (int i = 0; i < n; ++i) if (inset(i) && fabs(eerr[(size_t) i] - x->E0) < 1e-9 * fmax(1, x->E0)) sub_exact = false;
    }
    std::vector<int> enum_((size_t) n); std::vector<char> gone((size_t) n, 0);
    for (int i = 0; i < n; ++i) enum_[(size_t) i] = pre.r[(size_t) i].num;
    if (sub_possible && sub_exact) {
        int s = elig[0];
        for (int j = 0; j < n; ++j) if (pk.gen[(size_t) s][(size_t) j]) { enum_[(size_t) s] += enum_[(size_t) j]; enum_[(size_t) j] = 0; gone[(size_t) j] = 1; }
        for (int j = 0; j < n; ++j) if (gone[(size_t) j] && post.at.count(pre.r[(size_t) j].p)) viol("C09", fmt("rule %d should have been subsumed by the only eligible, more general rule", j));
        count("set_subsumption_exact");
    }
    if (sub_possible) count("set_subsumption_possible");
    // --- evolution ---
    int newtime = x->time, pairs = (x->ea->lambda + 1) / 2;
    if (newtime != pre_time + 1) viol("C09", fmt("evolution time advanced by %d in one learning step", newtime - pre_time));
    double tsum = 0, nsum = 0; int members = 0;
    for (int i = 0; i < n; ++i) if (inset(i) && !gone[(size_t) i]) { tsum += (double) pre.r[(size_t) i].time * enum_[(size_t) i]; nsum += enum_[(size_t) i]; members++; }
    if (missing_in) { tsum += (double) pre_time * missing_in; nsum += missing_in; members += missing_in; }
    double mean = nsum > 0 ? tsum / nsum : 0, wait = newtime - mean;
    bool due_known = exact && sub_exact && fabs(wait - x->ea->theta) > 1e-9; bool due = members > 0 && wait >= x->ea->theta;
    if (due_known && fabs(wait - x->ea->theta) <= 1e-9) due_known = false;
    if (exact && sub_exact && wait == x->ea->theta && std::floor(mean) == mean) { due_known = true; due = members > 0; }
    bool stamped = false, unstamped = false;
    for (int i = 0; i < n; ++i) {
        auto it = post.at.find(pre.r[(size_t) i].p); if (it == post.at.end() || !inset(i)) continue;
        const RuleObs &b = post.r[(size_t) it->second];
        if (b.time == newtime) stamped = true;
        else { unstamped = true; if (b.time != pre.r[(size_t) i].time) viol("C09", fmt("rule %d: evolution time %d -> %d at time %d", i, pre.r[(size_t) i].time, b.time, newtime)); }
    }
    for (auto *r : cin) { if (r->time == newtime) stamped = true; else unstamped = true; }
    if (stamped && unstamped) viol("C09", "evolution marked only part of the set");
    bool ran = stamped;
    if (due_known) {
        if (due && unstamped) viol("C09", fmt("evolution was due (mean wait %.9g, threshold %.9g) but did not run in the set", wait, x->ea->theta));
        if (!due && stamped) viol("C09", fmt("evolution ran although not due (mean wait %.9g, threshold %.9g)", wait, x->ea->theta));
        count(due ? "ea_due" : "ea_not_due");
        ran = due;
    } else if (!stamped && !unstamped) ran = post.num != pre.num || !off.empty();
    int base = pre.num + missing; if (base > x->POP_SIZE) base = x->POP_SIZE;
    int expn = base + (ran ? 2 * pairs : 0); if (expn > x->POP_SIZE) expn = x->POP_SIZE;
    if ((due_known || stamped || unstamped) && post.num != expn) viol("C06", fmt("total numerosity %d after the trial, expected %d (was %d, covered %d, evolution %s, maximum %d)", post.num, expn, pre.num, missing, ran ? "ran" : "did not run", x->POP_SIZE));
    if (!ran && (due_known || stamped || unstamped)) {
        if (!off.empty()) viol("C09", fmt("%zu new rules without covering or evolution", off.size()));
        if (exact) for (int i = 0; i < n; ++i) {
            bool here = post.at.count(pre.r[(size_t) i].p);
            if (!here && !gone[(size_t) i]) {
                bool okk = false;
                if (!sub_exact) for (int s : elig) if (s != i && pk.gen[(size_t) s][(size_t) i]) okk = true;
                if (!sub_exact && missing_in) okk = true;
                if (!okk) viol("C09", fmt("rule %d was removed without evolution, limit or subsumption by an experienced, accurate and more general rule", i));
            }
            if (here && sub_exact && post.r[(size_t) post.at[pre.r[(size_t) i].p]].num != enum_[(size_t) i]) viol("C06", fmt("rule %d: numerosity %d, expected %d", i, post.r[(size_t) post.at[pre.r[(size_t) i].p]].num, enum_[(size_t) i]));
        }
        if (!sub_exact && exact) { // subsumption: only an eligible rule may absorb
            for (int i = 0; i < n; ++i) { auto it = post.at.find(pre.r[(size_t) i].p); if (it == post.at.end()) continue;
                if (post.r[(size_t) it->second].num > pre.r[(size_t) i].num && !(inset(i) && pk.r[(size_t) i].eligible)) viol("C09", fmt("rule %d absorbed others without being experienced and accurate", i)); }
        }
    }
    if (ran) {
        std::vector<Mem> set;
        for (int i = 0; i < n; ++i) if (inset(i) && !gone[(size_t) i]) set.push_back({ eerr[(size_t) i], efit[(size_t) i], esize[(size_t) i], enum_[(size_t) i] });
        for (auto *r : cin) set.push_back({ r->err, r->fit, r->size, 1 });
        check_offspring(x, set, off, exact && sub_exact && !border);
        for (auto *o : off) if (o->time != newtime) viol("C09", fmt("offspring has evolution time %d at time %d", o->time, newtime));
        // who may have grown
        if (exact && sub_exact) {
            int grown = 0;
            for (int i = 0; i < n; ++i) {
                auto it = post.at.find(pre.r[(size_t) i].p); if (it == post.at.end()) continue;
                int d = post.r[(size_t) it->second].num - enum_[(size_t) i];
                if (d > 0) {
                    if (!inset(i)) viol("C09", fmt("rule %d outside the set absorbed an offspring", i));
                    bool sub = eexp[(size_t) i] > x->THETA_SUB && eerr[(size_t) i] < x->E0 + 1e-9;
                    if (!sub || !x->ea->subsumption) grown++;
                }
            }
            if (grown > 2) viol("C09", fmt("%d rules grew but only the two parents or an experienced accurate subsumer may absorb offspring", grown));
            // deletion: rules past probation without a match go first
            int need = base + 2 * pairs - x->POP_SIZE; long dead = 0; bool deadleft = false;
            std::vector<char> isdead((size_t) n, 0);
            for (int i = 0; i < n; ++i) {
                int mt = pre.r[(size_t) i].mtotal + (pk.r[(size_t) i].m ? 1 : 0), ag = pre.r[(size_t) i].age + 1;
                if (!gone[(size_t) i] && mt == 0 && ag > x->M_PROBATION) { isdead[(size_t) i] = 1; dead += enum_[(size_t) i]; if (post.at.count(pre.r[(size_t) i].p)) deadleft = true; }
            }
            if (need > 0 && dead > 0) {
                count("probation_deletions");
                if (dead <= need && deadleft) viol("C09", "a rule past its probation without a match survived although others were removed");
                if (dead >= need) {
                    for (int i = 0; i < n; ++i) if (!isdead[(size_t) i] && !gone[(size_t) i]) {
                        auto it = post.at.find(pre.r[(size_t) i].p); int b = it == post.at.end() ? 0 : post.r[(size_t) it->second].num;
                        if (b < enum_[(size_t) i]) { viol("C09", fmt("rule %d lost numerosity although rules past probation without a match remained", i)); break; }
                    }
                }
            }
            if (need <= 0) {
                for (int i = 0; i < n; ++i) if (!gone[(size_t) i]) {
                    auto it = post.at.find(pre.r[(size_t) i].p); int b = it == post.at.end() ? 0 : post.r[(size_t) it->second].num;
                    if (b < enum_[(size_t) i]) { viol("C09", fmt("rule %d was removed although the population is below its limit", i)); break; }
                }
            }
        }
    }
}

// One reinforcement update: previous action set, then (terminal) current one.
void ref_rl_update(Model &mo, const double *state, int action, double reward, bool done, const std::function<void()> &op)
{
    XCSF *x = mo.x;
    if (mo.noref) { op(); return; }
    PopObs pre = observe(x, true); int n = (int) pre.r.size();
    std::vector<int> P, Q; std::set<int> Ps, Qs;
    for (int i = 0; i < n; ++i) { if (mo.have_prev && mo.prev_aset.count(pre.r[(size_t) i].p)) { P.push_back(i); Ps.insert(i); } if (mo.cur_aset.count(pre.r[(size_t) i].p)) { Q.push_back(i); Qs.insert(i); } }
    double best = -INFINITY; for (int k = 0; k < x->n_actions * x->y_dim; ++k) if (x->pa[k] > best) best = x->pa[k];
    double target = mo.prev_reward + x->GAMMA * best;
    struct UR { double loss; u64 jc, ja, jp; int flags; double loss2; };
    S s = in_child([&]() {
        S o;
        for (int i : P) {
            Cl *c = pre.r[(size_t) i].p; UR u; memset(&u, 0, sizeof u); pred_compute(x, c, mo.prev_state.data()); Before bf = learners_before(x, c, mo.prev_state.data());
            u.loss = x->loss_ptr(x, c->prediction, &target); c->exp++; if (linear_pred(x) && !pred_ok(x, bf.p, c, mo.prev_state.data())) u.flags |= F_PRED; if (!loss_ok(x, u.loss, c->prediction, &target)) u.flags |= F_LOSS;
            cond_update(x, c, mo.prev_state.data(), &target); pred_update(x, c, mo.prev_state.data(), &target); act_update(x, c, mo.prev_state.data(), &target);
            int l = learners_after(x, bf, c, mo.prev_state.data(), &target); if (l) u.flags |= l == 1 ? F_UPD : F_COND;
            u.jc = hcond(x, c); u.ja = hact(x, c); u.jp = hpred(x, c);
            o.append((char *) &u, sizeof u);
        }
        if (done) for (int i : Q) {
            Cl *c = pre.r[(size_t) i].p; UR u; memset(&u, 0, sizeof u); Before bf; bool fresh_pred = !Ps.count(i) || P.empty(); if (fresh_pred) bf = learners_before(x, c, state);
            u.loss = x->loss_ptr(x, c->prediction, &reward); c->exp++; if (!loss_ok(x, u.loss, c->prediction, &reward)) u.flags |= F_LOSS;
            cond_update(x, c, state, &reward); pred_update(x, c, state, &reward); act_update(x, c, state, &reward);
            if (fresh_pred) { int l = learners_after(x, bf, c, state, &reward); if (l) u.flags |= l == 1 ? F_UPD : F_COND; }
            u.jc = hcond(x, c); u.ja = hact(x, c); u.jp = hpred(x, c);
            o.append((char *) &u, sizeof u);
        }
        return o;
    });
    int pre_time = x->time; double pre_as = x->aset_size;
    if (x->explore && !(done && mo.have_prev && !mo.prev_aset.empty())) check_subsumed(x, pre, op);
    op();
    if (mo.noref || s.size() != sizeof(UR) * (P.size() + (done ? Q.size() : 0))) return;
    std::vector<UR> ur(P.size() + (done ? Q.size() : 0)); memcpy(ur.data(), s.data(), s.size());
    PopObs post = observe(x, true);
    { double e = pre_as + ((double) Q.size() - pre_as) * x->BETA; if (!close_(x->aset_size, e)) viol("C22", fmt("average action set size %.12g, expected %.12g (was %.12g, %zu rules)", x->aset_size, e, pre_as, Q.size())); }
    { int told = 0; for (size_t k = 0; k < ur.size() && told < 3; ++k) if (ur[k].flags) { report_flags(k < P.size() ? P[k] : Q[k - P.size()], ur[k].flags); ++told; } }
    count("ref_rl_updates"); if (!P.empty()) count("ref_rl_prev_updates"); if (done) count("ref_rl_terminal");
    std::vector<double> eerr((size_t) n), esize((size_t) n), efit((size_t) n); std::vector<int> eexp((size_t) n);
    for (int i = 0; i < n; ++i) { eerr[(size_t) i] = pre.r[(size_t) i].err; esize[(size_t) i] = pre.r[(size_t) i].size; efit[(size_t) i] = pre.r[(size_t) i].fit; eexp[(size_t) i] = pre.r[(size_t) i].exp; }
    bool border = x->E0 == 0;
    auto apply = [&](const std::vector<int> &set, size_t off) {
        double sn = 0, as = 0; for (int i : set) sn += pre.r[(size_t) i].num;
        for (size_t k = 0; k < set.size(); ++k) { size_t i = (size_t) set[k]; upd(x, eerr[i], esize[i], eexp[i], ur[off + k].loss, sn); as += acc_of(x, eerr[i]) * pre.r[i].num; if (fabs(eerr[i] - x->E0) < 1e-9) border = true; }
        for (int i : set) efit[(size_t) i] += x->BETA * (acc_of(x, eerr[(size_t) i]) * pre.r[(size_t) i].num / as - efit[(size_t) i]);
    };
    bool between = !P.empty() && (x->explore || x->SET_SUBSUMPTION); // the sets may change between the two updates
    if (!P.empty()) apply(P, 0);
    if (done && !Q.empty()) apply(Q, P.size());
    for (int i = 0; i < n; ++i) {
        auto it = post.at.find(pre.r[(size_t) i].p); if (it == post.at.end()) continue;
        const RuleObs &a = pre.r[(size_t) i], &b = post.r[(size_t) it->second];
        bool p = Ps.count(i) && !P.empty(), q = done && Qs.count(i);
        if (!p && !q) {
            if (!(a.err == b.err && a.fit == b.fit && a.size == b.size && a.exp == b.exp && a.jc == b.jc && a.ja == b.ja && a.jp == b.jp)) viol("C08", fmt("rule %d did not earn credit but changed (exp %d->%d err %.9g->%.9g fit %.9g->%.9g)", i, a.exp, b.exp, a.err, b.err, a.fit, b.fit));
            continue;
        }
        count("rl_rules_checked");
        if (b.exp != eexp[(size_t) i] ) viol("C08", fmt("rule %d: experience %d, expected %d (previous set %d, terminal set %d)", i, b.exp, eexp[(size_t) i], p, q));
        if (p && q) continue;
        if (!close_(b.err, eerr[(size_t) i])) viol("C08", fmt("rule %d: error %.15g, expected %.15g (%s)", i, b.err, eerr[(size_t) i], p ? "previous set" : "terminal set"));
        size_t k = 0; if (p) { for (; k < P.size(); ++k) if (P[k] == i) break; } else { for (; k < Q.size(); ++k) if (Q[k] == i) break; k += P.size(); }
        if (b.jc != ur[k].jc || b.ja != ur[k].ja || b.jp != ur[k].jp) viol("C08", fmt("rule %d: its learners were not updated exactly once towards the target (%s)", i, p ? "previous set" : "terminal set"));
        if (p || !between) {
            if (!close_(b.size, esize[(size_t) i])) viol("C08", fmt("rule %d: set size estimate %.15g, expected %.15g", i, b.size, esize[(size_t) i]));
            if (!border && !close_(b.fit, efit[(size_t) i])) viol("C08", fmt("rule %d: fitness %.15g, expected %.15g", i, b.fit, efit[(size_t) i]));
        }
    }
    // evolution
    std::vector<const RuleObs *> fresh; for (auto &r : post.r) if (!pre.at.count(r.p)) fresh.push_back(&r);
    int pairs = (x->ea->lambda + 1) / 2;
    if (!x->explore) {
        if (!fresh.empty()) viol("C09", "new rules appeared while exploiting");
        if (post.num != pre.num) viol("C06", fmt("total numerosity %d -> %d while exploiting", pre.num, post.num));
        if (x->time != pre_time) viol("C09", "evolution time advanced while exploiting");
        for (int i = 0; i < n; ++i) { auto it = post.at.find(pre.r[(size_t) i].p); if (it != post.at.end() && post.r[(size_t) it->second].time != pre.r[(size_t) i].time) { viol("C09", "evolution marked rules while exploiting"); break; } }
        return;
    }
    int calls = (mo.have_prev && !mo.prev_aset.empty() ? 1 : 0) + (done ? 1 : 0);
    if (x->time - pre_time != calls && !(P.empty() && x->time - pre_time == (done ? 1 : 0))) viol("C09", fmt("evolution time advanced by %d, expected %d", x->time - pre_time, calls));
    if (x->SET_SUBSUMPTION) return;
    const std::vector<int> *set = nullptr;
    if (!P.empty() && !done) set = &P; else if (P.empty() && done && !(mo.have_prev && !mo.prev_aset.empty())) set = &Q;
    if (set && !set->empty()) {
        double ts = 0, ns = 0; for (int i : *set) { ts += (double) pre.r[(size_t) i].time * pre.r[(size_t) i].num; ns += pre.r[(size_t) i].num; }
        double mean = ts / ns, wait = x->time - mean; bool known = fabs(wait - x->ea->theta) > 1e-9 || std::floor(mean) == mean; bool due = wait >= x->ea->theta;
        bool st = false, un = false;
        for (int i : *set) { auto it = post.at.find(pre.r[(size_t) i].p); if (it == post.at.end()) continue; if (post.r[(size_t) it->second].time == x->time) st = true; else un = true; }
        if (known) {
            if (due && un) viol("C09", fmt("evolution was due (mean wait %.9g, threshold %.9g) but did not run in the action set", wait, x->ea->theta));
            if (!due && st) viol("C09", fmt("evolution ran in the action set although not due (mean wait %.9g, threshold %.9g)", wait, x->ea->theta));
            int e = pre.num + (due ? 2 * pairs : 0); if (e > x->POP_SIZE) e = x->POP_SIZE;
            if (post.num != e) viol("C06", fmt("total numerosity %d, expected %d after a reinforcement update", post.num, e));
            count(due ? "rl_ea_due" : "rl_ea_not_due");
            if (!due && !fresh.empty()) viol("C09", "new rules without evolution");
            if (due) {
                std::vector<Mem> ms; for (int i : *set) ms.push_back({ eerr[(size_t) i], efit[(size_t) i], esize[(size_t) i], pre.r[(size_t) i].num });
                check_offspring(x, ms, fresh, !border);
            }
        }
    } else {
        int d = -1; for (int k = 0; k <= 2; ++k) { int e = pre.num + 2 * pairs * k; if (e > x->POP_SIZE) e = x->POP_SIZE; if (post.num == e) d = k; }
        if (d < 0) viol("C06", fmt("total numerosity %d -> %d in a reinforcement update", pre.num, post.num));
    }
    for (auto *o : fresh) if (o->exp != 0) viol("C09", fmt("offspring starts with experience %d", o->exp));
}
