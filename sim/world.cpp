// The simulated world: a fork server that runs simulated processes, each a list
// of operations on models of the code under test, and reports what they observed.
#include "ref.hpp"
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" int xcsf_main(int argc, char **argv);
extern "C" void real_env_init(struct XCSF *, char **);

// ---------- results ----------
static char *RES; static size_t *RLEN; static const size_t RCAP = 32u << 20;
bool in_peek = false; int cur_op = -1; Chk chk; static std::map<S, long> counters; static int nviol;
void out_raw(const S &s)
{
    if (in_peek || *RLEN + s.size() + 2 > RCAP) return;
    memcpy(RES + *RLEN, s.data(), s.size()); *RLEN += s.size(); RES[(*RLEN)++] = '\n';
}
S fmt(const char *f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
S jstr(const S &s)
{
    S o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char) c; } else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += (char) c; }
    return o + "\"";
}
S jnum(double d) { if (std::isnan(d)) return "\"nan\""; if (std::isinf(d)) return d > 0 ? "\"inf\"" : "\"-inf\""; return fmt("%.17g", d); }
S hex(u64 h) { return fmt("\"%016llx\"", (unsigned long long) h); }
void viol(const char *prop, const S &msg) { if (in_peek || ++nviol > 40) return; out_raw(fmt("{\"v\":\"%s\",\"at\":%d,\"msg\":", prop, cur_op) + jstr(msg) + "}"); }
void count(const S &k, long n) { if (!in_peek) counters[k] += n; }

// ---------- case access ----------
static const cJSON *g(const cJSON *o, const char *k) { return o ? cJSON_GetObjectItemCaseSensitive(o, k) : nullptr; }
static double num(const cJSON *o, const char *k, double d) { const cJSON *i = g(o, k); if (!i) return d; if (cJSON_IsBool(i)) return cJSON_IsTrue(i); return cJSON_IsNumber(i) ? i->valuedouble : d; }
static long in_(const cJSON *o, const char *k, long d) { return (long) num(o, k, (double) d); }
static S str(const cJSON *o, const char *k, const char *d = "") { const cJSON *i = g(o, k); return i && cJSON_IsString(i) ? i->valuestring : d; }

// ---------- data ----------
struct Data { int n = 0, xd = 0, yd = 0; Vd x, y; };
static std::map<int, Data> datas; static std::map<int, Model> models; static std::map<S, S> slots;
static double u01(SimRng &r) { return (double) (sim_next(&r) >> 11) / 9007199254740992.0; }
static Data make_data(const cJSON *o)
{
    Data d; d.n = (int) in_(o, "n", 10); d.xd = (int) in_(o, "x", 1); d.yd = (int) in_(o, "y", 1); SimRng r = { (u64) in_(o, "seed", 1) };
    if (g(o, "X")) { // given values
        const cJSON *row, *v; cJSON_ArrayForEach(row, g(o, "X")) cJSON_ArrayForEach(v, row) d.x.push_back(v->valuedouble);
        cJSON_ArrayForEach(row, g(o, "Y")) cJSON_ArrayForEach(v, row) d.y.push_back(v->valuedouble);
        d.n = (int) (d.x.size() / (size_t) d.xd); return d;
    }
    S k = str(o, "kind", "reg"), xk = str(o, "xk", ""); int distinct = (int) in_(o, "distinct", 0);
    for (int i = 0; i < d.n; ++i) {
        if (distinct && i >= distinct) { for (int j = 0; j < d.xd; ++j) d.x.push_back(d.x[(size_t) ((i % distinct) * d.xd + j)]); for (int j = 0; j < d.yd; ++j) d.y.push_back(d.y[(size_t) ((i % distinct) * d.yd + j)]); continue; }
        double s = 0;
        for (int j = 0; j < d.xd; ++j) { double v = u01(r); if (k == "bin") v = v > 0.5; if (xk == "zero") v = 0; else if (xk == "one") v = 1; d.x.push_back(v); s += v * (j + 1); }
        int c = (int) (u01(r) * d.yd);
        for (int j = 0; j < d.yd; ++j) {
            if (k == "onehot") d.y.push_back(j == c); else if (k == "bin") d.y.push_back(((long) (s * 7) + j) % 2);
            else if (k == "const") d.y.push_back(0.5); else if (k == "unit") d.y.push_back(0.5 + 0.4 * sin(s + j));
            else if (k == "huge") d.y.push_back(1e6 * sin(3 * s + j));
            else d.y.push_back(sin(3 * s + j) + 0.3 * j);
        }
    }
    return d;
}
// arrays handed to the code under test: fresh memory per call, checked for
// modification, then spoiled and released when the call returns
struct Lent {
    double *p; size_t n; Vd copy; const char *what;
    Lent(const double *s, size_t k, const char *w) : n(k), copy(s, s + k), what(w) { p = (double *) malloc(sizeof(double) * (k ? k : 1)); memcpy(p, s, sizeof(double) * k); }
    ~Lent() { if (n && memcmp(p, copy.data(), sizeof(double) * n)) viol("C12", fmt("the call modified the caller's %s array", what)); for (size_t i = 0; i < n; ++i) p[i] = NAN; free(p); }
    Lent(const Lent &) = delete;
};
// ---------- digests ----------
static S membytes(const std::function<void(FILE *)> &f)
{
    char *b = nullptr; size_t n = 0; FILE *fp = open_memstream(&b, &n); f(fp); fclose(fp); S s(b, n); free(b); return s;
}
static u64 hS(const S &s) { return sim_hash(SIM_HASH0, s.data(), s.size()); }
struct Dig { u64 params, stats, rules, bodies, learned, json; int size, num; };
static void strip(cJSON *o)
{
    for (const char *k : { "current_match", "current_action", "current_prediction", "samples_seen", "samples_matched" }) cJSON_DeleteItemFromObjectCaseSensitive(o, k);
    /* current activations of a graph */
    for (const char *k : { "condition", "rule" }) if (cJSON *c = cJSON_GetObjectItem(o, k)) { cJSON_DeleteItemFromObjectCaseSensitive(c, "current_state"); if (cJSON *gr = cJSON_GetObjectItem(c, "graph")) cJSON_DeleteItemFromObjectCaseSensitive(gr, "current_state"); }
}
struct NoQuarantine { int q; NoQuarantine() : q(sim_heap.quarantine) { sim_heap.quarantine = 0; } ~NoQuarantine() { sim_heap.quarantine = q; } };
static u64 learned_hash(const XCSF *x, const Set *set)
{
    NoQuarantine nq;
    char *j = clset_json_export(x, set, true, true, true); cJSON *o = cJSON_Parse(j); sim_free(j);
    cJSON *it; cJSON *arr = o ? o->child : nullptr; cJSON_ArrayForEach(it, arr) strip(it);
    char *s = cJSON_PrintUnformatted(o); u64 h = hS(s ? s : ""); cJSON_free(s); cJSON_Delete(o); return h;
}
static Dig digest(const XCSF *x)
{
    NoQuarantine nq; Dig d; char *j = param_json_export(x); d.params = hS(j); sim_free(j);
    /* constants of a tree condition that is not in use are not part of the model */
    int nc = x->cond->targs->n_constants; if (x->cond->type != COND_TYPE_GP) x->cond->targs->n_constants = 0;
    d.stats = hS(membytes([&](FILE *f) { param_save(x, f); })); x->cond->targs->n_constants = nc;
    u64 r = SIM_HASH0, b = SIM_HASH0;
    for (const Clist *it = x->pset.list; it; it = it->next) {
        const Cl *c = it->cl; double v[3] = { c->err, c->fit, c->size }; int w[8] = { c->num, c->exp, c->time, c->age, c->mtotal, c->action, c->m, 0 };
        r = sim_hash(r, v, sizeof v); r = sim_hash(r, w, sizeof w); r = sim_hash(r, c->prediction, sizeof(double) * (size_t) x->y_dim);
        S s = membytes([&](FILE *f) { act_save(x, c, f); pred_save(x, c, f); cond_save(x, c, f); });
        b = sim_hash(b, s.data(), s.size());
    }
    d.rules = r; d.bodies = b; d.size = x->pset.size; d.num = x->pset.num;
    j = clset_json_export(x, &x->pset, true, true, true); d.json = hS(j); sim_free(j);
    d.learned = learned_hash(x, &x->pset);
    return d;
}
static S digs(const Dig &d)
{
    return "{\"params\":" + hex(d.params) + ",\"stats\":" + hex(d.stats) + ",\"rules\":" + hex(d.rules) + ",\"bodies\":" + hex(d.bodies) + ",\"learned\":" + hex(d.learned) + ",\"json\":" + hex(d.json) + fmt(",\"size\":%d,\"num\":%d}", d.size, d.num);
}
// the next random numbers, looked at in a copy of the process
static u64 rng_peek()
{
    S s = in_child([]() { S o; for (int i = 0; i < 6; ++i) { double v = rand_uniform(0, 1); o.append((char *) &v, 8); } double z = rand_normal(0, 1); o.append((char *) &z, 8); z = rand_normal(0, 1); o.append((char *) &z, 8); return o; });
    return hS(s);
}
// ---------- environment spy ----------
struct SpyEv { char k; int a; double r; bool done; Vd st; bool explore; };
struct Spy {
    const EnvVtbl *real = nullptr; bool multistep = false; std::vector<S> maze; int W = 0, H = 0; int mux = 0; S kind;
    std::set<std::pair<int, int>> belief; bool bad = false; Vd last; int episodes = 0, steps = 0; bool done = false, started = false, explore = false; bool freed = false;
    std::vector<std::pair<bool, int>> log; std::vector<double> won; double lastr = 0; // explore, steps; last reward
    std::vector<int> final_done; long total_steps = 0; int time0 = 0; XCSF *x = nullptr; bool reset_for_next = false; bool sup_bad = false;
} spy;
static double sense(char c) { switch (c) { case '*': return 0.1; case 'O': return 0.3; case 'G': return 0.5; case 'F': return 0.7; case 'Q': return 0.9; } return -1; }
static Vd sense_at(int x, int y)
{
    Vd v; for (int dy = -1; dy < 2; ++dy) for (int dx = -1; dx < 2; ++dx) { if (!dx && !dy) continue; v.push_back(sense(spy.maze[(size_t) ((y + dy + spy.H) % spy.H)][(size_t) ((x + dx + spy.W) % spy.W)])); }
    return v;
}
static void spy_close()
{
    if (!spy.started) return;
    if (spy.kind == "maze" || spy.kind == "mp") {
        if (!spy.done && spy.steps != spy.x->TELETRANSPORTATION) viol("C14", fmt("an episode ended after %d steps without reaching the goal (step limit %d)", spy.steps, spy.x->TELETRANSPORTATION));
        if (spy.steps > spy.x->TELETRANSPORTATION) viol("C14", fmt("an episode took %d steps, the limit is %d", spy.steps, spy.x->TELETRANSPORTATION));
    }
    if (!spy.explore && spy.steps && spy.x->time != spy.time0) viol("C14", "evolution was on in an evaluation episode");
    spy.log.push_back({ spy.explore, spy.steps }); spy.won.push_back(spy.lastr); spy.started = false;
}
static void spy_reset(const XCSF *x)
{
    spy_close(); spy.real->env_impl_reset(x); spy.episodes++; spy.steps = 0; spy.done = false; spy.started = true; spy.x = (XCSF *) x; spy.explore = x->explore; spy.belief.clear();
    for (int i = 0; i < spy.H; ++i) for (int j = 0; j < spy.W; ++j) if (spy.maze[(size_t) i][(size_t) j] == '*') spy.belief.insert({ j, i });
}
static const double *spy_state(const XCSF *x)
{
    const double *s = spy.real->env_impl_get_state(x); spy.last.assign(s, s + x->x_dim);
    if (spy.steps == 0) { spy.explore = x->explore; spy.time0 = x->time; } else if (x->explore != spy.explore) viol("C14", "exploration was switched within an episode");
    if (spy.done) viol("C14", "a step was taken after the goal was reached");
    if (spy.kind == "maze") {
        std::set<std::pair<int, int>> b; for (auto &p : spy.belief) { Vd v = sense_at(p.first, p.second); bool ok = true; for (size_t i = 0; i < 8; ++i) if (v[i] != s[i]) ok = false; if (ok) b.insert(p); }
        if (b.empty() && !spy.bad) { spy.bad = true; viol("C14", "the sensed state is not possible after the moves made from any free cell of the maze"); }
        spy.belief = b; count("maze_states");
    } else for (int i = 0; i < x->x_dim; ++i) if (!(s[i] >= 0 && s[i] <= 1)) viol("C14", "multiplexer input outside [0,1]");
    return s;
}
static double spy_execute(const XCSF *x, int a)
{
    if (!spy.explore && a >= 0 && a < x->n_actions) for (int i = 0; i < x->n_actions; ++i) if (x->pa[i] > x->pa[a]) { viol("C14", fmt("action %d was taken in an evaluation episode, action %d is predicted to be better", a, i)); break; }
    static const int mx[] = { 0, 1, 1, 1, 0, -1, -1, -1 }, my[] = { -1, -1, 0, 1, 1, 1, 0, -1 };
    double r = spy.real->env_impl_execute(x, a); spy.steps++; spy.total_steps++; bool done = spy.real->env_impl_is_done(x); spy.lastr = r; const double top = spy.real->env_impl_max_payoff(x);
    if (a < 0 || a >= x->n_actions) { viol("C14", fmt("action %d out of range", a)); return r; }
    if (spy.kind == "maze") {
        std::set<std::pair<int, int>> b;
        for (auto &p : spy.belief) {
            int nx = (p.first + mx[a] + spy.W) % spy.W, ny = (p.second + my[a] + spy.H) % spy.H; char c = spy.maze[(size_t) ny][(size_t) nx]; bool goal = c == 'F' || c == 'G';
            if (goal != done) continue;
            if (goal ? r != top : r != 0) continue;
            if (c == 'O' || c == 'Q') { nx = p.first; ny = p.second; }
            b.insert({ nx, ny });
        }
        if (b.empty() && !spy.bad) { spy.bad = true; viol("C14", fmt("reward %g / goal reached %d does not follow from the move", r, done)); }
        spy.belief = b; count("maze_moves");
    } else {
        int k = spy.mux, pos = 0; for (int i = 0; i < k; ++i) pos = pos * 2 + (spy.last[(size_t) i] > 0.5); int ans = spy.last[(size_t) (k + pos)] > 0.5;
        if (r != (a == ans ? top : 0)) viol("C14", fmt("multiplexer rewarded %g for answer %d, the addressed bit is %d", r, a, ans));
        count("mux_answers");
    }
    if (done) spy.done = true;
    return r;
}
static bool spy_done(const XCSF *x) { return spy.real->env_impl_is_done(x); }
static bool spy_multi(const XCSF *x) { return spy.real->env_impl_multistep(x); }
static double spy_max(const XCSF *x) { return spy.real->env_impl_max_payoff(x); }
static void spy_free(const XCSF *x) { spy_close(); spy.freed = true; spy.real->env_impl_free(x); }
static const EnvVtbl spy_vtbl = { spy_done, spy_multi, spy_execute, spy_max, spy_state, spy_free, spy_reset };
static void spy_install(XCSF *x, char **argv)
{
    spy = Spy(); spy.kind = argv[1]; spy.real = x->env_vptr; spy.x = x;
    if (spy.kind == "maze") {
        int i = sim_disk_find(argv[2]); S t = i >= 0 ? S((char *) sim_file_data(i), sim_disk->f[i].size) : ""; S l;
        for (char c : t) { if (c == '\n') { spy.maze.push_back(l); l.clear(); } else l += c; } if (!l.empty()) spy.maze.push_back(l);
        spy.H = (int) spy.maze.size(); spy.W = spy.H ? (int) spy.maze[0].size() : 0;
    } else if (spy.kind == "mp") { int b = atoi(argv[2]); int k = 0; while ((k + 1) + (1 << (k + 1)) <= b) ++k; spy.mux = k; if (x->x_dim != k + (1 << k)) viol("C14", fmt("multiplexer with %d inputs for %d bits", x->x_dim, b)); }
    if (spy.kind != "csv") x->env_vptr = &spy_vtbl;
}
extern "C" void spy_env_init(struct XCSF *x, char **argv) { real_env_init(x, argv); spy_install(x, argv); }

// ---------- running one operation ----------
static S stdout_text() { fflush(stdout); off_t n = lseek(1, 0, SEEK_END); S s((size_t) (n > 0 ? n : 0), 0); if (n > 0 && pread(1, &s[0], s.size(), 0) < 0) s.clear(); return s; }
static S out_fields;
static void o_hash(const char *k, u64 h) { out_fields += fmt(",\"%s\":", k) + hex(h); }
static void o_num(const char *k, double v) { out_fields += fmt(",\"%s\":", k) + jnum(v); }
static void o_str(const char *k, const S &v) { out_fields += fmt(",\"%s\":", k) + jstr(v); }
static u64 hd(const Vd &v) { return sim_hash(SIM_HASH0, v.data(), v.size() * sizeof(double)); }
static void disk_faults_from(const cJSON *a)
{
    sim_n_dfaults = 0; const cJSON *f;
    cJSON_ArrayForEach(f, a) {
        if (sim_n_dfaults >= SIM_MAXFAULTS) break;
        SimDiskFault &d = sim_dfaults[sim_n_dfaults++]; memset(&d, 0, sizeof d); S k = str(f, "kind");
        d.kind = k == "open" ? DF_OPEN : k == "write" ? DF_WRITE : k == "read" ? DF_READ : DF_CLOSE;
        strncpy(d.file, str(f, "file").c_str(), sizeof d.file - 1); d.at = in_(f, "at", 0); d.err = (int) in_(f, "err", 5); d.sticky = (int) in_(f, "sticky", 0);
    }
    sim_disk_faults_on = sim_n_dfaults > 0;
}
static void make_model(Model &m, const cJSON *o)
{
    const cJSON *cfg = g(o, "cfg"); S txt; if (cJSON_IsString(cfg)) txt = cfg->valuestring; else { char *t = cJSON_PrintUnformatted(cfg); txt = t; cJSON_free(t); }
    m = Model(); m.noref = in_(o, "noref", 0); m.stateful_rules = in_(o, "stateful_rules", 0);
    m.x = (XCSF *) sim_malloc(sizeof(XCSF));
    if (g(o, "env")) {
        S a1 = str(g(o, "env"), "type"), a2 = str(g(o, "env"), "arg"); char *av[] = { (char *) "xcsf", (char *) a1.c_str(), (char *) a2.c_str(), nullptr };
        real_env_init(m.x, av); m.env = true; if (a1 != "csv") spy_install(m.x, av);
    } else param_init(m.x, (int) in_(o, "x", 1), (int) in_(o, "y", 1), (int) in_(o, "a", 1));
    if (g(o, "config")) config_read(m.x, str(o, "config").c_str()); else param_json_import(m.x, txt.c_str());
    if (in_(o, "init", 1)) { xcsf_init(m.x); m.inited = true; }
}
static void free_model(Model &m)
{
    if (!m.x) return;
    if (m.in_trial) { xcs_rl_end_trial(m.x); }
    if (m.env) env_free(m.x);
    if (m.inited) xcsf_free(m.x);
    param_free(m.x); sim_free(m.x); m = Model();
}
static const double *cover_arr(const cJSON *o, Model &m, Vd &buf)
{
    const cJSON *c = g(o, "cover"); if (!c || cJSON_IsNull(c)) return nullptr;
    buf.assign((size_t) (m.x->pa_size), 0); const cJSON *it; size_t i = 0;
    if (cJSON_IsArray(c)) cJSON_ArrayForEach(it, c) if (i < buf.size()) buf[i++] = it->valuedouble;
    if (cJSON_IsNumber(c)) for (size_t k = 0; k < buf.size(); ++k) buf[k] = c->valuedouble + (double) k * 0.125;
    return buf.data();
}
// an environment driven by the simulator, for stepwise episodes
static void episode(Model &m, const cJSON *o)
{
    XCSF *x = m.x; SimRng r = { (u64) in_(o, "seed", 1) }; int steps = (int) in_(o, "steps", 5); bool explore = in_(o, "explore", 1); int nstates = (int) in_(o, "states", 6);
    bool grid = in_(o, "bin", 0); double pother = num(o, "pother", 0); bool terminal = in_(o, "terminal", 1); u64 h = SIM_HASH0; double esum = 0;
    std::vector<Vd> st; for (int i = 0; i < nstates; ++i) { Vd v; for (int j = 0; j < x->x_dim; ++j) { double u = u01(r); v.push_back(grid ? (double) (u > 0.5) : u); } st.push_back(v); }
    int cur = (int) sim_below(&r, (u64) nstates);
    param_set_explore(x, explore);
    xcs_rl_init_trial(x); m.in_trial = true; m.have_prev = false; m.prev_aset.clear();
    for (int s = 0; s < steps; ++s) {
        Vd S_ = st[(size_t) cur]; Lent L(S_.data(), S_.size(), "state");
        xcs_rl_init_step(x);
        int a = -1;
        auto decide = [&]() { a = xcs_rl_decision(x, L.p); };
        if (chk.ref) {
            TrialSpec t; t.X = L.p; t.covering = true; ref_trial(m, t, decide);
            int A = x->n_actions;
            if (a < 0 || a >= A) { viol("C07", fmt("decided action %d out of range", a)); return; }
            if (!m.noref) {
                double best = x->pa[0]; for (int k = 1; k < A; ++k) best = fmax(best, x->pa[k]);
                if ((!x->explore || x->P_EXPLORE == 0) && x->pa[a] < best) viol("C07", fmt("exploitation picked action %d with prediction %.12g, the best is %.12g", a, x->pa[a], best));
                bool advo = false; for (const Clist *it = x->mset.list; it; it = it->next) if (it->cl->action == a) advo = true;
                if (x->explore && !advo) viol("C07", fmt("exploration picked action %d which no matching rule advocates", a));
                count("decisions_checked");
            }
            if (in_peek) return;
        } else decide();
        h = sim_hash(h, &a, sizeof a); h = sim_hash(h, x->pa, sizeof(double) * (size_t) x->pa_size);
        if (u01(r) < pother) a = (int) sim_below(&r, (u64) x->n_actions);
        bool done = terminal && s == steps - 1; double reward = done ? 1 + (double) sim_below(&r, 3) * 0.5 : (u01(r) < 0.3 ? u01(r) : 0);
        switch (in_(o, "pay", 0)) { case 1: if (done) reward -= 1; break; case 2: reward = -reward; break; case 3: reward *= 1000; break; default: break; }
        m.cur_aset.clear();
        if (chk.ref) for (const Clist *it = x->pset.list; it; it = it->next) if (it->cl->m && it->cl->action == a) m.cur_aset.insert(it->cl);
        int next = (int) ((u64) (cur * 3 + a + (int) sim_below(&r, 2)) % (u64) nstates);
        Vd pa0(x->pa, x->pa + x->pa_size);
        auto update = [&]() { xcs_rl_update(x, L.p, a, reward, done); };
        if (chk.ref) ref_rl_update(m, L.p, a, reward, done, update); else update();
        double e0 = x->error; bool hp = m.have_prev; double prevpred = x->prev_pred;
        double e = xcs_rl_error(x, a, reward, done, 1.0);
        if (chk.ref && !m.noref) {
            double ee = 0, p = x->pa[a];
            std::set<Cl *> live; for (const Clist *it = x->pset.list; it; it = it->next) live.insert(it->cl);
            bool anyprev = false; for (Cl *c : m.prev_aset) if (live.count(c)) anyprev = true;
            if (hp && !m.prev_aset.empty() && anyprev) { double tgt = m.prev_reward + x->GAMMA * p; ee += x->loss_ptr(x, &prevpred, &tgt); }
            if (done) ee += x->loss_ptr(x, &p, &reward);
            if (fabs(e - ee) > 1e-9 * fmax(1, fabs(ee)) && !(hp && !anyprev)) viol("C22", fmt("reported step error %.12g, expected %.12g", e, ee));
            { double xq = e0 + (e - e0) * x->BETA; if (fabs(x->error - xq) > 1e-9 * fmax(1, fabs(xq))) viol("C22", fmt("running system error %.12g, expected %.12g", x->error, xq)); }
            if (fabs(e - ee) > 1e-9 * fmax(1, fabs(ee)) && !(hp && !anyprev)) viol("C08", fmt("reported step error %.12g, expected %.12g", e, ee));
            double xe = e0 + (e - e0) * x->BETA; if (fabs(x->error - xe) > 1e-9 * fmax(1, fabs(xe))) viol("C08", fmt("running system error %.12g, expected %.12g", x->error, xe));
        }
        esum += e; h = sim_hash(h, &e, sizeof e);
        xcs_rl_end_step(x, L.p, a, reward);
        m.have_prev = true; m.prev_aset = m.cur_aset; m.prev_reward = reward; m.prev_state = S_;
        cur = next;
        check_invariants(m, "reinforcement step");
    }
    xcs_rl_end_trial(x); m.in_trial = false;
    if (sim_clock_step) count("episodes"); count("episode_steps", steps);
    o_hash("out", h); o_num("err", esum / steps);
}
// Performance lines, as a user reads them from the output.
struct Line { int trial, size; double a, b; };
static std::vector<Line> perf_lines(const S &t)
{
    std::vector<Line> v; size_t i = 0;
    while (i < t.size()) { size_t e = t.find('\n', i); if (e == S::npos) e = t.size(); Line l; int k = 0; S q = t.substr(i, e - i); if (sscanf(q.c_str(), "%d %lf %lf %d%n", &l.trial, &l.a, &l.b, &l.size, &k) == 4 && k == (int) q.size()) v.push_back(l); i = e + 1; }
    return v;
}
static void expect_lines(const std::vector<Line> &got, const std::vector<Line> &want)
{
    auto near = [](double a, double b) { if (!std::isfinite(a) || !std::isfinite(b)) return true; return fabs(a - b) <= 1.1e-5 + 1e-9 * fabs(b); };
    if (got.size() != want.size()) { viol("C22", fmt("%zu performance lines were printed, %zu are due", got.size(), want.size())); return; }
    for (size_t i = 0; i < got.size(); ++i)
        if (got[i].trial != want[i].trial || got[i].size != want[i].size || !near(got[i].a, want[i].a) || !near(got[i].b, want[i].b)) { viol("C22", fmt("performance line %d %.5f %.5f %d, expected %d %.5f %.5f %d", got[i].trial, got[i].a, got[i].b, got[i].size, want[i].trial, want[i].a, want[i].b, want[i].size)); return; }
    count("perf_lines_checked", (long) got.size());
}
static void stdout_reset() { fflush(stdout); if (ftruncate(1, 0)) {} lseek(1, 0, SEEK_SET); }
// A training call with its printed performance and returned error, against its trials one by one.
static void fit_lines(Model &m, const cJSON *o)
{
    XCSF *x = m.x; Data &d = datas[(int) in_(o, "d", 0)], &e = datas[(int) in_(o, "td", 1)]; bool test = in_(o, "test", 0); int n = (int) in_(o, "n", 1), start = (int) in_(o, "start", 0); param_set_perf_trials(x, (int) in_(o, "perf", 2)); int P = x->PERF_TRIALS;
    Lent X(d.x.data(), d.x.size(), "training input"), Y(d.y.data(), d.y.size(), "training target"), X2(e.x.data(), e.x.size(), "test input"), Y2(e.y.data(), e.y.size(), "test target"); Input in = { X.p, Y.p, d.xd, d.yd, d.n }, in2 = { X2.p, Y2.p, e.xd, e.yd, e.n };
    struct R { double a, b; int size; };
    S s = in_child([&]() {
        S q; for (int k = 0; k < n; ++k) { R r = { 0, 0, 0 }; r.a = xcs_supervised_fit(x, &in, nullptr, false, start + k, 1); if (test) { int row = (start + k) % e.n; Input one = { &X2.p[row * e.xd], &Y2.p[row * e.yd], e.xd, e.yd, 1 }; r.b = xcs_supervised_score(x, &one, nullptr); } r.size = x->pset.size; q.append((char *) &r, sizeof r); } return q; });
    stdout_reset(); double ret = xcs_supervised_fit(x, &in, test ? &in2 : nullptr, false, start, n); auto got = perf_lines(stdout_text());
    count("trials", n); o_num("err", ret); if (s.size() != sizeof(R) * (size_t) n) return;
    const R *r = (const R *) s.data(); std::vector<Line> want; double sa = 0, sb = 0, all = 0; int c = 0;
    for (int k = 0; k < n; ++k) { sa += r[k].a; sb += r[k].b; all += r[k].a; ++c; if (k > 0 && k % P == 0) { want.push_back({ k, r[k].size, sa / c, sb / c }); sa = sb = 0; c = 0; } }
    if (std::isfinite(all) && fabs(ret - all / n) > 1e-9 * fmax(1, fabs(all / n))) viol("C22", fmt("error of a call with %d trials is %.12g, mean of its trials %.12g", n, ret, all / n));
    expect_lines(got, want);
}
// Averages over the population, against the rules as they are exported.
static double json_active(const cJSON *l, double *nz)
{
    double k = 0; const cJSON *it;
    if (const cJSON *a = g(l, "n_active")) { k += a->valuedouble; const cJSON *w; if (!cJSON_IsArray(g(l, "weights"))) *nz = NAN; else cJSON_ArrayForEach(w, g(l, "weights")) if (w->valuedouble != 0) ++*nz; }
    cJSON_ArrayForEach(it, l) if (cJSON_IsObject(it)) k += json_active(it, nz);
    return k;
}
// Connections of a layer and those below it, counted one by one.
static double count_active(const Layer *l)
{
    if (l->type == RECURRENT) return count_active(l->input_layer) + count_active(l->self_layer) + count_active(l->output_layer);
    if (l->type == LSTM) { double k = 0; for (const Layer *s : { l->uf, l->ui, l->ug, l->uo, l->wf, l->wi, l->wg, l->wo }) k += count_active(s); return k; }
    double k = 0; if (l->type == CONNECTED || l->type == CONVOLUTIONAL) for (int i = 0; i < l->n_weights; ++i) { if (l->weight_active[i]) ++k; else if (l->weights[i] != 0) viol("C22", "an inactive connection has a weight"); }
    return k;
}
static void check_net(const Net *net)
{
    for (const Llist *it = net->tail; it; it = it->prev) { double k = count_active(it->layer); if ((k != 0 || it->layer->type == CONNECTED) && k != it->layer->n_active) viol("C22", fmt("a layer reports %d active connections, it has %g", it->layer->n_active, k)); }
}
static void check_stats(XCSF *x)
{
    for (const Clist *it = x->pset.list; it; it = it->next) { if (x->cond->type == COND_TYPE_NEURAL) check_net(&((const CondNeural *) it->cl->cond)->net); else if (x->cond->type == RULE_TYPE_NEURAL) check_net(&((const RuleNeural *) it->cl->cond)->net); if (x->pred->type == PRED_TYPE_NEURAL) check_net(&((const PredNeural *) it->cl->pred)->net); }
    char *t = clset_json_export(x, &x->pset, true, true, true); cJSON *j = cJSON_Parse(t); sim_free(t); if (!j) return;
    const cJSON *cl, *l; int N = 0; double cs = 0, ps = 0; bool cs_ok = true, ps_ok = true; std::vector<double> ce, cn, pe, pn, pa; double cL = 0, pL = 0; bool cneu = false, pneu = false; std::vector<double> ca;
    auto add = [](std::vector<double> &v, size_t i, double d) { if (v.size() <= i) v.resize(i + 1, 0); v[i] += d; };
    cJSON_ArrayForEach(cl, g(j, "classifiers")) {
        ++N; const cJSON *c = g(cl, "condition"), *p = g(cl, "prediction"); S ct = str(c, "type"), pt = str(p, "type");
        auto net = [&](const cJSON *q, std::vector<double> &et, std::vector<double> &ne, std::vector<double> &ac, double &L, double &size) {
            size_t i = 0; cJSON_ArrayForEach(l, g(q, "network")) { S lt = str(l, "type"); double nz = 0, a = json_active(l, &nz); if (!std::isnan(nz) && nz != a) viol("C22", fmt("a %s layer reports %g active connections but has %g weights", lt.c_str(), a, nz)); add(et, i, num(l, "eta", 0)); add(ne, i, lt == "convolutional" ? num(l, "n_filters", 0) : num(l, "n_outputs", 0)); add(ac, i, a); size += a; ++i; } L += (double) i; };
        if (ct == "neural" || ct == "rule_neural") { cneu = true; net(c, ce, cn, ca, cL, cs); } else if (ct == "hyperrectangle_csr" || ct == "hyperrectangle_ubr" || ct == "hyperellipsoid") cs += x->x_dim; else if (ct == "ternary") cs += (double) str(c, "string").size(); else if (ct == "dummy") {} else cs_ok = false;
        if (pt == "neural") { pneu = true; net(p, pe, pn, pa, pL, ps); } else if (pt == "constant") ps += x->y_dim; else if (g(p, "weights")) ps += cJSON_GetArraySize(g(p, "weights")); else ps_ok = false;
    }
    cJSON_Delete(j); if (!N) return;
    auto cmp = [&](const char *what, double got, double want) { want /= N; if (fabs(got - want) > 1e-9 * fmax(1, fabs(want))) viol("C22", fmt("%s is reported as %.12g, over the rules it is %.12g", what, got, want)); };
    if (N != x->pset.size) viol("C22", fmt("population size is reported as %d, %d rules are exported", x->pset.size, N));
    if (x->cond->type == COND_TYPE_GP || x->cond->type == COND_TYPE_DGP || x->cond->type == RULE_TYPE_DGP) { cs = 0; cs_ok = true; for (const Clist *it = x->pset.list; it; it = it->next) cs += x->cond->type == COND_TYPE_GP ? ((const CondGP *) it->cl->cond)->gp.len : x->cond->type == COND_TYPE_DGP ? ((const CondDGP *) it->cl->cond)->dgp.n : ((const RuleDGP *) it->cl->cond)->dgp.n; }
    if (cs_ok) cmp("mean condition size", clset_mean_cond_size(x, &x->pset), cs);
    if (ps_ok) cmp("mean prediction size", clset_mean_pred_size(x, &x->pset), ps);
    if (cneu) { cmp("mean number of condition layers", clset_mean_cond_layers(x, &x->pset), cL); for (size_t i = 0; i < cn.size(); ++i) { cmp("mean number of condition neurons", clset_mean_cond_neurons(x, &x->pset, (int) i), cn[i]); cmp("mean number of condition connections", clset_mean_cond_connections(x, &x->pset, (int) i), ca[i]); } }
    if (pneu) { cmp("mean number of prediction layers", clset_mean_pred_layers(x, &x->pset), pL); for (size_t i = 0; i < pn.size(); ++i) { cmp("mean number of prediction neurons", clset_mean_pred_neurons(x, &x->pset, (int) i), pn[i]); cmp("mean number of prediction connections", clset_mean_pred_connections(x, &x->pset, (int) i), pa[i]); cmp("mean prediction layer eta", clset_mean_pred_eta(x, &x->pset, (int) i), pe[i]); } }
    count(pneu || cneu ? "stats_neural" : "stats_other");
}
// ---------- restructured predictions ----------
struct LayerObs { int type, n_in, n_out; u64 h; };
static u64 hlayer(const Layer *l, u64 h)
{
    if (l->type == RECURRENT) { for (const Layer *s : { l->input_layer, l->self_layer, l->output_layer }) h = hlayer(s, h); return h; }
    if (l->type == LSTM) { for (const Layer *s : { l->uf, l->ui, l->ug, l->uo, l->wf, l->wi, l->wg, l->wo }) h = hlayer(s, h); return h; }
    if (l->type != CONNECTED && l->type != CONVOLUTIONAL) return h;
    h = sim_hash(h, l->weights, sizeof(double) * (size_t) l->n_weights); h = sim_hash(h, l->biases, sizeof(double) * (size_t) l->n_biases); h = sim_hash(h, l->weight_active, sizeof(bool) * (size_t) l->n_weights); return sim_hash(h, &l->function, sizeof l->function);
}
static std::map<Cl *, std::vector<LayerObs>> net_shape(XCSF *x)
{
    std::map<Cl *, std::vector<LayerObs>> v; if (x->pred->type != PRED_TYPE_NEURAL) return v;
    for (const Clist *it = x->pset.list; it; it = it->next) for (const Llist *l = ((const PredNeural *) it->cl->pred)->net.tail; l; l = l->prev) v[it->cl].push_back({ (int) l->layer->type, l->layer->n_inputs, l->layer->n_outputs, hlayer(l->layer, SIM_HASH0) });
    return v;
}
static void check_same_rules(XCSF *x, const PopObs &a, const PopObs &b, const char *what)
{
    if (a.size != b.size || a.num != b.num || a.time != b.time || a.r.size() != b.r.size()) { viol("C23", fmt("%s changed the population: %d rules, numerosity %d -> %d rules, %d", what, a.size, a.num, b.size, b.num)); return; }
    for (size_t i = 0; i < a.r.size(); ++i) {
        const RuleObs &p = a.r[i], &q = b.r[i];
        if (p.num != q.num || p.size != q.size || p.age != q.age || p.mtotal != q.mtotal || p.action != q.action || p.jc != q.jc || p.ja != q.ja) { viol("C23", fmt("%s changed the condition, action, numerosity, set size or match counts of rule %zu", what, i)); return; }
        if (q.fit != x->INIT_FITNESS || q.err != x->INIT_ERROR || q.exp != 0 || q.time != x->time) { viol("C23", fmt("after %s rule %zu does not start afresh: error %.9g fitness %.9g experience %d time %d", what, i, q.err, q.fit, q.exp, q.time)); return; }
    }
}
static void check_chain(const std::vector<LayerObs> &v, const XCSF *x, const char *what)
{
    for (size_t i = 1; i < v.size(); ++i) if (v[i].n_in != v[i - 1].n_out) { viol("C23", fmt("after %s layer %zu takes %d inputs but the one before gives %d", what, i, v[i].n_in, v[i - 1].n_out)); return; }
    if (v.back().n_out != x->y_dim) viol("C23", fmt("after %s a network has %d outputs for %d", what, v.back().n_out, x->y_dim));
}
static void check_expand(XCSF *x, std::map<Cl *, std::vector<LayerObs>> &b, const PopObs &pre)
{
    auto a = net_shape(x); check_same_rules(x, pre, observe(x, true), "expanding the predictions");
    for (auto &kv : a) {
        auto &p = b[kv.first], &q = kv.second; size_t n = p.size(); if (!n) return;
        if (q.size() != n + 1) { viol("C23", fmt("expanding a prediction of %zu layers gave %zu", n, q.size())); return; }
        for (size_t i = 0; i + 1 < n; ++i) if (p[i].h != q[i].h || p[i].type != q[i].type || p[i].n_in != q[i].n_in || p[i].n_out != q[i].n_out) { viol("C23", fmt("expanding the predictions changed layer %zu of %zu", i, n)); return; }
        if (q[n - 1].type != CONNECTED) viol("C23", "the layer inserted when expanding is not a connected one");
        if (q[n - 1].n_out != (n > 1 ? p[n - 2].n_out : p[0].n_out)) viol("C23", fmt("the layer inserted when expanding has %d neurons", q[n - 1].n_out));
        if (q[n].type != p[n - 1].type || q[n].n_out != p[n - 1].n_out) viol("C23", "expanding the predictions replaced the output layer");
        if (q[n].n_in == p[n - 1].n_in && q[n].h != p[n - 1].h) viol("C23", "expanding the predictions changed the output layer's weights");
        check_chain(q, x, "expanding");
    }
    count("expanded", (long) a.size());
}
static void check_ae2cl(XCSF *x, std::map<Cl *, std::vector<LayerObs>> &b, const PopObs &pre, int del, int n_args)
{
    auto a = net_shape(x); check_same_rules(x, pre, observe(x, true), "turning the model into a classifier");
    for (auto &kv : a) {
        auto &p = b[kv.first], &q = kv.second; if (p.empty()) return; size_t keep = p.size() > (size_t) del ? p.size() - (size_t) del : 1;
        if (q.size() != keep + 2) { viol("C23", fmt("removing %d of %zu layers and adding an output gave %zu layers", del, p.size(), q.size())); return; }
        for (size_t i = 0; i < keep; ++i) if (p[i].h != q[i].h || p[i].type != q[i].type || p[i].n_in != q[i].n_in || p[i].n_out != q[i].n_out) { viol("C23", fmt("turning the model into a classifier changed layer %zu, which it keeps", i)); return; }
        if (q[keep].type != CONNECTED || q[keep + 1].type != SOFTMAX) viol("C23", "the new output is not a connected layer with softmax");
        check_chain(q, x, "turning the model into a classifier");
    }
    // a rule made from now on
    S t = in_child([&]() {
        Cl *c = (Cl *) sim_malloc(sizeof(Cl)); cl_init(x, c, 1, 1); cl_rand(x, c); std::vector<LayerObs> q; for (const Llist *l = ((const PredNeural *) c->pred)->net.tail; l; l = l->prev) q.push_back({ (int) l->layer->type, l->layer->n_inputs, l->layer->n_outputs, 0 });
        int keep = n_args > del ? n_args - del : 1; if ((int) q.size() != keep + 2 || q.back().type != SOFTMAX || q[q.size() - 2].type != CONNECTED || q.back().n_out != x->y_dim) return S("shape");
        for (size_t i = 1; i < q.size(); ++i) if (q[i].n_in != q[i - 1].n_out) return S("chain");
        std::vector<double> in((size_t) x->x_dim, 0.3); const double *r = cl_predict(x, c, in.data()); double sum = 0; for (int i = 0; i < x->y_dim; ++i) sum += r[i];
        return S(fabs(sum - 1) < 1e-6 ? "ok" : "sum"); });
    if (t == "shape" || t == "chain") viol("C23", "a rule created in the classifier does not have the layers of the others"); else if (t == "sum") viol("C23", "a rule created in the classifier does not predict probabilities");
    if (t == "ok") count("new_rules_of_classifiers");
    if (x->LOSS_FUNC != LOSS_ONEHOT) viol("C23", "a classifier does not use the one-hot loss");
    count("converted", (long) a.size());
}
// whether there are, or were, rules of no fitness
static bool weightless = false;
static bool no_fitness(const XCSF *x)
{
    if (x->INIT_FITNESS == 0 || x->ea->fit_reduc == 0) weightless = true;
    for (const Clist *it = x->pset.list; it; it = it->next) if (it->cl->fit <= 0) weightless = true;
    return weightless;
}
// what a classifier predicts are probabilities
static void check_probs(const XCSF *x, const double *out, int n)
{
    for (int i = 0; i < n; ++i) { double s = 0; bool bad = false; for (int j = 0; j < x->pa_size; ++j) { double v = out[i * x->pa_size + j]; if (!std::isfinite(v)) return; s += v; if (v < -1e-9) bad = true; } if (!bad && s == 0 && no_fitness(x)) continue; // rules of no fitness say nothing
        if (bad || fabs(s - 1) > 1e-6) { viol("C23", fmt("the classifier's prediction sums to %.12g", s)); return; } }
    count("probabilities_checked", n);
}
static void input_range(double &lo, double &hi) { lo = 0; hi = 1; for (auto &kv : datas) for (double v : kv.second.x) { if (v < lo) lo = v; if (v > hi) hi = v; } }
static bool run_op(const cJSON *o)
{
    S op = str(o, "op"); int mi = (int) in_(o, "m", 0); Model &m = models[mi]; XCSF *x = m.x; out_fields.clear();
    if (g(o, "faults")) disk_faults_from(g(o, "faults"));
    if (g(o, "chunk")) sim_disk_chunk = in_(o, "chunk", 0);
    if (g(o, "kill")) sim_kill_at = sim_disk_ops + (u64) in_(o, "kill", 1);
    u64 rp = 0; if (chk.rng || in_(o, "rngcheck", 0)) rp = rng_peek();
    if (op == "new") { make_model(m, o); x = m.x; }
    else if (op == "free") { free_model(m); x = nullptr; }
    else if (op == "leakmark") { slots["_mark"] = fmt("%llu", (unsigned long long) sim_heap_mark()); }
    else if (op == "leakcheck") {
        u64 mk = strtoull(slots["_mark"].c_str(), 0, 10), by = 0; void *site = nullptr; u64 k = sim_heap_live_since(mk, &by, &site);
        if (k) viol("C13", fmt("%llu blocks (%llu bytes) still allocated after every model was destroyed; first allocated at %p", (unsigned long long) k, (unsigned long long) by, site));
        count("leak_checks");
    }
    else if (op == "data") datas[(int) in_(o, "d", 0)] = make_data(o);
    else if (op == "fit") {
        Data &d = datas[(int) in_(o, "d", 0)]; int n = (int) in_(o, "n", 1), start = (int) in_(o, "start", 0); bool sh = in_(o, "shuffle", 0); const cJSON *td = g(o, "td");
        Lent X(d.x.data(), d.x.size(), "training input"), Y(d.y.data(), d.y.size(), "training target"); Input in = { X.p, Y.p, d.xd, d.yd, d.n };
        Data &d2 = datas[td ? td->valueint : (int) in_(o, "d", 0)]; Lent X2(d2.x.data(), d2.x.size(), "test input"), Y2(d2.y.data(), d2.y.size(), "test target"); Input in2 = { X2.p, Y2.p, d2.xd, d2.yd, d2.n };
        double ret = 0;
        if (chk.ref && !sh && !td && in_(o, "ref", 1)) {
            // each trial of the call on its own; the whole call must be their sequence
            if (n > 1 && !m.noref) {
                S s = in_child([&]() { double e = xcs_supervised_fit(x, &in, nullptr, false, start, n); Dig g_ = digest(x); S q; q.append((char *) &e, 8); q.append((char *) &g_.rules, 8); q.append((char *) &g_.bodies, 8); return q; });
                double sum = 0;
                for (int k = 0; k < n; ++k) { int row = (start + k) % d.n; TrialSpec t; double r1 = 0; t.X = &X.p[row * d.xd]; t.Y = &Y.p[row * d.yd]; t.learn = t.covering = true; t.ret = &r1; ref_trial(m, t, [&]() { r1 = xcs_supervised_fit(x, &in, nullptr, false, start + k, 1); }); sum += r1; check_invariants(m, "trial"); }
                ret = sum / n; Dig dg = digest(x); double e = 0; u64 a = 0, b = 0;
                if (s.size() == 24) { memcpy(&e, s.data(), 8); memcpy(&a, s.data() + 8, 8); memcpy(&b, s.data() + 16, 8);
                    if (a != dg.rules || b != dg.bodies) viol("C08", fmt("%d trials in one call do not give the same model as the same trials one by one", n));
                    if (fabs(e - ret) > 1e-9 * fmax(1, fabs(ret))) viol("C08", fmt("error of a call with %d trials is %.12g, mean of its trials %.12g", n, e, ret)); }
            } else { int row = start % d.n; TrialSpec t; t.X = &X.p[row * d.xd]; t.Y = &Y.p[row * d.yd]; t.learn = t.covering = true; t.ret = &ret; ref_trial(m, t, [&]() { ret = xcs_supervised_fit(x, &in, nullptr, false, start, n); }); }
        } else ret = xcs_supervised_fit(x, &in, td ? &in2 : nullptr, sh, start, n);
        count("trials", n); o_num("err", ret);
        if (in_(o, "met", 0)) { o_num("psize", x->pset.size); o_num("msize", x->mset_size); o_num("mfrac", x->mfrac); }
    }
    else if (op == "predict") {
        Data &d = datas[(int) in_(o, "d", 0)]; Vd cb; const double *cv = cover_arr(o, m, cb); Lent X(d.x.data(), d.x.size(), "input"), C(cv ? cv : &cb.emplace_back(0), cv ? cb.size() : 1, "cover"); Vd out((size_t) (d.n * x->pa_size));
        if (chk.ref && !m.noref) {
            S s = in_child([&]() { xcs_supervised_predict(x, X.p, out.data(), d.n, cv ? C.p : nullptr); return S((char *) out.data(), sizeof(double) * out.size()); });
            Vd whole(out.size()); if (s.size() == sizeof(double) * out.size()) memcpy(whole.data(), s.data(), s.size());
            for (int k = 0; k < d.n; ++k) { TrialSpec t; t.X = &X.p[k * d.xd]; t.covering = !cv; t.cover = cv ? C.p : nullptr; ref_trial(m, t, [&]() { xcs_supervised_predict(x, t.X, &out[(size_t) (k * x->pa_size)], 1, t.cover); });
                for (int j = 0; j < x->pa_size; ++j) if (memcmp(&out[(size_t) (k * x->pa_size + j)], &x->pa[j], 8)) viol("C07", "the returned prediction is not the prediction array"); }
            if (memcmp(whole.data(), out.data(), sizeof(double) * out.size())) viol("C07", "predictions of several inputs in one call differ from predictions one by one");
        } else xcs_supervised_predict(x, X.p, out.data(), d.n, cv ? C.p : nullptr);
        if (m.classifies && !cv) check_probs(x, out.data(), d.n);
        count("predictions", d.n); o_hash("out", hd(out)); if (in_(o, "vals", 0)) { out_fields += ",\"vals\":["; for (size_t i = 0; i < out.size(); ++i) out_fields += (i ? "," : "") + jnum(out[i]); out_fields += "]"; }
    }
    else if (op == "score" || op == "score_n") {
        Data &d = datas[(int) in_(o, "d", 0)]; Vd cb; const double *cv = cover_arr(o, m, cb); Lent X(d.x.data(), d.x.size(), "input"), Y(d.y.data(), d.y.size(), "target"), C(cv ? cv : &cb.emplace_back(0), cv ? cb.size() : 1, "cover"); Input in = { X.p, Y.p, d.xd, d.yd, d.n };
        double ind = 0; bool have = false;
        if (chk.ref && op == "score" && !m.noref && !m.stateful_rules) {
            S s = in_child([&]() { double e = 0; for (int k = 0; k < d.n; ++k) { Vd p((size_t) x->pa_size); xcs_supervised_predict(x, &X.p[k * d.xd], p.data(), 1, cv ? C.p : nullptr); e += x->loss_ptr(x, p.data(), &Y.p[k * d.yd]); } e /= d.n; return S((char *) &e, 8); });
            if (s.size() == 8) { memcpy(&ind, s.data(), 8); have = true; }
        }
        Vd losses; if (chk.ref && op == "score_n" && cv && !m.noref && !m.stateful_rules) { S s = in_child([&]() { Vd l; for (int k = 0; k < d.n; ++k) { Vd p((size_t) x->pa_size); xcs_supervised_predict(x, &X.p[k * d.xd], p.data(), 1, C.p); l.push_back(x->loss_ptr(x, p.data(), &Y.p[k * d.yd])); } return S((char *) l.data(), 8 * l.size()); }); if (s.size() == 8 * (size_t) d.n) { losses.resize((size_t) d.n); memcpy(losses.data(), s.data(), s.size()); } }
        double e = op == "score" ? xcs_supervised_score(x, &in, cv ? C.p : nullptr) : xcs_supervised_score_n(x, &in, (int) in_(o, "N", 1), cv ? C.p : nullptr);
        if (have && !(fabs(e - ind) <= 1e-9 * fmax(1, fabs(ind)))) viol("C07", fmt("score %.12g, the mean error of the predictions is %.12g", e, ind));
        if (have && !(fabs(e - ind) <= 1e-9 * fmax(1, fabs(ind)))) viol("C22", fmt("score %.12g, the mean error of the predictions is %.12g", e, ind));
        if (!losses.empty() && cv && std::isfinite(e)) { // a sample: the mean of N of the errors
            int N = (int) in_(o, "N", 1), n = (int) losses.size(); double lo = INFINITY, hi = -INFINITY, all = 0; for (double l : losses) { lo = fmin(lo, l); hi = fmax(hi, l); all += l; }
            double tol = 1e-9 * fmax(1, fabs(hi)); bool ok = std::isnan(all) || std::isinf(all);
            if (N > n) ok = ok || fabs(e - all / n) <= tol;
            else if (N == 1) { for (double a : losses) if (fabs(e - a) <= tol) ok = true; }
            else if (N == 2) { for (double a : losses) for (double b : losses) if (fabs(e - (a + b) / 2) <= tol) ok = true; }
            else if (N == 3) { for (double a : losses) for (double b : losses) for (double c : losses) if (fabs(e - (a + b + c) / 3) <= tol) ok = true; }
            else ok = ok || (e >= lo - tol && e <= hi + tol);
            if (!ok) viol("C22", fmt("the score of %d drawn samples is %.12g, which no %d of the %d errors give", N, e, N, n)); count("score_n_checked");
        }
        count("scores"); o_num("err", e);
    }
    else if (op == "rlfit") {
        SimRng r = { (u64) in_(o, "seed", 1) }; Vd st; for (int j = 0; j < x->x_dim; ++j) { double u = u01(r); st.push_back(in_(o, "bin", 0) ? (double) (u > 0.5) : u); } int a = (int) (in_(o, "action", 0) % x->n_actions); double rew = num(o, "reward", 1); double ret = 0;
        Lent L(st.data(), st.size(), "state");
        if (chk.ref && !m.noref) { TrialSpec t; t.X = L.p; t.Y = &rew; t.learn = t.covering = true; t.action = a; t.ret = &ret; ref_trial(m, t, [&]() { ret = xcs_rl_fit(x, L.p, a, rew); }); }
        else ret = xcs_rl_fit(x, L.p, a, rew);
        count("trials"); o_num("err", ret);
    }
    else if (op == "walk") { // an episode over rows of a data set, as the Python world takes it
        Data &d = datas[(int) in_(o, "d", 0)]; const cJSON *it, *rows = g(o, "rows"); int n = cJSON_GetArraySize(rows), k = 0; Vd out; xcs_rl_init_trial(x);
        cJSON_ArrayForEach(it, rows) {
            double *row = &d.x[(size_t) ((it->valueint % d.n) * d.xd)]; double s = 0; for (int j = 0; j < d.xd; ++j) s += row[j];
            xcs_rl_init_step(x); param_set_explore(x, in_(o, "explore", 1)); int a = xcs_rl_decision(x, row); bool done = ++k == n; double rew = a == (int) (s * 3) % x->n_actions;
            xcs_rl_update(x, row, a, rew, done); double e = xcs_rl_error(x, a, rew, done, 1.0); xcs_rl_end_step(x, row, a, rew); out.push_back(a); out.push_back(e);
        }
        xcs_rl_end_trial(x); out.push_back(x->error); out_fields += ",\"vals\":["; for (size_t i = 0; i < out.size(); ++i) out_fields += (i ? "," : "") + jnum(out[i]); out_fields += "]";
    }
    else if (op == "rlrow") { Data &d = datas[(int) in_(o, "d", 0)]; o_num("err", xcs_rl_fit(x, &d.x[(size_t) (((int) in_(o, "i", 0) % d.n) * d.xd)], (int) in_(o, "action", 0), num(o, "reward", 1))); }
    else if (op == "episode") episode(m, o);
    else if (op == "exp") { // built-in environment
        int mt = x->MAX_TRIALS; spy.log.clear(); spy.won.clear(); spy.episodes = 0; if (in_(o, "lines", 0)) stdout_reset(); double p = xcs_rl_exp(x); spy_close(); o_num("perf", p);
        if (in_(o, "lines", 0)) { S t; for (auto &l : perf_lines(stdout_text())) t += fmt("%s[%d,%s,%s,%d]", t.empty() ? "" : ",", l.trial, jnum(l.a).c_str(), jnum(l.b).c_str(), l.size); out_fields += ",\"lines\":[" + t + "]"; }
        if ((int) spy.log.size() != 2 * mt) viol("C14", fmt("%zu episodes were run for %d trials", spy.log.size(), mt));
        double tot = 0; for (size_t i = 0; i < spy.log.size(); ++i) { if (spy.log[i].first != (i % 2 == 0)) viol("C14", fmt("episode %zu ran with exploration %s", i, spy.log[i].first ? "on" : "off")); if (i % 2) tot += spy.log[i].second; }
        if (spy.kind == "maze" && fabs(p - tot / mt) > 1e-9) viol("C14", fmt("reported mean steps %.12g, actual %.12g", p, tot / mt));
        if (spy.kind == "mp") { double ok = 0; for (size_t i = 1; i < spy.won.size(); i += 2) ok += spy.won[i] > 0; if (fabs(p - ok / mt) > 1e-9) viol("C14", fmt("reported accuracy %.12g, actual %.12g", p, ok / mt)); }
        count("builtin_episodes", (long) spy.log.size());
    }
    else if (op == "exptwin") { // the same experiment, spelled out with the library's steps
        double tot = 0; int mt = x->MAX_TRIALS; double wa = 0, wb = 0; int wc = 0; S lt;
        for (int c = 0; c < 2 * mt; ++c) {
            env_reset(x); param_set_explore(x, c % 2 == 0); xcs_rl_init_trial(x); double rew = 0, es = 0; bool done = false; int steps = 0;
            while (!done && steps < x->TELETRANSPORTATION) {
                xcs_rl_init_step(x); const double *st = env_get_state(x); int a = xcs_rl_decision(x, st); rew = env_execute(x, a); done = env_is_done(x);
                xcs_rl_update(x, st, a, rew, done); es += xcs_rl_error(x, a, rew, done, env_max_payoff(x)); xcs_rl_end_step(x, st, a, rew); ++steps;
            }
            xcs_rl_end_trial(x); if (c % 2) tot += env_multistep(x) ? steps : rew > 0;
            if (c % 2) { wa += env_multistep(x) ? steps : rew > 0; wb += es / steps; ++wc; int k = c / 2; if (k > 0 && k % x->PERF_TRIALS == 0) { lt += fmt("%s[%d,%s,%s,%d]", lt.empty() ? "" : ",", k, jnum(wa / wc).c_str(), jnum(wb / wc).c_str(), x->pset.size); wa = wb = 0; wc = 0; } }
        }
        spy_close(); o_num("perf", tot / mt); if (in_(o, "lines", 0)) out_fields += ",\"lines\":[" + lt + "]";
    }
    else if (op == "main") {
        std::vector<S> av; const cJSON *it; cJSON_ArrayForEach(it, g(o, "argv")) av.push_back(it->valuestring); std::vector<char *> pv; for (auto &s : av) pv.push_back((char *) s.c_str()); pv.push_back(nullptr);
        fflush(stdout); if (ftruncate(1, 0)) {} lseek(1, 0, SEEK_SET);
        int rc = xcsf_main((int) av.size(), pv.data()); S t = stdout_text(); o_num("rc", rc); o_str("stdout", t.size() > 20000 ? t.substr(0, 20000) : t); o_hash("out", hS(t));
        S lg; for (auto &e : spy.log) lg += e.first ? 'E' : 'x'; o_str("episodes", lg.substr(0, 4000));
        count("builtin_episodes", (long) spy.log.size());
    }
    else if (op == "envfit") { // what the program does with a data set, through the library
        fflush(stdout); if (ftruncate(1, 0)) {} lseek(1, 0, SEEK_SET); const EnvCSV *e = (const EnvCSV *) x->env; int t0 = x->time;
        double r = xcs_supervised_fit(x, e->train_data, e->test_data, true, 0, x->MAX_TRIALS); o_num("err", r); o_str("stdout", stdout_text()); o_num("trials", x->time - t0);
    }
    else if (op == "envdata") { const EnvCSV *e = (const EnvCSV *) x->env; for (const Input *d : { e->train_data, e->test_data }) { S t; for (int i = 0; i < d->n_samples * d->x_dim; ++i) t += fmt("%.17g ", d->x[i]); t += "| "; for (int i = 0; i < d->n_samples * d->y_dim; ++i) t += fmt("%.17g ", d->y[i]); o_str(d == e->train_data ? "train" : "test", t); } }
    else if (op == "save") { size_t n = xcsf_save(x, str(o, "f").c_str()); o_num("n", (double) n); int i = sim_disk_find(str(o, "f").c_str()); if (i >= 0) { o_num("bytes", sim_disk->f[i].size); o_hash("out", sim_hash(SIM_HASH0, sim_file_data(i), sim_disk->f[i].size)); } count("saves"); }
    else if (op == "load") { size_t n = xcsf_load(x, str(o, "f").c_str()); o_num("n", (double) n); count("loads"); }
    else if (op == "store") { xcsf_store_pset(x); count("stores"); }
    else if (op == "retrieve") { xcsf_retrieve_pset(x); count("retrieves"); }
    else if (op == "dig") { out_fields += ",\"dig\":" + digs(digest(x)); if (in_(o, "rng", 0)) o_hash("rngpos", rng_peek()); }
    else if (op == "json") { char *j = clset_json_export(x, &x->pset, true, true, true); slots[str(o, "slot")] = j; o_hash("out", hS(j)); if (g(o, "f")) sim_disk_put(str(o, "f").c_str(), j, strlen(j)); if (in_(o, "text", 0)) o_str("text", j); sim_free(j); }
    else if (op == "rules") { S t = "["; for (const Clist *it = x->pset.list; it; it = it->next) { const Cl *c = it->cl; t += t.size() > 1 ? ",[" : "["; for (double v : { c->err, c->fit, c->size }) t += jnum(v) + ","; for (int v : { c->num, c->exp, c->time, c->age, c->mtotal, c->action, (int) c->m }) t += fmt("%d,", v); for (int i = 0; i < x->y_dim; ++i) t += jnum(c->prediction[i]) + (i + 1 < x->y_dim ? "," : ""); t += "]"; } out_fields += ",\"rules\":" + t + "]"; }
    else if (op == "print") { xcsf_print_pset(x, true, true, true); param_print(x); fflush(stdout); }
    else if (op == "jsonin" || op == "jsonin1") {
        cJSON *j = cJSON_Parse(slots[str(o, "slot")].c_str()); cJSON *a = j->child; int n = cJSON_GetArraySize(a), before = x->pset.num; long sum = 0; for (int i = 0; i < n; ++i) sum += cJSON_GetObjectItem(cJSON_GetArrayItem(a, i), "numerosity")->valueint;
        if (op == "jsonin") clset_json_insert(x, slots[str(o, "slot")].c_str()); else for (int i = n - 1; i >= 0; --i) clset_json_insert_cl(x, cJSON_GetArrayItem(a, i));
        cJSON_Delete(j); long want = before + sum; if (want > x->POP_SIZE) want = x->POP_SIZE;
        if (chk.inv && x->pset.num != want) viol("C06", fmt("total numerosity %d after importing rules of numerosity %ld into %d (maximum %d)", x->pset.num, sum, before, x->POP_SIZE));
    }
    else if (op == "params") { char *j = param_json_export(x); slots[str(o, "slot")] = j; o_hash("out", hS(j)); if (g(o, "f")) sim_disk_put(str(o, "f").c_str(), j, strlen(j)); if (in_(o, "text", 0)) o_str("text", j); sim_free(j); }
    else if (op == "slotf") { int i = sim_disk_find(str(o, "f").c_str()); slots[str(o, "slot")] = i >= 0 ? S((char *) sim_file_data(i), sim_disk->f[i].size) : S(); }
    else if (op == "init") { xcsf_init(x); m.inited = true; }
    else if (op == "paramsin") { param_json_import(x, slots[str(o, "slot")].c_str()); }
    else if (op == "setp") { no_fitness(x); char *t = cJSON_PrintUnformatted(g(o, "cfg")); param_json_import(x, t); cJSON_free(t); }
    else if (op == "reseed") { char t[64]; snprintf(t, sizeof t, "{\"random_state\": %d}", (int) in_(o, "seed", 1)); param_json_import(x, t); }
    else if (op == "expand") { auto b = net_shape(x); PopObs pre = observe(x, true); xcsf_pred_expand(x); check_expand(x, b, pre); }
    else if (op == "ae2cl") { auto b = net_shape(x); PopObs pre = observe(x, true); int del = (int) in_(o, "del", 1), n_args = 0; for (const ArgsLayer *a = x->pred->largs; a; a = a->next) ++n_args; xcsf_ae_to_classifier(x, (int) in_(o, "y", 1), del); m.classifies = true; check_ae2cl(x, b, pre, del, n_args); }
    else if (op == "draw") { double s = 0; for (int i = 0; i < in_(o, "n", 1); ++i) s += in_(o, "normal", 0) ? rand_normal(0, 1) : rand_uniform(0, 1); o_num("sum", s); }
    else if (op == "junk") { // other activity on the heap
        SimRng r = { (u64) in_(o, "seed", 1) }; std::vector<void *> v; for (int i = 0; i < in_(o, "n", 50); ++i) { v.push_back(sim_malloc(8 + sim_below(&r, 400))); if (sim_below(&r, 2) && !v.empty()) { size_t k = sim_below(&r, v.size()); sim_free(v[k]); v.erase(v.begin() + (long) k); } } for (void *p : v) sim_free(p); }
    else if (op == "clock") { sim_clock_s += in_(o, "jump", 0); if (g(o, "step")) sim_clock_step = in_(o, "step", 1); }
    else if (op == "crash") { fflush(nullptr); out_raw("{\"crash\":1}"); _exit(0); }
    else if (op == "put") { S t = str(o, "text"); sim_disk_put(str(o, "f").c_str(), t.data(), t.size()); }
    else if (op == "trunc") { int i = sim_disk_find(str(o, "f").c_str()); if (i >= 0) { long k = in_(o, "at", 0); if (k < (long) sim_disk->f[i].size) sim_disk->f[i].size = (uint32_t) k; o_num("bytes", sim_disk->f[i].size); } }
    else if (op == "cat") { int i = sim_disk_find(str(o, "f").c_str()); if (i < 0) o_str("out", "missing"); else { o_num("bytes", sim_disk->f[i].size); o_hash("out", sim_hash(SIM_HASH0, sim_file_data(i), sim_disk->f[i].size)); if (in_(o, "hex", 0)) { S h; for (size_t k = 0; k < sim_disk->f[i].size; ++k) h += fmt("%02x", ((unsigned char *) sim_file_data(i))[k]); o_str("hex", h.c_str()); } } }
    else if (op == "rm") { sim_disk_remove(str(o, "f").c_str()); }
    else if (op == "fitp") fit_lines(m, o);
    else if (op == "stats") {
        check_stats(x);
        std::vector<int> nums; int k = 7; for (const Clist *it = x->pset.list; it; it = it->next) { nums.push_back(it->cl->num); k = (k * 5 + 3) % 16; it->cl->num = 1 + k; } // averages are over rules
        check_stats(x);
        size_t i = 0; for (const Clist *it = x->pset.list; it; it = it->next) it->cl->num = nums[i++];
    }
    else if (op == "age") { // as after a long life: counters far beyond what a short history reaches
        SimRng r = { (u64) in_(o, "seed", 1) }; const bool big = in_(o, "big", 0) || sim_below(&r, 4) == 0, recent = in_(o, "big", 0) || sim_below(&r, 2); x->time = std::max(x->time + 1, (int) sim_below(&r, big ? 2000000000 : 300000));
        for (const Clist *it = x->pset.list; it; it = it->next) {
            Cl *c = it->cl; c->time = recent || sim_below(&r, 2) ? x->time - 1 - (int) sim_below(&r, 30) : (int) sim_below(&r, (u64) x->time); if (c->time < 0) c->time = 0;
            const int seen = (int) sim_below(&r, 5000000), hit = sim_below(&r, 3) ? seen / (1 + (int) sim_below(&r, 9)) : seen; c->age += seen; if (sim_below(&r, 4)) c->mtotal += hit;
            if (c->exp > 0 && sim_below(&r, 2)) { c->exp += (int) sim_below(&r, 2000000); c->size += (double) sim_below(&r, 4000) / 7; }
        }
        if (sim_below(&r, 2)) { x->error *= 100; x->mset_size += 1000.0 / 3; x->aset_size += 1000.0 / 7; }
    }
    else if (op == "vary") { double lo, hi; input_range(lo, hi); op_vary(m, (u64) in_(o, "seed", 1), (int) in_(o, "k", 5), lo, hi); }
    else if (op == "sizes") { o_num("cond", clset_mean_cond_size(x, &x->pset)); o_num("pred", clset_mean_pred_size(x, &x->pset)); }
    else if (op == "nofault") { sim_n_dfaults = 0; sim_disk_faults_on = 0; sim_disk_chunk = 0; }
    else { out_raw("{\"badop\":" + jstr(op) + "}"); return false; }
    if (rp && (op == "predict" || op == "score" || op == "save" || op == "store" || op == "json" || op == "params" || op == "print") && in_(o, "rngcheck", 1) && rng_peek() != rp)
        viol(op == "store" ? "C10" : "C17", fmt("%s consumed random numbers", op.c_str()));
    if (sim_open_files != 0) { viol("C13", fmt("%d files are still open after %s", sim_open_files, op.c_str())); sim_open_files = 0; }
    if (sim_heap.bad_free) { viol("C13", fmt("memory freed twice in %s", op.c_str())); sim_heap.bad_free = 0; }
    if (x && m.inited) check_invariants(m, op.c_str());
    if (x && m.inited && chk.bnd && op != "vary") { double lo, hi; input_range(lo, hi); check_bounds(m, lo, hi); }
    if (x && m.inited && (chk.dig || in_(o, "dig", 0)) && op != "dig") out_fields += ",\"dig\":" + digs(digest(x));
    return true;
}
static void finish_proc(const char *how)
{
    S s = fmt("{\"end\":\"%s\",\"at\":%d,\"steps\":%llu,\"psteps\":%llu,\"regions\":%llu,\"multi\":%llu,\"switches\":%llu,\"preempts\":%llu,\"ihash\":", how, cur_op, (unsigned long long) sim_sched.steps, (unsigned long long) sim_sched.psteps, (unsigned long long) sim_sched.regions, (unsigned long long) sim_sched.multi_regions, (unsigned long long) sim_sched.switches, (unsigned long long) sim_sched.preempts) + hex(sim_sched.hash)
        + fmt(",\"shared\":%llu,\"clock_reads\":%lld,\"sim_s\":%lld,\"disk_ops\":%llu,\"disk_short\":%llu,\"fired\":[%llu,%llu,%llu,%llu],\"allocs\":%llu", (unsigned long long) sim_shared_accesses, (long long) sim_clock_reads, (long long) sim_clock_s, (unsigned long long) sim_disk_ops, (unsigned long long) sim_disk_short, (unsigned long long) sim_fault_fired[0], (unsigned long long) sim_fault_fired[1], (unsigned long long) sim_fault_fired[2], (unsigned long long) sim_fault_fired[3], (unsigned long long) sim_heap.n_alloc);
    s += ",\"races\":["; for (int i = 0; i < sim_n_races; ++i) { SimRace &r = sim_races[i]; s += fmt("%s[\"%p\",\"%p\",%d,%d,%d,%d]", i ? "," : "", r.pc1, r.pc2, r.w1, r.w2, r.t1, r.t2); } s += "]";
    s += ",\"n\":{"; bool f = true; for (auto &k : counters) { s += (f ? "" : ",") + jstr(k.first) + fmt(":%ld", k.second); f = false; } s += "}";
    if (sim_sched.log_on) { s += ",\"log\":["; for (int i = 0; i < sim_sched.n_log && i < 200000; ++i) s += fmt("%s[%llu,%d]", i ? "," : "", (unsigned long long) sim_sched.log[i].step, sim_sched.log[i].to); s += "]"; }
    out_raw(s + "}");
}
static void exit_hook(int code) { if (in_peek) _exit(1); S t = stdout_text(); out_raw(fmt("{\"exit\":%d,\"at\":%d,\"said\":", code, cur_op) + jstr(t.size() > 300 ? t.substr(t.size() - 300) : t) + "}"); finish_proc("exit"); _exit(0); }
static void budget_hook() { if (in_peek) _exit(1); finish_proc(sim_deadlock ? "deadlock" : "budget"); _exit(0); }
static void run_proc(const cJSON *p)
{
    const cJSON *h = g(p, "heap"); sim_heap.fill = (int) in_(h, "fill", FILL_ZERO); sim_heap.quarantine = (int) in_(h, "quarantine", 0); sim_heap.pad = (int) in_(h, "pad", 0); sim_heap.rng.s = (u64) in_(h, "seed", 1);
    sim_clock_s = (int64_t) num(p, "clock", 1500000000); sim_clock_step = (int64_t) num(p, "clock_step", 1); sim_entropy.s = (u64) in_(p, "entropy", 1);
    const cJSON *s = g(p, "sched"); sim_sched.mode = (int) in_(s, "mode", 0); sim_sched.rng.s = (u64) in_(s, "seed", 1); sim_sched.mean = (int) in_(s, "mean", 50); sim_sched.pct_d = (int) in_(s, "d", 3); sim_sched.team = (int) in_(s, "team", 0); sim_sched.team_random = (int) in_(s, "team_random", 0); sim_sched.log_on = (int) in_(s, "log", 0); sim_sched.race_on = (int) in_(s, "race", 0); sim_sched.hash = SIM_HASH0;
    u64 op_budget = (u64) num(p, "budget", 0);
    const cJSON *ex = g(s, "expl"); static std::vector<SimSwitch> sw; const cJSON *it; cJSON_ArrayForEach(it, ex) sw.push_back({ (u64) it->child->valuedouble, it->child->next->valueint }); sim_sched.expl = sw.data(); sim_sched.n_expl = (int) sw.size();
    const cJSON *c = g(p, "chk"); chk.inv = in_(c, "inv", 1); chk.ref = in_(c, "ref", 0); chk.dig = in_(c, "dig", 0); chk.rng = in_(c, "rng", 0); chk.bnd = in_(c, "bnd", 0);
    sim_disk_chunk = in_(p, "chunk", 0); sim_disk_rng.s = (u64) in_(p, "disk_seed", 1); disk_faults_from(g(p, "faults"));
    sim_exit_hook = exit_hook; sim_budget_hook = budget_hook; sim_threads_init();
    cJSON_Hooks hk = { sim_malloc, sim_free }; cJSON_InitHooks(&hk);
    const cJSON *o; int i = 0;
    cJSON_ArrayForEach(o, g(p, "ops")) {
        cur_op = i; u64 s0 = sim_sched.steps; sim_sched.budget = op_budget ? s0 + op_budget : 0;
        if (!run_op(o)) break;
        out_raw(fmt("{\"i\":%d,\"op\":", i) + jstr(str(o, "op")) + fmt(",\"st\":%llu", (unsigned long long) (sim_sched.steps - s0)) + out_fields + "}"); ++i;
    }
    finish_proc("done");
}

// Each case runs in a copy of a server that never changes, so that what it
// does depends on the case alone and not on the cases before it.
static void run_case(char *buf, int real_out, long cpu)
{
    S res; cJSON *cs = cJSON_Parse(buf);
    if (!cs) res = "{\"error\":\"bad case\"}";
    else {
        sim_disk_reset(); const cJSON *f;
        cJSON_ArrayForEach(f, g(cs, "files")) if (cJSON_IsString(f)) sim_disk_put(f->string, f->valuestring, strlen(f->valuestring));
        res = "["; const cJSON *p; bool firstp = true;
        cJSON_ArrayForEach(p, g(cs, "procs")) {
            *RLEN = 0; int so = memfd_create("out", 0), se = memfd_create("err", 0);
            pid_t pid = fork();
            if (pid == 0) {
                dup2(so, 1); dup2(se, 2); close(so); close(se); close(real_out); rlimit rl = { (rlim_t) cpu, (rlim_t) cpu + 5 }; setrlimit(RLIMIT_CPU, &rl); rlimit rc = { 0, 0 }; setrlimit(RLIMIT_CORE, &rc); alarm((unsigned) cpu * 3);
                setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
                run_proc(p); fflush(stdout); _exit(0);
            }
            int st = 0; waitpid(pid, &st, 0);
            S lines(RES, *RLEN), arr; size_t a = 0; while (a < lines.size()) { size_t e = lines.find('\n', a); if (e == S::npos) break; arr += (arr.empty() ? "" : ",") + lines.substr(a, e - a); a = e + 1; }
            if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) {
                off_t n = lseek(se, 0, SEEK_END); S t((size_t) (n > 6000 ? 6000 : (n > 0 ? n : 0)), 0); if (!t.empty() && pread(se, &t[0], t.size(), 0) < 0) t.clear();
                arr += (arr.empty() ? "" : ",") + fmt("{\"died\":%d,\"code\":%d,\"stderr\":", WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : 0) + jstr(t) + "}";
            }
            close(so); close(se); res += (firstp ? "[" : ",[") + arr + "]"; firstp = false;
        }
        res += "]";
    }
    res += "\n"; size_t k = 0; while (k < res.size()) { ssize_t n = write(real_out, res.data() + k, res.size() - k); if (n <= 0) _exit(1); k += (size_t) n; }
}
int main(int argc, char **argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("WORLD_REEXEC")) { personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE); setenv("WORLD_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    (void) argc;
    sim_disk_init();
    RES = (char *) mmap(0, RCAP + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); RLEN = (size_t *) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    const size_t CAP = 64u << 20; char *buf = (char *) mmap(0, CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    int real_out = dup(1); long cpu = getenv("WORLD_CPU") ? atol(getenv("WORLD_CPU")) : 120;
    for (;;) {
        size_t n = 0; bool eof = false;
        while (n == 0 || buf[n - 1] != '\n') { ssize_t k = read(0, buf + n, CAP - 1 - n); if (k <= 0) { eof = true; break; } n += (size_t) k; }
        if (eof) break;
        buf[n] = 0;
        pid_t pid = fork();
        if (pid == 0) { run_case(buf, real_out, cpu); _exit(0); }
        int st; waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) break;
    }
    return 0;
}
