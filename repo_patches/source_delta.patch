From 277d11b00cba357a4d8464e24825f285dfd891f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:39 +0000
Subject: [PATCH 01/63] fix: cover the requested action with rule_dgp and
 rule_neural

A covering rule must both match the input and advocate the missing action;
the loops stopped as soon as either was true.
---
 xcsf/rule_dgp.c    | 2 +-
 xcsf/rule_neural.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcsf/rule_dgp.c b/xcsf/rule_dgp.c
index e7b77d1..a350d49 100644
--- a/xcsf/rule_dgp.c
+++ b/xcsf/rule_dgp.c
@@ -221,7 +221,7 @@ rule_dgp_act_cover(const struct XCSF *xcsf, const struct Cl *c, const double *x,
     struct RuleDGP *cond = c->cond;
     do {
         graph_rand(&cond->dgp);
-    } while (!rule_dgp_cond_match(xcsf, c, x) &&
+    } while (!rule_dgp_cond_match(xcsf, c, x) ||
              rule_dgp_act_compute(xcsf, c, x) != action);
 }
 
diff --git a/xcsf/rule_neural.c b/xcsf/rule_neural.c
index 9618332..633177a 100644
--- a/xcsf/rule_neural.c
+++ b/xcsf/rule_neural.c
@@ -230,7 +230,7 @@ rule_neural_act_cover(const struct XCSF *xcsf, const struct Cl *c,
     const struct RuleNeural *cond = c->cond;
     do {
         neural_rand(&cond->net);
-    } while (!rule_neural_cond_match(xcsf, c, x) &&
+    } while (!rule_neural_cond_match(xcsf, c, x) ||
              rule_neural_act_compute(xcsf, c, x) != action);
 }
 
-- 
2.43.0


From 6a8bf512cfc8a7c14330027d68d5b4068a6e2070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:01 +0000
Subject: [PATCH 02/63] fix: restore the recurrent layer's outputs, deltas and
 sizes when loading

---
 xcsf/neural_layer_recurrent.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index abcf415..f32ba10 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -507,6 +507,7 @@ neural_layer_recurrent_save(const struct Layer *l, FILE *fp)
     s += layer_save(l->input_layer, fp);
     s += layer_save(l->self_layer, fp);
     s += layer_save(l->output_layer, fp);
+    s += fwrite(l->output, sizeof(double), l->n_outputs, fp);
     return s;
 }
 
@@ -538,5 +539,10 @@ neural_layer_recurrent_load(struct Layer *l, FILE *fp)
     s += layer_load(l->input_layer, fp);
     s += layer_load(l->self_layer, fp);
     s += layer_load(l->output_layer, fp);
+    l->output = l->output_layer->output;
+    l->delta = l->output_layer->delta;
+    s += fread(l->output, sizeof(double), l->n_outputs, fp);
+    set_layer_n_biases(l);
+    set_layer_n_weights(l);
     return s;
 }
-- 
2.43.0


From 4ac4ae696aa2b11fd0cf1753d5b03d5a703e5fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:01 +0000
Subject: [PATCH 03/63] fix: save and load the LSTM layer's activation
 functions

---
 xcsf/neural_layer_lstm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcsf/neural_layer_lstm.c b/xcsf/neural_layer_lstm.c
index 86f32c1..091727e 100644
--- a/xcsf/neural_layer_lstm.c
+++ b/xcsf/neural_layer_lstm.c
@@ -668,6 +668,8 @@ neural_layer_lstm_save(const struct Layer *l, FILE *fp)
     s += fwrite(&l->n_biases, sizeof(int), 1, fp);
     s += fwrite(&l->max_outputs, sizeof(int), 1, fp);
     s += fwrite(&l->n_active, sizeof(int), 1, fp);
+    s += fwrite(&l->function, sizeof(int), 1, fp);
+    s += fwrite(&l->recurrent_function, sizeof(int), 1, fp);
     s += fwrite(&l->eta, sizeof(double), 1, fp);
     s += fwrite(&l->eta_max, sizeof(double), 1, fp);
     s += fwrite(&l->momentum, sizeof(double), 1, fp);
@@ -715,6 +717,8 @@ neural_layer_lstm_load(struct Layer *l, FILE *fp)
     s += fread(&l->n_biases, sizeof(int), 1, fp);
     s += fread(&l->max_outputs, sizeof(int), 1, fp);
     s += fread(&l->n_active, sizeof(int), 1, fp);
+    s += fread(&l->function, sizeof(int), 1, fp);
+    s += fread(&l->recurrent_function, sizeof(int), 1, fp);
     s += fread(&l->eta, sizeof(double), 1, fp);
     s += fread(&l->eta_max, sizeof(double), 1, fp);
     s += fread(&l->momentum, sizeof(double), 1, fp);
-- 
2.43.0


From 39552baea1fe63a47235619fb16b21641b38b399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:10 +0000
Subject: [PATCH 04/63] fix: a seeded run no longer depends on a normal sample
 cached before seeding

---
 xcsf/param.c |  1 +
 xcsf/utils.c | 23 +++++++++++++++++------
 xcsf/utils.h |  3 +++
 xcsf/xcsf.c  |  1 +
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/xcsf/param.c b/xcsf/param.c
index 5c536b9..de0621f 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -209,6 +209,7 @@ param_json_import_general(struct XCSF *xcsf, const cJSON *json)
     } else if (strncmp(json->string, "random_state\0", 13) == 0 &&
                cJSON_IsNumber(json)) {
         catch_error(param_set_random_state(xcsf, json->valueint));
+        rand_normal_reset();
     } else if (strncmp(json->string, "population_file\0", 16) == 0 &&
                cJSON_IsString(json)) {
         catch_error(param_set_population_file(xcsf, json->valuestring));
diff --git a/xcsf/utils.c b/xcsf/utils.c
index 0293403..7a024b3 100644
--- a/xcsf/utils.c
+++ b/xcsf/utils.c
@@ -76,6 +76,18 @@ rand_uniform_int(const int min, const int max)
     return (int) floor(rand_uniform(min, max));
 }
 
+static double normal_next; //!< Second sample of the last Box-Muller pair
+static bool normal_cached; //!< Whether the second sample is yet to be used
+
+/**
+ * @brief Discards any Gaussian sample cached before the generator was seeded.
+ */
+void
+rand_normal_reset(void)
+{
+    normal_cached = false;
+}
+
 /**
  * @brief Returns a random Gaussian with specified mean and standard deviation.
  * @details Box-Muller transform.
@@ -87,16 +99,15 @@ double
 rand_normal(const double mu, const double sigma)
 {
     static const double two_pi = 2 * M_PI;
-    static double z1;
-    static bool generate;
-    generate = !generate;
-    if (!generate) {
-        return z1 * sigma + mu;
+    if (normal_cached) {
+        normal_cached = false;
+        return normal_next * sigma + mu;
     }
     const double u1 = dsfmt_gv_genrand_open_open();
     const double u2 = dsfmt_gv_genrand_open_open();
     const double z0 = sqrt(-2 * log(u1)) * cos(two_pi * u2);
-    z1 = sqrt(-2 * log(u1)) * sin(two_pi * u2);
+    normal_next = sqrt(-2 * log(u1)) * sin(two_pi * u2);
+    normal_cached = true;
     return z0 * sigma + mu;
 }
 
diff --git a/xcsf/utils.h b/xcsf/utils.h
index 2df6236..e5bd41d 100644
--- a/xcsf/utils.h
+++ b/xcsf/utils.h
@@ -31,6 +31,9 @@
 #include <stdio.h>
 #include <stdlib.h>
 
+void
+rand_normal_reset(void);
+
 double
 rand_normal(const double mu, const double sigma);
 
diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index 7873924..8c59cf8 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -42,6 +42,7 @@ xcsf_init(struct XCSF *xcsf)
     xcsf->aset_size = 0;
     xcsf->mfrac = 0;
     xcsf->explore = false;
+    rand_normal_reset();
     clset_init(&xcsf->pset);
     clset_init(&xcsf->prev_pset);
     pa_init(xcsf);
-- 
2.43.0


From 39a3644bbef03b52e325c77b175e06702d3661ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:21 +0000
Subject: [PATCH 05/63] fix: seed the random generator before importing the
 other parameters

---
 xcsf/param.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/xcsf/param.c b/xcsf/param.c
index de0621f..7e956e4 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -208,8 +208,7 @@ param_json_import_general(struct XCSF *xcsf, const cJSON *json)
         catch_error(param_set_omp_num_threads(xcsf, json->valueint));
     } else if (strncmp(json->string, "random_state\0", 13) == 0 &&
                cJSON_IsNumber(json)) {
-        catch_error(param_set_random_state(xcsf, json->valueint));
-        rand_normal_reset();
+        return true; // already set by param_json_import_seed()
     } else if (strncmp(json->string, "population_file\0", 16) == 0 &&
                cJSON_IsString(json)) {
         catch_error(param_set_population_file(xcsf, json->valuestring));
@@ -429,6 +428,23 @@ param_json_import_prediction(struct XCSF *xcsf, cJSON *json)
     }
 }
 
+/**
+ * @brief Seeds the random number generator if the parameters specify a seed.
+ * @details Performed before anything else is imported since other parameters
+ * may draw random numbers.
+ * @param [in,out] xcsf The XCSF data structure.
+ * @param [in] json cJSON object.
+ */
+static void
+param_json_import_seed(struct XCSF *xcsf, const cJSON *json)
+{
+    const cJSON *item = cJSON_GetObjectItemCaseSensitive(json, "random_state");
+    if (item != NULL && cJSON_IsNumber(item)) {
+        catch_error(param_set_random_state(xcsf, item->valueint));
+        rand_normal_reset();
+    }
+}
+
 /**
  * @brief Sets the parameters from a json formatted string.
  * @param [in,out] xcsf The XCSF data structure.
@@ -439,6 +455,7 @@ param_json_import(struct XCSF *xcsf, const char *json_str)
 {
     cJSON *json = cJSON_Parse(json_str);
     utils_json_parse_check(json);
+    param_json_import_seed(xcsf, json);
     for (cJSON *iter = json->child; iter != NULL; iter = iter->next) {
         if (param_json_import_general(xcsf, iter)) {
             continue;
-- 
2.43.0


From 55438b86f9d9ee81e1e723cdbcbb7a3067c96c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:54 +0000
Subject: [PATCH 06/63] fix: process rules in series when their networks draw
 random numbers

---
 xcsf/cl.c                | 15 +++++++++++++++
 xcsf/cl.h                |  3 +++
 xcsf/clset.c             |  4 ++--
 xcsf/neural_layer_args.c | 16 ++++++++++++++++
 xcsf/neural_layer_args.h |  3 +++
 xcsf/pa.c                |  2 +-
 6 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/xcsf/cl.c b/xcsf/cl.c
index 7fa9e44..164ebe0 100644
--- a/xcsf/cl.c
+++ b/xcsf/cl.c
@@ -293,6 +293,21 @@ cl_m(const struct XCSF *xcsf, const struct Cl *c)
     return c->m;
 }
 
+/**
+ * @brief Returns whether classifiers may be processed in parallel.
+ * @details The random number generator is shared and must be used in series.
+ * @param [in] xcsf The XCSF data structure.
+ * @return Whether processing classifiers never draws random numbers.
+ */
+bool
+cl_parallel(const struct XCSF *xcsf)
+{
+    return !xcsf->explore ||
+        (!layer_args_stochastic(xcsf->cond->largs) &&
+         !layer_args_stochastic(xcsf->act->largs) &&
+         !layer_args_stochastic(xcsf->pred->largs));
+}
+
 /**
  * @brief Computes the current classifier action using the input.
  * @param [in] xcsf The XCSF data structure.
diff --git a/xcsf/cl.h b/xcsf/cl.h
index 51ed24f..334ba39 100644
--- a/xcsf/cl.h
+++ b/xcsf/cl.h
@@ -55,6 +55,9 @@ cl_del_vote(const struct XCSF *xcsf, const struct Cl *c, const double avg_fit);
 double
 cl_mfrac(const struct XCSF *xcsf, const struct Cl *c);
 
+bool
+cl_parallel(const struct XCSF *xcsf);
+
 int
 cl_action(const struct XCSF *xcsf, struct Cl *c, const double *x);
 
diff --git a/xcsf/clset.c b/xcsf/clset.c
index fb03cf0..2371ecc 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -364,7 +364,7 @@ clset_match(struct XCSF *xcsf, const double *x, const bool cover)
         iter = iter->next;
     }
     // process conditions and actions setting m flags in parallel
-    #pragma omp parallel for
+    #pragma omp parallel for if (cl_parallel(xcsf))
     for (int i = 0; i < xcsf->pset.size; ++i) {
         cl_match(xcsf, blist[i]->cl, x);
         cl_action(xcsf, blist[i]->cl, x);
@@ -455,7 +455,7 @@ clset_update(struct XCSF *xcsf, struct Set *set, const double *x,
         blist[i] = iter;
         iter = iter->next;
     }
-    #pragma omp parallel for
+    #pragma omp parallel for if (cl_parallel(xcsf))
     for (int i = 0; i < set->size; ++i) {
         cl_update(xcsf, blist[i]->cl, x, y, set->num, cur);
     }
diff --git a/xcsf/neural_layer_args.c b/xcsf/neural_layer_args.c
index 7af0d20..36fc031 100644
--- a/xcsf/neural_layer_args.c
+++ b/xcsf/neural_layer_args.c
@@ -579,6 +579,22 @@ layer_args_length(const struct ArgsLayer *args)
     return n;
 }
 
+/**
+ * @brief Returns whether any layer draws random numbers when propagating.
+ * @param [in] args List of layer parameters.
+ * @return Whether the network contains a dropout or noise layer.
+ */
+bool
+layer_args_stochastic(const struct ArgsLayer *args)
+{
+    for (; args != NULL; args = args->next) {
+        if (args->type == DROPOUT || args->type == NOISE) {
+            return true;
+        }
+    }
+    return false;
+}
+
 /**
  * @brief Saves neural network layer parameters.
  * @param [in] args Layer initialisation parameters.
diff --git a/xcsf/neural_layer_args.h b/xcsf/neural_layer_args.h
index 63a3c2b..37a5ab6 100644
--- a/xcsf/neural_layer_args.h
+++ b/xcsf/neural_layer_args.h
@@ -81,6 +81,9 @@ layer_args_validate(struct ArgsLayer *args);
 uint32_t
 layer_args_opt(const struct ArgsLayer *args);
 
+bool
+layer_args_stochastic(const struct ArgsLayer *args);
+
 size_t
 layer_args_save(const struct ArgsLayer *args, FILE *fp);
 
diff --git a/xcsf/pa.c b/xcsf/pa.c
index a465746..3d20bb2 100644
--- a/xcsf/pa.c
+++ b/xcsf/pa.c
@@ -76,7 +76,7 @@ pa_build(const struct XCSF *xcsf, const double *x)
             iter = iter->next;
         }
     }
-    #pragma omp parallel for
+    #pragma omp parallel for if (cl_parallel(xcsf))
     for (int i = 0; i < set->size; ++i) {
         if (clist[i] != NULL) {
             cl_predict(xcsf, clist[i], x);
-- 
2.43.0


From d80eba1a962921fc322edcc1b40aa972ecc79e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:13 +0000
Subject: [PATCH 07/63] fix: report incomplete writes when saving and
 incomplete reads when loading

---
 xcsf/clset.c |  2 +-
 xcsf/xcsf.c  | 22 +++++++++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index 2371ecc..2f7f362 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -654,7 +654,7 @@ clset_pset_load(struct XCSF *xcsf, FILE *fp)
     s += fread(&size, sizeof(int), 1, fp);
     s += fread(&num, sizeof(int), 1, fp);
     clset_init(&xcsf->pset);
-    for (int i = 0; i < size; ++i) {
+    for (int i = 0; i < size && !feof(fp) && !ferror(fp); ++i) {
         struct Cl *c = malloc(sizeof(struct Cl));
         s += cl_load(xcsf, c, fp);
         clset_add(&xcsf->pset, c);
diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index 8c59cf8..a711e81 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -101,10 +101,28 @@ xcsf_save(const struct XCSF *xcsf, const char *filename)
     s += fwrite(&VERSION_BUILD, sizeof(int), 1, fp);
     s += param_save(xcsf, fp);
     s += clset_pset_save(xcsf, fp);
-    fclose(fp);
+    const bool failed = ferror(fp) != 0;
+    if (fclose(fp) != 0 || failed) {
+        printf("Error saving file: %s. Incomplete write.\n", filename);
+        exit(EXIT_FAILURE);
+    }
     return s;
 }
 
+/**
+ * @brief Exits if a file being loaded ended early or could not be read.
+ * @param [in] filename The name of the input file.
+ * @param [in] fp Pointer to the input file.
+ */
+static void
+xcsf_load_check(const char *filename, FILE *fp)
+{
+    if (feof(fp) || ferror(fp)) {
+        printf("Error loading file: %s. Incomplete read.\n", filename);
+        exit(EXIT_FAILURE);
+    }
+}
+
 /**
  * @brief Reads the state of XCSF from a file.
  * @param [in] xcsf The XCSF data structure.
@@ -138,7 +156,9 @@ xcsf_load(struct XCSF *xcsf, const char *filename)
         exit(EXIT_FAILURE);
     }
     s += param_load(xcsf, fp);
+    xcsf_load_check(filename, fp);
     s += clset_pset_load(xcsf, fp);
+    xcsf_load_check(filename, fp);
     fclose(fp);
     return s;
 }
-- 
2.43.0


From b3564c5bf4919c1fe79ecf05b79177607e1c65f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:31 +0000
Subject: [PATCH 08/63] fix: copy the cover values instead of keeping the
 caller's array

---
 xcsf/pybind_wrapper.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index d90636a..131055b 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -545,14 +545,14 @@ class XCS
         const py::buffer_info buf_c = cover.request();
         if (buf_c.ndim != 1) {
             std::ostringstream err;
-            err << "cover must be an array of shape (1, " << xcs.y_dim << ")"
+            err << "cover must be an array of shape (1, " << xcs.pa_size << ")"
                 << std::endl;
             throw std::invalid_argument(err.str());
         }
-        if (buf_c.shape[0] != xcs.y_dim) {
+        if (buf_c.shape[0] != xcs.pa_size) {
             std::ostringstream err;
             err << "cover length = " << buf_c.shape[0] << " but expected "
-                << xcs.y_dim << std::endl;
+                << xcs.pa_size << std::endl;
             throw std::invalid_argument(err.str());
         }
         return reinterpret_cast<double *>(buf_c.ptr);
@@ -569,7 +569,8 @@ class XCS
             memset(xcs.cover, 0, sizeof(double) * xcs.pa_size);
         } else {
             py::array_t<double> cover_arr = cover.cast<py::array_t<double>>();
-            xcs.cover = get_cover(cover_arr);
+            memcpy(xcs.cover, get_cover(cover_arr),
+                   sizeof(double) * xcs.pa_size);
         }
     }
 
-- 
2.43.0


From 21febd3b4296755329590eb8b522f54036e3728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:40 +0000
Subject: [PATCH 09/63] fix: resize the prediction array when loading a model
 of other dimensions

---
 xcsf/xcsf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index a711e81..b62be32 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -157,6 +157,8 @@ xcsf_load(struct XCSF *xcsf, const char *filename)
     }
     s += param_load(xcsf, fp);
     xcsf_load_check(filename, fp);
+    pa_free(xcsf); // the dimensions may have changed
+    pa_init(xcsf);
     s += clset_pset_load(xcsf, fp);
     xcsf_load_check(filename, fp);
     fclose(fp);
-- 
2.43.0


From e66903ebd8afc9cd023bcd68c2a96d4531cf98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:58 +0000
Subject: [PATCH 10/63] fix: make room for the tree constants of a loaded model

---
 xcsf/gp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/gp.c b/xcsf/gp.c
index e558a49..456aba3 100644
--- a/xcsf/gp.c
+++ b/xcsf/gp.c
@@ -527,6 +527,8 @@ tree_args_load(struct ArgsGPTree *args, FILE *fp)
     s += fread(&args->n_constants, sizeof(int), 1, fp);
     s += fread(&args->init_depth, sizeof(int), 1, fp);
     s += fread(&args->max_len, sizeof(int), 1, fp);
+    free(args->constants);
+    args->constants = malloc(sizeof(double) * args->n_constants);
     s += fread(args->constants, sizeof(double), args->n_constants, fp);
     return s;
 }
-- 
2.43.0


From c00025e79a6bfda80217ccb24babf855e7aeb0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:16 +0000
Subject: [PATCH 11/63] fix: draw the default tree constants from the seeded
 generator

---
 xcsf/param.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcsf/param.c b/xcsf/param.c
index 7e956e4..2cfc21c 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -25,6 +25,7 @@
 #include "action.h"
 #include "condition.h"
 #include "ea.h"
+#include "gp.h"
 #include "prediction.h"
 #include "utils.h"
 
@@ -395,6 +396,9 @@ param_json_import_condition(struct XCSF *xcsf, cJSON *json)
             printf("Invalid condition parameter %s\n", ret);
             exit(EXIT_FAILURE);
         }
+    } else if (xcsf->cond->type == COND_TYPE_GP) {
+        // defaults: draw the constants now that the generator is seeded
+        tree_args_init_constants(xcsf->cond->targs);
     }
 }
 
-- 
2.43.0


From 124b1dc87e539f8094c9a11ea26613ab531de479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:02 +0000
Subject: [PATCH 12/63] fix: dropout passes errors back unmasked when not
 training

---
 xcsf/neural_layer_dropout.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xcsf/neural_layer_dropout.c b/xcsf/neural_layer_dropout.c
index 79755c0..29033a8 100644
--- a/xcsf/neural_layer_dropout.c
+++ b/xcsf/neural_layer_dropout.c
@@ -152,11 +152,12 @@ void
 neural_layer_dropout_backward(const struct Layer *l, const struct Net *net,
                               const double *input, double *delta)
 {
-    (void) net;
     (void) input;
     if (delta) {
         for (int i = 0; i < l->n_inputs; ++i) {
-            if (l->state[i] < l->probability) {
+            if (!net->train) {
+                delta[i] += l->delta[i];
+            } else if (l->state[i] < l->probability) {
                 delta[i] = 0;
             } else {
                 delta[i] += l->delta[i] * l->scale;
-- 
2.43.0


From 6a2a94e6ea3c82e91ba8c4f8cdd2cf118fb1071b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:04 +0000
Subject: [PATCH 13/63] fix: stop reading networks when a loaded file fails

---
 xcsf/neural.c            | 2 +-
 xcsf/neural_layer_args.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcsf/neural.c b/xcsf/neural.c
index d345b6e..1993919 100644
--- a/xcsf/neural.c
+++ b/xcsf/neural.c
@@ -506,7 +506,7 @@ neural_load(struct Net *net, FILE *fp)
     s += fread(&ninputs, sizeof(int), 1, fp);
     s += fread(&noutputs, sizeof(int), 1, fp);
     neural_init(net);
-    for (int i = 0; i < nlayers; ++i) {
+    for (int i = 0; i < nlayers && !feof(fp) && !ferror(fp); ++i) {
         struct Layer *l = malloc(sizeof(struct Layer));
         s += layer_load(l, fp);
         neural_push(net, l);
diff --git a/xcsf/neural_layer_args.c b/xcsf/neural_layer_args.c
index 36fc031..f9ffaf7 100644
--- a/xcsf/neural_layer_args.c
+++ b/xcsf/neural_layer_args.c
@@ -652,7 +652,7 @@ layer_args_load(struct ArgsLayer **largs, FILE *fp)
     size_t s = 0;
     int n = 0;
     s += fread(&n, sizeof(int), 1, fp);
-    for (int i = 0; i < n; ++i) {
+    for (int i = 0; i < n && !feof(fp) && !ferror(fp); ++i) {
         struct ArgsLayer *arg = malloc(sizeof(struct ArgsLayer));
         layer_args_init(arg);
         s += fread(&arg->type, sizeof(int), 1, fp);
-- 
2.43.0


From 1bf47d47bf76b9a14124fd9a98709a53ca8ec817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:22 +0000
Subject: [PATCH 14/63] fix: clear the state of neurons added to a recurrent
 layer

---
 xcsf/neural_layer_recurrent.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index f32ba10..24ef4cb 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -165,6 +165,10 @@ mutate_neurons(struct Layer *l)
             l->output = l->output_layer->output;
             l->delta = l->output_layer->delta;
             realloc_layer_arrays(l);
+            for (int i = l->n_outputs - n; i < l->n_outputs; ++i) {
+                l->state[i] = 0;
+                l->prev_state[i] = 0;
+            }
             set_layer_n_weights(l);
             set_layer_n_biases(l);
             set_layer_n_active(l);
-- 
2.43.0


From ab7c21f2bd5550ac0d782bf54413bf1f0b8fd6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:32 +0000
Subject: [PATCH 15/63] fix: a stored population keeps the order of its rules

---
 xcsf/clset.c | 14 +++++++-------
 xcsf/clset.h |  3 +++
 xcsf/xcsf.c  |  1 +
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index 2f7f362..7d6818c 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -621,13 +621,13 @@ clset_pset_save(const struct XCSF *xcsf, FILE *fp)
 }
 
 /**
- * @brief Reverses the order of the population classifier list.
- * @param [in] xcsf The XCSF data structure.
+ * @brief Reverses the order of a classifier list.
+ * @param [in] set The set to reverse.
  */
-static void
-clset_pset_reverse(struct XCSF *xcsf)
+void
+clset_reverse(struct Set *set)
 {
-    struct Clist *current = xcsf->pset.list;
+    struct Clist *current = set->list;
     struct Clist *prev = NULL;
     struct Clist *next = NULL;
     while (current != NULL) {
@@ -636,7 +636,7 @@ clset_pset_reverse(struct XCSF *xcsf)
         prev = current;
         current = next;
     }
-    xcsf->pset.list = prev;
+    set->list = prev;
 }
 
 /**
@@ -659,7 +659,7 @@ clset_pset_load(struct XCSF *xcsf, FILE *fp)
         s += cl_load(xcsf, c, fp);
         clset_add(&xcsf->pset, c);
     }
-    clset_pset_reverse(xcsf); // reverse population list for consistency
+    clset_reverse(&xcsf->pset); // reverse population list for consistency
     return s;
 }
 
diff --git a/xcsf/clset.h b/xcsf/clset.h
index dc2ff32..f9647ea 100644
--- a/xcsf/clset.h
+++ b/xcsf/clset.h
@@ -70,6 +70,9 @@ clset_pset_enforce_limit(struct XCSF *xcsf);
 void
 clset_pset_init(struct XCSF *xcsf);
 
+void
+clset_reverse(struct Set *set);
+
 void
 clset_print(const struct XCSF *xcsf, const struct Set *set,
             const bool print_cond, const bool print_act, const bool print_pred);
diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index b62be32..05c491e 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -226,6 +226,7 @@ xcsf_store_pset(struct XCSF *xcsf)
         clset_add(&xcsf->prev_pset, new);
         iter = iter->next;
     }
+    clset_reverse(&xcsf->prev_pset); // same order as the population
 }
 
 /**
-- 
2.43.0


From 559c40f73ffdc9e7cae426a858cbf12a029933bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:23 +0000
Subject: [PATCH 16/63] fix: a stored rule keeps its current prediction

---
 xcsf/cl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcsf/cl.c b/xcsf/cl.c
index 164ebe0..d1f149b 100644
--- a/xcsf/cl.c
+++ b/xcsf/cl.c
@@ -83,7 +83,8 @@ cl_copy(const struct XCSF *xcsf, struct Cl *dest, const struct Cl *src)
 void
 cl_init_copy(const struct XCSF *xcsf, struct Cl *dest, const struct Cl *src)
 {
-    dest->prediction = calloc(xcsf->y_dim, sizeof(double));
+    dest->prediction = malloc(sizeof(double) * xcsf->y_dim);
+    memcpy(dest->prediction, src->prediction, sizeof(double) * xcsf->y_dim);
     dest->fit = src->fit;
     dest->err = src->err;
     dest->num = src->num;
-- 
2.43.0


From 634e1c082ebdcabdc008238a7c6cf15b3216a99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:57 +0000
Subject: [PATCH 17/63] fix: storing the population leaves the random generator
 alone

---
 xcsf/xcsf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index 05c491e..0d9da59 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -218,6 +218,7 @@ void
 xcsf_store_pset(struct XCSF *xcsf)
 {
     clset_kill(xcsf, &xcsf->prev_pset);
+    const dsfmt_t rng = dsfmt_global_data; // copying rules draws numbers
     const struct Clist *iter = xcsf->pset.list;
     while (iter != NULL) {
         struct Cl *new = malloc(sizeof(struct Cl));
@@ -227,6 +228,7 @@ xcsf_store_pset(struct XCSF *xcsf)
         iter = iter->next;
     }
     clset_reverse(&xcsf->prev_pset); // same order as the population
+    dsfmt_global_data = rng;
 }
 
 /**
-- 
2.43.0


From 1c8a4d5d3f6fec08fb7727d1f2b564735d697373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:40 +0000
Subject: [PATCH 18/63] fix: copying recurrent and LSTM layers keeps their
 memory

---
 xcsf/neural_layer_lstm.c      | 2 ++
 xcsf/neural_layer_recurrent.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/xcsf/neural_layer_lstm.c b/xcsf/neural_layer_lstm.c
index 091727e..10413c5 100644
--- a/xcsf/neural_layer_lstm.c
+++ b/xcsf/neural_layer_lstm.c
@@ -362,6 +362,8 @@ neural_layer_lstm_copy(const struct Layer *src)
     malloc_layer_arrays(l);
     l->mu = malloc(sizeof(double) * N_MU);
     memcpy(l->mu, src->mu, sizeof(double) * N_MU);
+    memcpy(l->c, src->c, sizeof(double) * src->n_outputs);
+    memcpy(l->h, src->h, sizeof(double) * src->n_outputs);
     return l;
 }
 
diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index 24ef4cb..7b8ebc7 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -312,6 +312,8 @@ neural_layer_recurrent_copy(const struct Layer *src)
     malloc_layer_arrays(l);
     memcpy(l->mu, src->mu, sizeof(double) * N_MU);
     memcpy(l->prev_state, src->prev_state, sizeof(double) * src->n_outputs);
+    memcpy(l->state, src->state, sizeof(double) * src->n_outputs);
+    memcpy(l->output, src->output, sizeof(double) * src->n_outputs);
     return l;
 }
 
-- 
2.43.0


From a8c5829cc49c12c3c251439a2c196a560e5aad64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:53 +0000
Subject: [PATCH 19/63] fix: save no uninitialised memory with GP trees

---
 xcsf/gp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/gp.c b/xcsf/gp.c
index 456aba3..821167b 100644
--- a/xcsf/gp.c
+++ b/xcsf/gp.c
@@ -103,6 +103,7 @@ tree_rand(struct GPTree *gp, const struct ArgsGPTree *args)
 {
     gp->tree = malloc(sizeof(int) * args->max_len);
     gp->len = 0;
+    gp->pos = 0;
     while (gp->len < 1) {
         gp->len = tree_grow(args, gp->tree, 0, args->max_len, args->init_depth);
     }
-- 
2.43.0


From 740395df1a6d54aabc3ffb698507dee298317632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:23 +0000
Subject: [PATCH 20/63] fix: exporting network parameters leaves the random
 generator alone

---
 xcsf/neural_layer_args.c |  2 ++
 xcsf/utils.c             | 24 ++++++++++++++++++++++++
 xcsf/utils.h             | 15 +++++++++++++++
 3 files changed, 41 insertions(+)

diff --git a/xcsf/neural_layer_args.c b/xcsf/neural_layer_args.c
index f9ffaf7..416b454 100644
--- a/xcsf/neural_layer_args.c
+++ b/xcsf/neural_layer_args.c
@@ -376,10 +376,12 @@ layer_args_json_import_scale(struct ArgsLayer *args, const cJSON *json)
 char *
 layer_args_json_export(struct ArgsLayer *args)
 {
+    const struct RandState rng = rand_get_state();
     struct Net net; // create a temporary network to parse inputs
     neural_init(&net);
     neural_create(&net, args);
     neural_free(&net);
+    rand_set_state(&rng);
     cJSON *json = cJSON_CreateObject();
     int cnt = 0;
     for (const struct ArgsLayer *a = args; a != NULL; a = a->next) {
diff --git a/xcsf/utils.c b/xcsf/utils.c
index 7a024b3..2c5f40c 100644
--- a/xcsf/utils.c
+++ b/xcsf/utils.c
@@ -88,6 +88,30 @@ rand_normal_reset(void)
     normal_cached = false;
 }
 
+/**
+ * @brief Returns the state of the pseudo-random number generator.
+ * @return The state, to be given to rand_set_state().
+ */
+struct RandState
+rand_get_state(void)
+{
+    const struct RandState s = { dsfmt_global_data, normal_next,
+                                 normal_cached };
+    return s;
+}
+
+/**
+ * @brief Restores the state of the pseudo-random number generator.
+ * @param [in] s A state returned by rand_get_state().
+ */
+void
+rand_set_state(const struct RandState *s)
+{
+    dsfmt_global_data = s->dsfmt;
+    normal_next = s->normal_next;
+    normal_cached = s->normal_cached;
+}
+
 /**
  * @brief Returns a random Gaussian with specified mean and standard deviation.
  * @details Box-Muller transform.
diff --git a/xcsf/utils.h b/xcsf/utils.h
index e5bd41d..546df8f 100644
--- a/xcsf/utils.h
+++ b/xcsf/utils.h
@@ -31,6 +31,21 @@
 #include <stdio.h>
 #include <stdlib.h>
 
+/**
+ * @brief State of the pseudo-random number generator.
+ */
+struct RandState {
+    dsfmt_t dsfmt; //!< Uniform generator
+    double normal_next; //!< Second sample of the last Box-Muller pair
+    bool normal_cached; //!< Whether the second sample is yet to be used
+};
+
+struct RandState
+rand_get_state(void);
+
+void
+rand_set_state(const struct RandState *s);
+
 void
 rand_normal_reset(void);
 
-- 
2.43.0


From ad4107be5b6f088623b3a0ee2ffea7192ac9ad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:32 +0000
Subject: [PATCH 21/63] fix: inserting an empty population from JSON

---
 xcsf/clset.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index 7d6818c..cec628a 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -797,7 +797,8 @@ clset_json_insert(struct XCSF *xcsf, const char *json_str)
 {
     cJSON *json = cJSON_Parse(json_str);
     utils_json_parse_check(json);
-    if (json->child != NULL && cJSON_IsArray(json->child)) {
+    if (json->child != NULL && cJSON_IsArray(json->child) &&
+        json->child->child != NULL) {
         cJSON *tail = json->child->child; // insert inverted for consistency
         tail->prev = NULL; // this should have been set by cJSON!
         while (tail->next != NULL) {
-- 
2.43.0


From 45541578b2a79e03192c791eb5632ee241bb7f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:18 +0000
Subject: [PATCH 22/63] fix: insert a layer at the input end of a network

---
 xcsf/neural.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/neural.c b/xcsf/neural.c
index 1993919..b9d9030 100644
--- a/xcsf/neural.c
+++ b/xcsf/neural.c
@@ -120,7 +120,7 @@ neural_insert(struct Net *net, struct Layer *l, const int pos)
         } else {
             new->next = iter->next;
             iter->next = new;
-            if (iter->next == NULL) { // new tail
+            if (new->next == NULL) { // new tail
                 net->tail = new;
                 net->n_inputs = l->n_inputs;
             } else { // middle
-- 
2.43.0


From 2737f471417962c5ac1b38de13755fab03fc80af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:57 +0000
Subject: [PATCH 23/63] fix: copy the generator's state through a pointer

---
 xcsf/neural_layer_args.c |  3 ++-
 xcsf/utils.c             | 16 ++++++++--------
 xcsf/utils.h             |  4 ++--
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/xcsf/neural_layer_args.c b/xcsf/neural_layer_args.c
index 416b454..92cb3c7 100644
--- a/xcsf/neural_layer_args.c
+++ b/xcsf/neural_layer_args.c
@@ -376,7 +376,8 @@ layer_args_json_import_scale(struct ArgsLayer *args, const cJSON *json)
 char *
 layer_args_json_export(struct ArgsLayer *args)
 {
-    const struct RandState rng = rand_get_state();
+    struct RandState rng;
+    rand_get_state(&rng);
     struct Net net; // create a temporary network to parse inputs
     neural_init(&net);
     neural_create(&net, args);
diff --git a/xcsf/utils.c b/xcsf/utils.c
index 2c5f40c..2736df6 100644
--- a/xcsf/utils.c
+++ b/xcsf/utils.c
@@ -89,20 +89,20 @@ rand_normal_reset(void)
 }
 
 /**
- * @brief Returns the state of the pseudo-random number generator.
- * @return The state, to be given to rand_set_state().
+ * @brief Copies the state of the pseudo-random number generator.
+ * @param [out] s The state, to be given to rand_set_state().
  */
-struct RandState
-rand_get_state(void)
+void
+rand_get_state(struct RandState *s)
 {
-    const struct RandState s = { dsfmt_global_data, normal_next,
-                                 normal_cached };
-    return s;
+    s->dsfmt = dsfmt_global_data;
+    s->normal_next = normal_next;
+    s->normal_cached = normal_cached;
 }
 
 /**
  * @brief Restores the state of the pseudo-random number generator.
- * @param [in] s A state returned by rand_get_state().
+ * @param [in] s A state copied by rand_get_state().
  */
 void
 rand_set_state(const struct RandState *s)
diff --git a/xcsf/utils.h b/xcsf/utils.h
index 546df8f..e27c99c 100644
--- a/xcsf/utils.h
+++ b/xcsf/utils.h
@@ -40,8 +40,8 @@ struct RandState {
     bool normal_cached; //!< Whether the second sample is yet to be used
 };
 
-struct RandState
-rand_get_state(void);
+void
+rand_get_state(struct RandState *s);
 
 void
 rand_set_state(const struct RandState *s);
-- 
2.43.0


From 8af4bf3ea8d7b336809543df2d3eb7df5466beda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:07 +0000
Subject: [PATCH 24/63] fix: declare layer_args_stochastic() where it is called

---
 xcsf/cl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/cl.c b/xcsf/cl.c
index d1f149b..1af3406 100644
--- a/xcsf/cl.c
+++ b/xcsf/cl.c
@@ -26,6 +26,7 @@
 #include "condition.h"
 #include "ea.h"
 #include "loss.h"
+#include "neural_layer_args.h"
 #include "prediction.h"
 #include "utils.h"
 
-- 
2.43.0


From d1655fa10f82a844ee9c0d849617e150d76545bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:57 +0000
Subject: [PATCH 25/63] fix: a fully-connected layer's width follows its number
 of neurons

---
 xcsf/neural_layer_connected.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xcsf/neural_layer_connected.c b/xcsf/neural_layer_connected.c
index 07b9f36..eeaf8b9 100644
--- a/xcsf/neural_layer_connected.c
+++ b/xcsf/neural_layer_connected.c
@@ -300,6 +300,7 @@ neural_layer_connected_mutate(struct Layer *l)
         const int n = layer_mutate_neurons(l, l->mu[1]);
         if (n != 0) {
             layer_add_neurons(l, n);
+            l->out_w = l->n_outputs;
             mod = true;
         }
     }
-- 
2.43.0


From 3dc7b0202001a039cfb18c089e4fe39a1e7f20cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:29 +0000
Subject: [PATCH 26/63] fix: refuse csv files that are unreadable, irregular or
 inconsistent

---
 xcsf/env_csv.c | 155 ++++++++++++++++++++++++++-----------------------
 1 file changed, 83 insertions(+), 72 deletions(-)

diff --git a/xcsf/env_csv.c b/xcsf/env_csv.c
index 166bf42..3e8ac2e 100644
--- a/xcsf/env_csv.c
+++ b/xcsf/env_csv.c
@@ -24,83 +24,56 @@
 #include "env_csv.h"
 #include "param.h"
 
-#define MAX_ROWS (100000) //!< Maximum number of instances
-#define MAX_COLS (200) //!< Maximum line length
+#define MAX_LINE (1000000) //!< Maximum line length
 #define MAX_NAME (200) //!< Maximum file name length
-#define DELIM (",") //!< File delimiter
+#define DELIM (',') //!< File delimiter
+#define SPACE (" \t\r\n") //!< Blanks that may follow a value
 
 /**
- * @brief Returns the number of samples in a csv file.
- * @param [in] fin The csv file.
- * @return The number of samples.
+ * @brief Reports an unusable csv file and exits.
+ * @param [in] filename The name of the csv file.
+ * @param [in] reason What is wrong with the file.
  */
-static int
-env_csv_samples(FILE *fin)
+static void
+env_csv_error(const char *filename, const char *reason)
 {
-    int n_samples = 0;
-    char line[MAX_COLS];
-    while (fgets(line, MAX_COLS, fin) != NULL) {
-        ++n_samples;
-    }
-    return n_samples;
+    printf("Error reading file: %s. %s\n", filename, reason);
+    exit(EXIT_FAILURE);
 }
 
 /**
- * @brief Returns the number of dimensions in a csv file.
- * @param [in] fin The csv file.
- * @return The number of dimensions.
+ * @brief Parses a line of a csv file.
+ * @param [in] line The line to parse.
+ * @param [out] row The values in the line.
+ * @return The number of values, or -1 if the line holds anything else.
  */
 static int
-env_csv_dim(FILE *fin)
+env_csv_parse(const char *line, double *row)
 {
-    rewind(fin);
-    int n_dim = 0;
-    char line[MAX_COLS];
-    char *saveptr = NULL;
-    if (fgets(line, MAX_COLS, fin) != NULL) {
-        const char *ptok = strtok_r(line, DELIM, &saveptr);
-        while (ptok != NULL) {
-            if (strnlen(ptok, MAX_COLS) > 0) {
-                ++n_dim;
-            }
-            ptok = strtok_r(NULL, DELIM, &saveptr);
+    int n = 0;
+    const char *ptr = line;
+    for (;;) {
+        char *endptr = NULL;
+        row[n] = strtod(ptr, &endptr);
+        if (endptr == ptr) {
+            return -1;
         }
-    }
-    return n_dim;
-}
-
-/**
- * @brief Reads the data from a csv file.
- * @param [in] fin The csv file.
- * @param [out] data The read data.
- * @param [in] n_samples The number of samples.
- * @param [in] n_dim The number of dimensions.
- */
-static void
-env_csv_read_data(FILE *fin, double **data, const int n_samples,
-                  const int n_dim)
-{
-    rewind(fin);
-    *data = malloc(sizeof(double) * n_dim * n_samples);
-    char line[MAX_COLS];
-    const char *str = NULL;
-    char *saveptr = NULL;
-    char *endptr = NULL;
-    int i = 0;
-    while (fgets(line, MAX_COLS, fin) != NULL && i < n_samples) {
-        str = strtok_r(line, DELIM, &saveptr);
-        (*data)[i * n_dim] = strtod(str, &endptr);
-        for (int j = 1; j < n_dim; ++j) {
-            str = strtok_r(NULL, DELIM, &saveptr);
-            (*data)[i * n_dim + j] = strtod(str, &endptr);
+        ++n;
+        endptr += strspn(endptr, SPACE);
+        if (*endptr == '\0') {
+            return n;
+        }
+        if (*endptr != DELIM) {
+            return -1;
         }
-        ++i;
+        ptr = endptr + 1;
     }
 }
 
 /**
  * @brief Parses a specified csv file.
- * @details Provided a file name will set the data, n_samples, and n_dim.
+ * @details Provided a file name will set the data, n_samples, and n_dim. Exits
+ * if the file cannot be read completely or the rows differ in length.
  * @param [in] filename The name of the csv file to read.
  * @param [out] data A data structure to store the data.
  * @param [out] n_samples The number of samples in the dataset.
@@ -114,22 +87,47 @@ env_csv_read(const char *filename, double **data, int *n_samples, int *n_dim)
         printf("Error opening file: %s. %s.\n", filename, strerror(errno));
         exit(EXIT_FAILURE);
     }
-    *n_samples = env_csv_samples(fin);
-    *n_dim = env_csv_dim(fin);
-    if (*n_samples > 0 && *n_dim > 0) {
-        env_csv_read_data(fin, data, *n_samples, *n_dim);
-        fclose(fin);
-    } else {
-        printf("Error reading file: %s. No samples found\n", filename);
-        fclose(fin);
-        exit(EXIT_FAILURE);
+    char *line = malloc(sizeof(char) * MAX_LINE);
+    double *row = malloc(sizeof(double) * MAX_LINE);
+    int max_samples = 0;
+    *data = NULL;
+    *n_samples = 0;
+    *n_dim = 0;
+    while (fgets(line, MAX_LINE, fin) != NULL) {
+        if (strchr(line, '\n') == NULL && !feof(fin)) {
+            env_csv_error(filename, "Line too long");
+        }
+        const int n = env_csv_parse(line, row);
+        if (n < 1) {
+            env_csv_error(filename, "A value is not a number");
+        }
+        if (*n_samples > 0 && n != *n_dim) {
+            env_csv_error(filename, "Rows differ in length");
+        }
+        *n_dim = n;
+        if (*n_samples == max_samples) {
+            max_samples = 2 * max_samples + 1;
+            *data = realloc(*data, sizeof(double) * n * max_samples);
+        }
+        memcpy(&(*data)[*n_samples * n], row, sizeof(double) * n);
+        ++(*n_samples);
+    }
+    if (ferror(fin)) {
+        env_csv_error(filename, strerror(errno));
+    }
+    fclose(fin);
+    free(line);
+    free(row);
+    if (*n_samples < 1) {
+        env_csv_error(filename, "No samples found");
     }
     printf("Loaded: %s: samples=%d, dim=%d\n", filename, *n_samples, *n_dim);
 }
 
 /**
  * @brief Parses specified csv files into training and testing data sets.
- * @pre Identical number of x and y samples.
+ * @details Exits if the numbers of x and y samples, or the dimensions of the
+ * training and testing data differ.
  * @param [in] infile The base name of the csv files to read.
  * @param [out] train_data The data structure to load the training data.
  * @param [out] test_data The data structure to load the testing data.
@@ -139,16 +137,29 @@ env_csv_input_read(const char *infile, struct Input *train_data,
                    struct Input *test_data)
 {
     char name[MAX_NAME];
+    int n_train_x = 0;
+    int n_test_x = 0;
     snprintf(name, MAX_NAME, "%s_train_x.csv", infile);
-    env_csv_read(name, &train_data->x, &train_data->n_samples,
-                 &train_data->x_dim);
+    env_csv_read(name, &train_data->x, &n_train_x, &train_data->x_dim);
     snprintf(name, MAX_NAME, "%s_train_y.csv", infile);
     env_csv_read(name, &train_data->y, &train_data->n_samples,
                  &train_data->y_dim);
+    if (train_data->n_samples != n_train_x) {
+        env_csv_error(name, "Not one row for each row of inputs");
+    }
     snprintf(name, MAX_NAME, "%s_test_x.csv", infile);
-    env_csv_read(name, &test_data->x, &test_data->n_samples, &test_data->x_dim);
+    env_csv_read(name, &test_data->x, &n_test_x, &test_data->x_dim);
+    if (test_data->x_dim != train_data->x_dim) {
+        env_csv_error(name, "Not the dimensions of the training data");
+    }
     snprintf(name, MAX_NAME, "%s_test_y.csv", infile);
     env_csv_read(name, &test_data->y, &test_data->n_samples, &test_data->y_dim);
+    if (test_data->n_samples != n_test_x) {
+        env_csv_error(name, "Not one row for each row of inputs");
+    }
+    if (test_data->y_dim != train_data->y_dim) {
+        env_csv_error(name, "Not the dimensions of the training data");
+    }
 }
 
 /**
-- 
2.43.0


From bba7ea542de18152feb404a0def536ae34c8e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:31 +0000
Subject: [PATCH 27/63] fix: read mazes whole or refuse them

---
 xcsf/env_maze.c | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/xcsf/env_maze.c b/xcsf/env_maze.c
index e848dbb..f8d7abd 100644
--- a/xcsf/env_maze.c
+++ b/xcsf/env_maze.c
@@ -110,28 +110,45 @@ env_maze_init(struct XCSF *xcsf, const char *filename)
     int x = 0;
     int y = 0;
     int c = 0;
-    while ((c = fgetc(fp)) != EOF) {
-        if (c == '\n') {
+    int n_free = 0;
+    do {
+        c = fgetc(fp);
+        if (c == '\n' || (c == EOF && x > 0)) { // the last row may be open
+            if (x < 1 || (y > 0 && x != env->xsize)) {
+                printf("Maze rows differ in length: %s\n", filename);
+                fclose(fp);
+                exit(EXIT_FAILURE);
+            }
             ++y;
             env->xsize = x;
             x = 0;
-        } else {
+        } else if (c != EOF) {
+            // check maximum maze size not exceeded
+            if (x >= MAX_SIZE || y >= MAX_SIZE) {
+                printf("Maze too big. Max size = [%d,%d]\n", MAX_SIZE,
+                       MAX_SIZE);
+                fclose(fp);
+                exit(EXIT_FAILURE);
+            }
+            env_maze_sensor(xcsf, (char) c); // exits if invalid
+            if (c == '*') {
+                ++n_free;
+            }
             env->maze[y][x] = (char) c;
             ++x;
         }
-        // check maximum maze size not exceeded
-        if (x > MAX_SIZE || y > MAX_SIZE) {
-            printf("Maze too big. Max size = [%d,%d]\n", MAX_SIZE, MAX_SIZE);
-            fclose(fp);
-            exit(EXIT_FAILURE);
-        }
-    }
+    } while (c != EOF);
     // check if EOF came from an end-of-file or an error
     if (ferror(fp)) {
         printf("EOF error opening %s. %s.\n", filename, strerror(errno));
         fclose(fp);
         exit(EXIT_FAILURE);
     }
+    if (n_free < 1) {
+        printf("Maze without an empty position: %s\n", filename);
+        fclose(fp);
+        exit(EXIT_FAILURE);
+    }
     env->ysize = y;
     env->state = malloc(sizeof(double) * 8);
     xcsf->env = env;
-- 
2.43.0


From 8411ccdf1b4fb5e34d49d121f7a7e089732e02d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:31 +0000
Subject: [PATCH 28/63] fix: read configuration files of any length exactly

---
 xcsf/config.c | 57 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/xcsf/config.c b/xcsf/config.c
index fc07365..d131022 100644
--- a/xcsf/config.c
+++ b/xcsf/config.c
@@ -24,21 +24,30 @@
 #include "config.h"
 #include "param.h"
 
-#define MAXLEN (127) //!< Maximum config file line length to read
-
 /**
- * @brief Removes tabs/spaces/lf/cr
- * @param [in] s The line to trim.
+ * @brief Blanks out comments: anything from a # outside a string to line end.
+ * @param [in,out] s The text of the configuration file.
  */
 static void
-config_trim(char *s)
+config_strip_comments(char *s)
 {
-    const char *d = s;
-    do {
-        while (*d == ' ' || *d == '\t' || *d == '\n' || *d == '\r') {
-            ++d;
+    bool in_string = false;
+    bool in_comment = false;
+    for (; *s != '\0'; ++s) {
+        if (*s == '\n') {
+            in_string = false; // strings do not span lines
+            in_comment = false;
+        } else if (in_comment) {
+            *s = ' ';
+        } else if (in_string && *s == '\\' && s[1] != '\0') {
+            ++s; // escaped character
+        } else if (*s == '"') {
+            in_string = !in_string;
+        } else if (*s == '#' && !in_string) {
+            in_comment = true;
+            *s = ' ';
         }
-    } while ((*s++ = *d++));
+    }
 }
 
 /**
@@ -57,23 +66,19 @@ config_read(struct XCSF *xcsf, const char *filename)
     fseek(f, 0, SEEK_END);
     const long len = ftell(f);
     fseek(f, 0, SEEK_SET);
-    char file_buff[len];
-    file_buff[0] = '\0';
-    char line_buff[MAXLEN];
-    while (!feof(f)) {
-        if (fgets(line_buff, MAXLEN - 2, f) == NULL) {
-            break;
-        }
-        config_trim(line_buff);
-        if (strnlen(line_buff, MAXLEN) == 0 || line_buff[0] == '#') {
-            continue; // ignore empty lines and lines starting with '#'
-        }
-        char *ptr = strchr(line_buff, '#'); // remove anything after #
-        if (ptr != NULL) {
-            *ptr = '\0';
-        }
-        strncat(file_buff, line_buff, MAXLEN);
+    if (len < 0) {
+        printf("Error reading %s. %s.\n", filename, strerror(errno));
+        exit(EXIT_FAILURE);
+    }
+    char *file_buff = malloc(sizeof(char) * (len + 1));
+    const size_t s = fread(file_buff, sizeof(char), len, f);
+    if (ferror(f)) {
+        printf("Error reading %s. %s.\n", filename, strerror(errno));
+        exit(EXIT_FAILURE);
     }
     fclose(f);
+    file_buff[s] = '\0';
+    config_strip_comments(file_buff);
     param_json_import(xcsf, file_buff);
+    free(file_buff);
 }
-- 
2.43.0


From d16d142b52098cb6d3fc3e303da6cb40c1152b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:31 +0000
Subject: [PATCH 29/63] fix: check that the population file was read completely

---
 xcsf/clset.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index cec628a..d6677e0 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -290,12 +290,12 @@ clset_load_pop_file(struct XCSF *xcsf)
     fseek(f, 0, SEEK_SET);
     char *json_buffer = malloc(sizeof(char) * len);
     const size_t s = fread(json_buffer, sizeof(char), len - 1, f);
-    fclose(f);
-    json_buffer[len - 1] = '\0';
-    if (s == 0) {
-        printf("Error opening JSON file: %s\n", xcsf->population_file);
+    if (s == 0 || ferror(f)) {
+        printf("Error reading JSON file: %s\n", xcsf->population_file);
         exit(EXIT_FAILURE);
     }
+    fclose(f);
+    json_buffer[s] = '\0';
     clset_json_insert(xcsf, json_buffer);
     free(json_buffer);
 }
-- 
2.43.0


From 08a73cf43a03153f64141325f8092afbc51da7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:31 +0000
Subject: [PATCH 30/63] fix: refuse JSON that is not a population or a set of
 parameters

---
 xcsf/clset.c | 9 ++++++---
 xcsf/param.c | 6 +++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index d6677e0..fbda67a 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -795,10 +795,13 @@ clset_json_insert_cl(struct XCSF *xcsf, const cJSON *json)
 void
 clset_json_insert(struct XCSF *xcsf, const char *json_str)
 {
-    cJSON *json = cJSON_Parse(json_str);
+    cJSON *json = cJSON_ParseWithOpts(json_str, NULL, true);
     utils_json_parse_check(json);
-    if (json->child != NULL && cJSON_IsArray(json->child) &&
-        json->child->child != NULL) {
+    if (!cJSON_IsObject(json) || !cJSON_IsArray(json->child)) {
+        printf("Import error: not a population\n");
+        exit(EXIT_FAILURE);
+    }
+    if (json->child->child != NULL) {
         cJSON *tail = json->child->child; // insert inverted for consistency
         tail->prev = NULL; // this should have been set by cJSON!
         while (tail->next != NULL) {
diff --git a/xcsf/param.c b/xcsf/param.c
index 2cfc21c..aa1bc05 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -457,8 +457,12 @@ param_json_import_seed(struct XCSF *xcsf, const cJSON *json)
 void
 param_json_import(struct XCSF *xcsf, const char *json_str)
 {
-    cJSON *json = cJSON_Parse(json_str);
+    cJSON *json = cJSON_ParseWithOpts(json_str, NULL, true);
     utils_json_parse_check(json);
+    if (!cJSON_IsObject(json)) {
+        printf("Import error: not a set of parameters\n");
+        exit(EXIT_FAILURE);
+    }
     param_json_import_seed(xcsf, json);
     for (cJSON *iter = json->child; iter != NULL; iter = iter->next) {
         if (param_json_import_general(xcsf, iter)) {
-- 
2.43.0


From 44dab68d0919223251983052cbc8910fd9e0327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:31 +0000
Subject: [PATCH 31/63] fix: refuse imported rules with values out of range

---
 xcsf/act_integer.c  | 5 ++++-
 xcsf/cl.c           | 4 ++++
 xcsf/cond_ternary.c | 8 ++++++++
 xcsf/dgp.c          | 2 +-
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/xcsf/act_integer.c b/xcsf/act_integer.c
index 0924f58..6565cbb 100644
--- a/xcsf/act_integer.c
+++ b/xcsf/act_integer.c
@@ -270,10 +270,13 @@ void
 act_integer_json_import(const struct XCSF *xcsf, struct Cl *c,
                         const cJSON *json)
 {
-    (void) xcsf;
     struct ActInteger *act = c->act;
     const cJSON *item = cJSON_GetObjectItem(json, "action");
     if (item != NULL && cJSON_IsNumber(item)) {
+        if (item->valueint < 0 || item->valueint >= xcsf->n_actions) {
+            printf("Import error: invalid action\n");
+            exit(EXIT_FAILURE);
+        }
         act->action = item->valueint;
     }
     sam_json_import(act->mu, N_MU, json);
diff --git a/xcsf/cl.c b/xcsf/cl.c
index 1af3406..057f192 100644
--- a/xcsf/cl.c
+++ b/xcsf/cl.c
@@ -564,6 +564,10 @@ cl_json_import_properties(struct Cl *c, const cJSON *json)
     }
     item = cJSON_GetObjectItem(json, "numerosity");
     if (item != NULL && cJSON_IsNumber(item)) {
+        if (item->valueint < 1) {
+            printf("Import error: invalid numerosity\n");
+            exit(EXIT_FAILURE);
+        }
         c->num = item->valueint;
     }
     item = cJSON_GetObjectItem(json, "experience");
diff --git a/xcsf/cond_ternary.c b/xcsf/cond_ternary.c
index d565d0b..a54d8f4 100644
--- a/xcsf/cond_ternary.c
+++ b/xcsf/cond_ternary.c
@@ -372,8 +372,16 @@ cond_ternary_json_import(const struct XCSF *xcsf, struct Cl *c,
                 printf("Import error: string terminated early\n");
                 exit(EXIT_FAILURE);
             }
+            if (bit != '0' && bit != '1' && bit != DONT_CARE) {
+                printf("Import error: invalid string\n");
+                exit(EXIT_FAILURE);
+            }
             cond->string[i] = bit;
         }
+        if (item->valuestring[cond->length] != '\0') {
+            printf("Import error: string length mismatch\n");
+            exit(EXIT_FAILURE);
+        }
     }
     sam_json_import(cond->mu, N_MU, json);
 }
diff --git a/xcsf/dgp.c b/xcsf/dgp.c
index 27190e6..9065322 100644
--- a/xcsf/dgp.c
+++ b/xcsf/dgp.c
@@ -458,7 +458,7 @@ graph_json_import_connectivity(struct Graph *dgp, const cJSON *json)
         const int max_c = dgp->n + dgp->n_inputs;
         for (int i = 0; i < dgp->klen; ++i) {
             const cJSON *item_i = cJSON_GetArrayItem(item, i);
-            if (item_i->valueint < 0 || item_i->valueint > max_c) {
+            if (item_i->valueint < 0 || item_i->valueint >= max_c) {
                 printf("Import error: connectivity value out of bounds\n");
                 exit(EXIT_FAILURE);
             }
-- 
2.43.0


From 93325c040da3fda3f0a977a0c2f2c8cc86109d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:31 +0000
Subject: [PATCH 32/63] fix: refuse a configuration or model whose dimensions
 are not the problem's

---
 xcsf/main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xcsf/main.c b/xcsf/main.c
index b44a656..4eea48c 100644
--- a/xcsf/main.c
+++ b/xcsf/main.c
@@ -41,6 +41,8 @@ main(int argc, char **argv)
     }
     struct XCSF *xcsf = malloc(sizeof(struct XCSF));
     env_init(xcsf, argv); // initialise environment and default parameters
+    const int x_dim = xcsf->x_dim; // fixed by the problem
+    const int y_dim = xcsf->y_dim;
     if (argc > 3) { // load parameter config
         config_read(xcsf, argv[3]);
     } else {
@@ -51,6 +53,10 @@ main(int argc, char **argv)
         const size_t s = xcsf_load(xcsf, argv[4]);
         printf("XCSF loaded: %d elements\n", (int) s);
     }
+    if (xcsf->x_dim != x_dim || xcsf->y_dim != y_dim) {
+        printf("Error: x_dim and y_dim do not match the problem\n");
+        exit(EXIT_FAILURE);
+    }
     param_print(xcsf); // print parameters used
     if (strcmp(argv[1], "csv") == 0) { // supervised regression - csv file
         const struct EnvCSV *env = xcsf->env;
-- 
2.43.0


From b5317c01b9e73ca4c0fa3415dd7b7eff4b481b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:44 +0000
Subject: [PATCH 33/63] fix: refuse a tournament size of zero, with which
 selection never ends

---
 xcsf/ea.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcsf/ea.c b/xcsf/ea.c
index dcf4c7a..07dad6e 100644
--- a/xcsf/ea.c
+++ b/xcsf/ea.c
@@ -407,8 +407,8 @@ ea_type_as_int(const char *type)
 const char *
 ea_param_set_select_size(struct XCSF *xcsf, const double a)
 {
-    if (a < 0 || a > 1) {
-        return "Invalid EA SELECT_SIZE. Range: [0,1]";
+    if (a <= 0 || a > 1) { // an empty tournament has no winner
+        return "Invalid EA SELECT_SIZE. Range: (0,1]";
     }
     xcsf->ea->select_size = a;
     return NULL;
-- 
2.43.0


From b6f387b7012e00679b9822580a4c4b2c232ce294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:44 +0000
Subject: [PATCH 34/63] fix: a maximum tree length always allows a tree to be
 created

---
 xcsf/gp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcsf/gp.c b/xcsf/gp.c
index 821167b..a75297f 100644
--- a/xcsf/gp.c
+++ b/xcsf/gp.c
@@ -600,9 +600,9 @@ tree_param_set_init_depth(struct ArgsGPTree *args, const int a)
 void
 tree_param_set_max_len(struct ArgsGPTree *args, const int a)
 {
-    if (a < 1) {
+    if (a < 3) { // a function and its two arguments
         printf("Warning: tried to set GP MAX_LEN too small\n");
-        args->max_len = 1;
+        args->max_len = 3;
     } else {
         args->max_len = a;
     }
-- 
2.43.0


From ce55f79f085e9b0148202b876632e4674cea1d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:44 +0000
Subject: [PATCH 35/63] fix: choose a random action when no action has any
 weight

---
 xcsf/pa.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xcsf/pa.c b/xcsf/pa.c
index 3d20bb2..de80609 100644
--- a/xcsf/pa.c
+++ b/xcsf/pa.c
@@ -143,12 +143,22 @@ pa_best_action(const struct XCSF *xcsf)
 
 /**
  * @brief Returns a random action from the prediction array.
+ * @details If no action has any weight, all actions are equally likely.
  * @param [in] xcsf The XCSF data structure.
  * @return A random action.
  */
 int
 pa_rand_action(const struct XCSF *xcsf)
 {
+    bool any = false;
+    for (int i = 0; i < xcsf->n_actions; ++i) {
+        if (xcsf->nr[i] != 0) {
+            any = true;
+        }
+    }
+    if (!any) {
+        return rand_uniform_int(0, xcsf->n_actions);
+    }
     int action = 0;
     do {
         action = rand_uniform_int(0, xcsf->n_actions);
-- 
2.43.0


From 8ecd7b77bf2a28c1a8472294a174ac7ab360bdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:56 +0000
Subject: [PATCH 36/63] fix: refuse DGP rules with too few nodes for their
 actions

---
 xcsf/rule_dgp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xcsf/rule_dgp.c b/xcsf/rule_dgp.c
index a350d49..a3ff42e 100644
--- a/xcsf/rule_dgp.c
+++ b/xcsf/rule_dgp.c
@@ -32,6 +32,12 @@ rule_dgp_cond_init(const struct XCSF *xcsf, struct Cl *c)
     struct RuleDGP *new = malloc(sizeof(struct RuleDGP));
     new->n_outputs = (int) fmax(1, ceil(log2(xcsf->n_actions)));
     graph_init(&new->dgp, xcsf->cond->dargs);
+    if (new->dgp.n < new->n_outputs + 1) {
+        printf("rule_dgp_init(): n(%d) < expected(%d)\n", new->dgp.n,
+               new->n_outputs + 1);
+        printf("DGP rules output binary actions + 1 matching node\n");
+        exit(EXIT_FAILURE);
+    }
     graph_rand(&new->dgp);
     c->cond = new;
 }
-- 
2.43.0


From 89d500bfa4b02ab3a902fa6767e204a873103765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:34 +0000
Subject: [PATCH 37/63] fix: create new rules as classifiers after switching
 from autoencoding

---
 xcsf/pred_neural.c | 33 +++++++++++++++++++++++++++++++++
 xcsf/pred_neural.h |  3 +++
 xcsf/xcsf.c        |  1 +
 3 files changed, 37 insertions(+)

diff --git a/xcsf/pred_neural.c b/xcsf/pred_neural.c
index 5a016a3..cd0182b 100644
--- a/xcsf/pred_neural.c
+++ b/xcsf/pred_neural.c
@@ -382,6 +382,39 @@ pred_neural_ae_to_classifier(const struct XCSF *xcsf, const struct Cl *c,
     neural_push(net, l);
 }
 
+/**
+ * @brief Changes the layer parameters used to create new predictions as
+ * pred_neural_ae_to_classifier() changes the existing ones.
+ * @param [in] xcsf The XCSF data structure.
+ * @param [in] n_del Number of (decoder) layers to remove.
+ */
+void
+pred_neural_ae_to_classifier_args(const struct XCSF *xcsf, const int n_del)
+{
+    struct ArgsLayer *largs = xcsf->pred->largs;
+    // remove decoder layers
+    for (int i = 0; i < n_del && largs->next != NULL; ++i) {
+        struct ArgsLayer *arg = largs;
+        while (arg->next->next != NULL) {
+            arg = arg->next;
+        }
+        layer_args_free(&arg->next);
+    }
+    // add new softmax output
+    struct ArgsLayer *out = layer_args_copy(largs);
+    out->type = CONNECTED;
+    out->function = LINEAR;
+    out->n_init = xcsf->y_dim;
+    out->n_max = xcsf->y_dim;
+    out->evolve_functions = false;
+    out->evolve_neurons = false;
+    layer_args_tail(largs)->next = out;
+    struct ArgsLayer *softmax = layer_args_copy(out);
+    softmax->type = SOFTMAX;
+    softmax->scale = 1;
+    out->next = softmax;
+}
+
 /**
  * @brief Returns a json formatted string representation of a neural prediction.
  * @param [in] xcsf XCSF data structure.
diff --git a/xcsf/pred_neural.h b/xcsf/pred_neural.h
index c0d4fd2..e0225f3 100644
--- a/xcsf/pred_neural.h
+++ b/xcsf/pred_neural.h
@@ -100,6 +100,9 @@ void
 pred_neural_ae_to_classifier(const struct XCSF *xcsf, const struct Cl *c,
                              const int n_del);
 
+void
+pred_neural_ae_to_classifier_args(const struct XCSF *xcsf, const int n_del);
+
 char *
 pred_neural_json_export(const struct XCSF *xcsf, const struct Cl *c);
 
diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index 0d9da59..41eef41 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -208,6 +208,7 @@ xcsf_ae_to_classifier(struct XCSF *xcsf, const int y_dim, const int n_del)
         iter->cl->time = xcsf->time;
         iter = iter->next;
     }
+    pred_neural_ae_to_classifier_args(xcsf, n_del);
 }
 
 /**
-- 
2.43.0


From 828492e28ead0dd7931821fd38b1c28e940aa107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:43 +0000
Subject: [PATCH 38/63] fix: drop a stored population of another kind or
 dimension

---
 xcsf/xcsf.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index 41eef41..78523ef 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -21,6 +21,7 @@
  * @brief System-level functions for initialising, saving, loading, etc.
  */
 
+#include "action.h"
 #include "cl.h"
 #include "clset.h"
 #include "cond_neural.h"
@@ -155,8 +156,22 @@ xcsf_load(struct XCSF *xcsf, const char *filename)
         fclose(fp);
         exit(EXIT_FAILURE);
     }
+    const int dims[3] = { xcsf->x_dim, xcsf->y_dim, xcsf->n_actions };
+    const int types[3] = { xcsf->cond->type, xcsf->pred->type,
+                           xcsf->act->type };
+    char *cond = cond_param_json_export(xcsf);
     s += param_load(xcsf, fp);
     xcsf_load_check(filename, fp);
+    char *new_cond = cond_param_json_export(xcsf);
+    if (dims[0] != xcsf->x_dim || dims[1] != xcsf->y_dim ||
+        dims[2] != xcsf->n_actions || types[0] != xcsf->cond->type ||
+        types[1] != xcsf->pred->type || types[2] != xcsf->act->type ||
+        strcmp(cond, new_cond) != 0) {
+        // the stored population is of another kind
+        clset_kill(xcsf, &xcsf->prev_pset);
+    }
+    free(cond);
+    free(new_cond);
     pa_free(xcsf); // the dimensions may have changed
     pa_init(xcsf);
     s += clset_pset_load(xcsf, fp);
@@ -209,6 +224,7 @@ xcsf_ae_to_classifier(struct XCSF *xcsf, const int y_dim, const int n_del)
         iter = iter->next;
     }
     pred_neural_ae_to_classifier_args(xcsf, n_del);
+    clset_kill(xcsf, &xcsf->prev_pset); // has the previous dimensions
 }
 
 /**
-- 
2.43.0


From c62d6d74632a689cf182177397667d6cc37042c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:09 +0000
Subject: [PATCH 39/63] fix: give up covering after too many attempts with
 every representation

---
 xcsf/act_neural.c  |  3 +++
 xcsf/clset.c       | 21 +++++++++++++++------
 xcsf/clset.h       |  5 +++++
 xcsf/cond_dgp.c    |  3 +++
 xcsf/cond_gp.c     |  3 +++
 xcsf/cond_neural.c |  3 +++
 xcsf/rule_dgp.c    |  3 +++
 xcsf/rule_neural.c |  3 +++
 8 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/xcsf/act_neural.c b/xcsf/act_neural.c
index 22dc30a..e439612 100644
--- a/xcsf/act_neural.c
+++ b/xcsf/act_neural.c
@@ -22,6 +22,7 @@
  */
 
 #include "act_neural.h"
+#include "clset.h"
 #include "neural_activations.h"
 #include "neural_layer_avgpool.h"
 #include "neural_layer_connected.h"
@@ -153,7 +154,9 @@ act_neural_cover(const struct XCSF *xcsf, const struct Cl *c, const double *x,
                  const int action)
 {
     const struct ActNeural *act = c->act;
+    int attempts = 0;
     do {
+        clset_cover_attempt(&attempts);
         neural_rand(&act->net);
     } while (action != act_neural_compute(xcsf, c, x));
 }
diff --git a/xcsf/clset.c b/xcsf/clset.c
index fbda67a..fb37575 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -25,7 +25,6 @@
 #include "cl.h"
 #include "utils.h"
 
-#define MAX_COVER (1000000) //!< Maximum number of covering attempts
 
 /**
  * @brief Finds a rule in the population that never matches an input.
@@ -150,6 +149,20 @@ clset_action_coverage(const struct XCSF *xcsf, bool *act_covered)
     return true;
 }
 
+/**
+ * @brief Counts an attempt at covering and gives up if there were too many.
+ * @param [in,out] attempts The number of attempts so far.
+ */
+void
+clset_cover_attempt(int *attempts)
+{
+    ++(*attempts);
+    if (*attempts > MAX_COVER) {
+        printf("Error: max covering attempts (%d) exceeded\n", MAX_COVER);
+        exit(EXIT_FAILURE);
+    }
+}
+
 /**
  * @brief Ensures all possible actions are covered by the match set.
  * @param [in] xcsf The XCSF data structure.
@@ -187,11 +200,7 @@ clset_cover(struct XCSF *xcsf, const double *x)
                 covered = clset_action_coverage(xcsf, act_covered);
             }
         }
-        ++attempts;
-        if (attempts > MAX_COVER) {
-            printf("Error: max covering attempts (%d) exceeded\n", MAX_COVER);
-            exit(EXIT_FAILURE);
-        }
+        clset_cover_attempt(&attempts);
     }
     free(act_covered);
 }
diff --git a/xcsf/clset.h b/xcsf/clset.h
index f9647ea..9e6f907 100644
--- a/xcsf/clset.h
+++ b/xcsf/clset.h
@@ -25,6 +25,8 @@
 
 #include "xcsf.h"
 
+#define MAX_COVER (1000000) //!< Maximum number of covering attempts
+
 double
 clset_mean_cond_size(const struct XCSF *xcsf, const struct Set *set);
 
@@ -52,6 +54,9 @@ clset_action(struct XCSF *xcsf, const int action);
 void
 clset_add(struct Set *set, struct Cl *c);
 
+void
+clset_cover_attempt(int *attempts);
+
 void
 clset_free(struct Set *set);
 
diff --git a/xcsf/cond_dgp.c b/xcsf/cond_dgp.c
index 794a7d8..b7361aa 100644
--- a/xcsf/cond_dgp.c
+++ b/xcsf/cond_dgp.c
@@ -22,6 +22,7 @@
  */
 
 #include "cond_dgp.h"
+#include "clset.h"
 #include "sam.h"
 #include "utils.h"
 
@@ -80,7 +81,9 @@ cond_dgp_cover(const struct XCSF *xcsf, const struct Cl *c, const double *x)
 {
     (void) xcsf;
     struct CondDGP *cond = c->cond;
+    int attempts = 0;
     do {
+        clset_cover_attempt(&attempts);
         graph_rand(&cond->dgp);
     } while (!cond_dgp_match(xcsf, c, x));
 }
diff --git a/xcsf/cond_gp.c b/xcsf/cond_gp.c
index ae9de05..946e267 100644
--- a/xcsf/cond_gp.c
+++ b/xcsf/cond_gp.c
@@ -22,6 +22,7 @@
  */
 
 #include "cond_gp.h"
+#include "clset.h"
 #include "ea.h"
 #include "sam.h"
 #include "utils.h"
@@ -79,7 +80,9 @@ void
 cond_gp_cover(const struct XCSF *xcsf, const struct Cl *c, const double *x)
 {
     struct CondGP *cond = c->cond;
+    int attempts = 0;
     do {
+        clset_cover_attempt(&attempts);
         tree_free(&cond->gp);
         tree_rand(&cond->gp, xcsf->cond->targs);
     } while (!cond_gp_match(xcsf, c, x));
diff --git a/xcsf/cond_neural.c b/xcsf/cond_neural.c
index eb6b3ef..b101eae 100644
--- a/xcsf/cond_neural.c
+++ b/xcsf/cond_neural.c
@@ -22,6 +22,7 @@
  */
 
 #include "cond_neural.h"
+#include "clset.h"
 #include "neural_activations.h"
 #include "neural_layer_connected.h"
 #include "neural_layer_convolutional.h"
@@ -86,7 +87,9 @@ void
 cond_neural_cover(const struct XCSF *xcsf, const struct Cl *c, const double *x)
 {
     const struct CondNeural *cond = c->cond;
+    int attempts = 0;
     do {
+        clset_cover_attempt(&attempts);
         neural_rand(&cond->net);
     } while (!cond_neural_match(xcsf, c, x));
 }
diff --git a/xcsf/rule_dgp.c b/xcsf/rule_dgp.c
index a3ff42e..3684144 100644
--- a/xcsf/rule_dgp.c
+++ b/xcsf/rule_dgp.c
@@ -22,6 +22,7 @@
  */
 
 #include "rule_dgp.h"
+#include "clset.h"
 #include "utils.h"
 
 /* CONDITION FUNCTIONS */
@@ -225,7 +226,9 @@ rule_dgp_act_cover(const struct XCSF *xcsf, const struct Cl *c, const double *x,
                    const int action)
 {
     struct RuleDGP *cond = c->cond;
+    int attempts = 0;
     do {
+        clset_cover_attempt(&attempts);
         graph_rand(&cond->dgp);
     } while (!rule_dgp_cond_match(xcsf, c, x) ||
              rule_dgp_act_compute(xcsf, c, x) != action);
diff --git a/xcsf/rule_neural.c b/xcsf/rule_neural.c
index 633177a..b3f09cb 100644
--- a/xcsf/rule_neural.c
+++ b/xcsf/rule_neural.c
@@ -22,6 +22,7 @@
  */
 
 #include "rule_neural.h"
+#include "clset.h"
 #include "neural_activations.h"
 #include "neural_layer_connected.h"
 #include "neural_layer_dropout.h"
@@ -228,7 +229,9 @@ rule_neural_act_cover(const struct XCSF *xcsf, const struct Cl *c,
                       const double *x, const int action)
 {
     const struct RuleNeural *cond = c->cond;
+    int attempts = 0;
     do {
+        clset_cover_attempt(&attempts);
         neural_rand(&cond->net);
     } while (!rule_neural_cond_match(xcsf, c, x) ||
              rule_neural_act_compute(xcsf, c, x) != action);
-- 
2.43.0


From c729b1749eaf7fcbb53ec610a62eaada48c24c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:29 +0000
Subject: [PATCH 40/63] fix: refuse networks whose outputs are not the actions
 or the outputs of the problem

---
 xcsf/act_neural.c  | 5 +++++
 xcsf/pred_neural.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/xcsf/act_neural.c b/xcsf/act_neural.c
index e439612..88a2053 100644
--- a/xcsf/act_neural.c
+++ b/xcsf/act_neural.c
@@ -46,6 +46,11 @@ act_neural_init(const struct XCSF *xcsf, struct Cl *c)
 {
     struct ActNeural *new = malloc(sizeof(struct ActNeural));
     neural_create(&new->net, xcsf->act->largs);
+    if (new->net.n_outputs != xcsf->n_actions) {
+        printf("act_neural_init(): n_outputs(%d) != n_actions(%d)\n",
+               new->net.n_outputs, xcsf->n_actions);
+        exit(EXIT_FAILURE);
+    }
     c->act = new;
 }
 
diff --git a/xcsf/pred_neural.c b/xcsf/pred_neural.c
index cd0182b..ace640c 100644
--- a/xcsf/pred_neural.c
+++ b/xcsf/pred_neural.c
@@ -46,6 +46,11 @@ pred_neural_init(const struct XCSF *xcsf, struct Cl *c)
 {
     struct PredNeural *new = malloc(sizeof(struct PredNeural));
     neural_create(&new->net, xcsf->pred->largs);
+    if (new->net.n_outputs != xcsf->y_dim) {
+        printf("pred_neural_init(): n_outputs(%d) != y_dim(%d)\n",
+               new->net.n_outputs, xcsf->y_dim);
+        exit(EXIT_FAILURE);
+    }
     c->pred = new;
 }
 
-- 
2.43.0


From 51e2dec31e6214142aae889ca0261bb679a9d123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:17 +0000
Subject: [PATCH 41/63] fix: read arrays that are not contiguous in row-major
 order correctly

---
 xcsf/pybind_wrapper.cpp | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 131055b..51361e5 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -58,6 +58,11 @@ extern "C" {
 #include "pybind_callback_earlystop.h"
 #include "pybind_utils.h"
 
+/**
+ * @brief Input array with values that are contiguous in row-major order.
+ */
+typedef py::array_t<double, py::array::c_style | py::array::forcecast> array_in;
+
 /**
  * @brief Python XCSF class data structure.
  */
@@ -222,7 +227,7 @@ class XCS
      * @return The prediction error.
      */
     double
-    fit(const py::array_t<double> input, const int action, const double reward)
+    fit(const array_in input, const int action, const double reward)
     {
         py::buffer_info buf = input.request();
         if (buf.shape[0] != xcs.x_dim) {
@@ -284,7 +289,7 @@ class XCS
      * @return The selected action.
      */
     int
-    decision(const py::array_t<double> input, const bool explore)
+    decision(const array_in input, const bool explore)
     {
         py::buffer_info buf = input.request();
         if (buf.shape[0] != xcs.x_dim) {
@@ -334,8 +339,8 @@ class XCS
      * @param [in] Y Vector of truth values with shape (n_samples, y_dim).
      */
     void
-    load_input(struct Input *data, const py::array_t<double> X,
-               const py::array_t<double> Y)
+    load_input(struct Input *data, const array_in X,
+               const array_in Y)
     {
         // access input
         const py::buffer_info buf_x = X.request();
@@ -433,8 +438,8 @@ class XCS
                     throw std::invalid_argument(
                         "validation_data must be a tuple with two arrays");
                 }
-                py::array_t<double> X_val = data[0].cast<py::array_t<double>>();
-                py::array_t<double> y_val = data[1].cast<py::array_t<double>>();
+                array_in X_val = data[0].cast<array_in>();
+                array_in y_val = data[1].cast<array_in>();
                 load_input(test_data, X_val, y_val);
                 val_data = test_data;
                 // use zeros for validation predictions instead of covering
@@ -496,7 +501,7 @@ class XCS
      * @return The fitted XCSF model.
      */
     XCS &
-    fit(const py::array_t<double> X_train, const py::array_t<double> y_train,
+    fit(const array_in X_train, const array_in y_train,
         const bool shuffle, const bool warm_start, const bool verbose,
         py::object callbacks, py::kwargs kwargs)
     {
@@ -540,7 +545,7 @@ class XCS
      * @return The cover array values.
      */
     double *
-    get_cover(const py::array_t<double> cover)
+    get_cover(const array_in cover)
     {
         const py::buffer_info buf_c = cover.request();
         if (buf_c.ndim != 1) {
@@ -568,7 +573,7 @@ class XCS
         if (cover.is_none()) {
             memset(xcs.cover, 0, sizeof(double) * xcs.pa_size);
         } else {
-            py::array_t<double> cover_arr = cover.cast<py::array_t<double>>();
+            array_in cover_arr = cover.cast<array_in>();
             memcpy(xcs.cover, get_cover(cover_arr),
                    sizeof(double) * xcs.pa_size);
         }
@@ -582,7 +587,7 @@ class XCS
      * @return The prediction array values.
      */
     py::array_t<double>
-    predict(const py::array_t<double> X, const py::object &cover)
+    predict(const array_in X, const py::object &cover)
     {
         const py::buffer_info buf_x = X.request();
         if (buf_x.ndim < 1 || buf_x.ndim > 2) {
@@ -616,7 +621,7 @@ class XCS
      * @return The average XCSF error using the loss function.
      */
     double
-    score(const py::array_t<double> X, const py::array_t<double> Y, const int N,
+    score(const array_in X, const array_in Y, const int N,
           const py::object &cover)
     {
         set_cover(cover);
@@ -944,11 +949,9 @@ PYBIND11_MODULE(xcsf, m)
               "machine learning.\nFor details on how to use this module see: "
               "https://github.com/xcsf-dev/xcsf/wiki/Python-Library-Usage";
 
-    double (XCS::*fit1)(const py::array_t<double>, const int, const double) =
-        &XCS::fit;
-    XCS &(XCS::*fit2)(const py::array_t<double>, const py::array_t<double>,
-                      const bool, const bool, const bool, py::object,
-                      py::kwargs) = &XCS::fit;
+    double (XCS::*fit1)(const array_in, const int, const double) = &XCS::fit;
+    XCS &(XCS::*fit2)(const array_in, const array_in, const bool, const bool,
+                      const bool, py::object, py::kwargs) = &XCS::fit;
 
     double (XCS::*error1)(void) = &XCS::error;
     double (XCS::*error2)(const double, const bool, const double) = &XCS::error;
-- 
2.43.0


From ba0f86348603533c98a10c78bc6aec2cff141f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:35 +0000
Subject: [PATCH 42/63] fix: refuse arrays with too few values for the
 dimensions

---
 xcsf/pybind_wrapper.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 51361e5..f822026 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -230,7 +230,8 @@ class XCS
     fit(const array_in input, const int action, const double reward)
     {
         py::buffer_info buf = input.request();
-        if (buf.shape[0] != xcs.x_dim) {
+        if (buf.ndim < 1 || buf.shape[0] != xcs.x_dim ||
+            buf.size != xcs.x_dim) {
             std::ostringstream error;
             error << "fit(): x_dim is not equal to: " << xcs.x_dim << std::endl;
             throw std::invalid_argument(error.str());
@@ -292,7 +293,8 @@ class XCS
     decision(const array_in input, const bool explore)
     {
         py::buffer_info buf = input.request();
-        if (buf.shape[0] != xcs.x_dim) {
+        if (buf.ndim < 1 || buf.shape[0] != xcs.x_dim ||
+            buf.size != xcs.x_dim) {
             std::ostringstream error;
             error << "decision(): x_dim is not equal to: " << xcs.x_dim;
             throw std::invalid_argument(error.str());
@@ -339,8 +341,7 @@ class XCS
      * @param [in] Y Vector of truth values with shape (n_samples, y_dim).
      */
     void
-    load_input(struct Input *data, const array_in X,
-               const array_in Y)
+    load_input(struct Input *data, const array_in X, const array_in Y)
     {
         // access input
         const py::buffer_info buf_x = X.request();
@@ -355,18 +356,23 @@ class XCS
         if (buf_x.shape[0] != buf_y.shape[0]) {
             throw std::invalid_argument("X and Y n_samples are not equal");
         }
-        if (buf_x.ndim > 1 && buf_x.shape[1] != xcs.x_dim) {
+        if (buf_x.shape[0] < 1) {
+            throw std::invalid_argument("X and Y contain no samples");
+        }
+        const py::ssize_t x_dim = buf_x.ndim > 1 ? buf_x.shape[1] : 1;
+        const py::ssize_t y_dim = buf_y.ndim > 1 ? buf_y.shape[1] : 1;
+        if (x_dim != xcs.x_dim) {
             std::ostringstream error;
             error << "load_input():";
-            error << " received x_dim: (" << buf_x.shape[1] << ")";
+            error << " received x_dim: (" << x_dim << ")";
             error << " but expected (" << xcs.x_dim << ")" << std::endl;
             error << "Perhaps reshape your data.";
             throw std::invalid_argument(error.str());
         }
-        if (buf_y.ndim > 1 && buf_y.shape[1] != xcs.y_dim) {
+        if (y_dim != xcs.y_dim) {
             std::ostringstream error;
             error << "load_input():";
-            error << " received y_dim: (" << buf_y.shape[1] << ")";
+            error << " received y_dim: (" << y_dim << ")";
             error << " but expected (" << xcs.y_dim << ")" << std::endl;
             error << "Perhaps reshape your data.";
             throw std::invalid_argument(error.str());
@@ -593,10 +599,11 @@ class XCS
         if (buf_x.ndim < 1 || buf_x.ndim > 2) {
             throw std::invalid_argument("predict(): X must be 1 or 2-D array");
         }
-        if (buf_x.ndim > 1 && buf_x.shape[1] != xcs.x_dim) {
+        const py::ssize_t x_dim = buf_x.ndim > 1 ? buf_x.shape[1] : 1;
+        if (x_dim != xcs.x_dim) {
             std::ostringstream error;
             error << "predict():";
-            error << " received x_dim: (" << buf_x.shape[1] << ")";
+            error << " received x_dim: (" << x_dim << ")";
             error << " but expected (" << xcs.x_dim << ")" << std::endl;
             error << "Perhaps reshape your data.";
             throw std::invalid_argument(error.str());
-- 
2.43.0


From 68bb0ed66f8bc5ca0398b750974d9d311c573f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:54 +0000
Subject: [PATCH 43/63] fix: do not use the array of a state after the call it
 was given to

---
 xcsf/pybind_wrapper.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index f822026..9443312 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -70,7 +70,7 @@ class XCS
 {
   private:
     struct XCSF xcs; //!< XCSF data structure
-    double *state; //!< Current input state for RL
+    std::vector<double> state; //!< Current input state for RL
     int action; //!< Current action for RL
     double payoff; //!< Current reward for RL
     struct Input *train_data; //!< Training data for supervised learning
@@ -112,7 +112,6 @@ class XCS
     void
     reset(void)
     {
-        state = NULL;
         action = 0;
         payoff = 0;
         train_data = new struct Input;
@@ -242,8 +241,9 @@ class XCS
                   << std::endl;
             throw std::invalid_argument(error.str());
         }
-        state = (double *) buf.ptr;
-        return xcs_rl_fit(&xcs, state, action, reward);
+        const double *ptr = static_cast<double *>(buf.ptr);
+        state.assign(ptr, ptr + xcs.x_dim);
+        return xcs_rl_fit(&xcs, state.data(), action, reward);
     }
 
     /**
@@ -279,7 +279,7 @@ class XCS
     void
     end_step(void)
     {
-        xcs_rl_end_step(&xcs, state, action, payoff);
+        xcs_rl_end_step(&xcs, state.data(), action, payoff);
     }
 
     /**
@@ -299,9 +299,10 @@ class XCS
             error << "decision(): x_dim is not equal to: " << xcs.x_dim;
             throw std::invalid_argument(error.str());
         }
-        state = (double *) buf.ptr;
+        const double *ptr = static_cast<double *>(buf.ptr);
+        state.assign(ptr, ptr + xcs.x_dim);
         param_set_explore(&xcs, explore);
-        action = xcs_rl_decision(&xcs, state);
+        action = xcs_rl_decision(&xcs, state.data());
         return action;
     }
 
@@ -315,7 +316,7 @@ class XCS
     update(const double reward, const bool done)
     {
         payoff = reward;
-        xcs_rl_update(&xcs, state, action, payoff, done);
+        xcs_rl_update(&xcs, state.data(), action, payoff, done);
     }
 
     /**
-- 
2.43.0


From 6f2673c4acabd257f6478d27929bf5f951771921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:54 +0000
Subject: [PATCH 44/63] fix: keep converted validation data alive while fitting

---
 xcsf/pybind_wrapper.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 9443312..29b66de 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -433,9 +433,11 @@ class XCS
     /**
      * @brief Loads validation data if present in kwargs.
      * @param [in] kwargs Parameters and their values.
+     * @param [out] X_val Holds the validation features while they are in use.
+     * @param [out] y_val Holds the validation truth values.
      */
     void
-    load_validation_data(py::kwargs kwargs)
+    load_validation_data(py::kwargs kwargs, array_in &X_val, array_in &y_val)
     {
         val_data = NULL;
         if (kwargs.contains("validation_data")) {
@@ -445,8 +447,8 @@ class XCS
                     throw std::invalid_argument(
                         "validation_data must be a tuple with two arrays");
                 }
-                array_in X_val = data[0].cast<array_in>();
-                array_in y_val = data[1].cast<array_in>();
+                X_val = data[0].cast<array_in>();
+                y_val = data[1].cast<array_in>();
                 load_input(test_data, X_val, y_val);
                 val_data = test_data;
                 // use zeros for validation predictions instead of covering
@@ -517,7 +519,9 @@ class XCS
             xcsf_init(&xcs);
         }
         load_input(train_data, X_train, y_train);
-        load_validation_data(kwargs);
+        array_in X_val;
+        array_in y_val;
+        load_validation_data(kwargs, X_val, y_val);
         // get callbacks
         py::list calls;
         if (py::isinstance<py::list>(callbacks)) {
-- 
2.43.0


From 2f774fd8887ca77f4b100fd9885fc04c85cb2c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:12 +0000
Subject: [PATCH 45/63] fix: check the data given to fit before discarding the
 model

---
 xcsf/pybind_wrapper.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 29b66de..0f264a9 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -514,10 +514,6 @@ class XCS
         const bool shuffle, const bool warm_start, const bool verbose,
         py::object callbacks, py::kwargs kwargs)
     {
-        if (!warm_start) { // re-initialise XCSF as necessary
-            xcsf_free(&xcs);
-            xcsf_init(&xcs);
-        }
         load_input(train_data, X_train, y_train);
         array_in X_val;
         array_in y_val;
@@ -527,6 +523,10 @@ class XCS
         if (py::isinstance<py::list>(callbacks)) {
             calls = callbacks.cast<py::list>();
         }
+        if (!warm_start) { // re-initialise XCSF as necessary
+            xcsf_free(&xcs);
+            xcsf_init(&xcs);
+        }
         // break up the learning into epochs to track metrics
         const int n = ceil(xcs.MAX_TRIALS / (double) xcs.PERF_TRIALS);
         const int n_trials = std::min(xcs.MAX_TRIALS, xcs.PERF_TRIALS);
-- 
2.43.0


From ad947b357d246b08ceb76a07e201f0479396491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:12 +0000
Subject: [PATCH 46/63] fix: do not leak the predictions

---
 xcsf/pybind_wrapper.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 0f264a9..a4e1e99 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -615,12 +615,12 @@ class XCS
         }
         const int n_samples = buf_x.shape[0];
         const double *input = reinterpret_cast<double *>(buf_x.ptr);
-        double *output =
-            (double *) malloc(sizeof(double) * n_samples * xcs.pa_size);
+        py::array_t<double> output(
+            std::vector<ptrdiff_t>{ n_samples, xcs.pa_size });
         set_cover(cover);
-        xcs_supervised_predict(&xcs, input, output, n_samples, xcs.cover);
-        return py::array_t<double>(
-            std::vector<ptrdiff_t>{ n_samples, xcs.pa_size }, output);
+        xcs_supervised_predict(&xcs, input, output.mutable_data(), n_samples,
+                               xcs.cover);
+        return output;
     }
 
     /**
-- 
2.43.0


From bea8d7d638518d5de838d44d569e8148872e29ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:26 +0000
Subject: [PATCH 47/63] fix: do not leak the exported population

---
 xcsf/pybind_wrapper.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index a4e1e99..be5d191 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -820,12 +820,15 @@ class XCS
      * @param [in] prediction Whether to return the prediction.
      * @return String encoded in json format.
      */
-    const char *
+    std::string
     json_export(const bool condition, const bool action, const bool prediction)
     {
         if (xcs.pset.list != NULL) {
-            return clset_json_export(&xcs, &xcs.pset, condition, action,
-                                     prediction);
+            char *json_str = clset_json_export(&xcs, &xcs.pset, condition,
+                                               action, prediction);
+            const std::string str(json_str);
+            free(json_str);
+            return str;
         }
         return "null";
     }
-- 
2.43.0


From 6e01c1f4f2becc0c905e8c889e64c3e4d2b5a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:15 +0000
Subject: [PATCH 48/63] fix: release a model when its Python object is
 destroyed

---
 xcsf/pybind_wrapper.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index be5d191..7329216 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -31,6 +31,7 @@
 #include <fstream>
 #include <iomanip>
 #include <iostream>
+#include <memory>
 #include <pybind11/numpy.h>
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
@@ -106,6 +107,20 @@ class XCS
         xcsf_init(&xcs);
     }
 
+    XCS(const XCS &) = delete;
+    XCS &operator=(const XCS &) = delete;
+
+    /**
+     * @brief Destructor.
+     */
+    ~XCS()
+    {
+        xcsf_free(&xcs);
+        param_free(&xcs);
+        delete train_data;
+        delete test_data;
+    }
+
     /**
      * @brief Resets basic constructor variables.
      */
@@ -673,7 +688,7 @@ class XCS
      * @details Uses a temporary binary file.
      * @param state The pickled state of a saved XCSF.
      */
-    static XCS
+    static std::unique_ptr<XCS>
     deserialize(const py::bytes &state)
     {
         // Write the XCSF bytes to a temporary binary file
@@ -683,11 +698,11 @@ class XCS
                    state.cast<std::string>().size());
         file.close();
         // Create a new XCSF instance
-        XCS xcs = XCS();
+        std::unique_ptr<XCS> xcs(new XCS());
         // Load XCSF
-        xcsf_load(&xcs.xcs, filename);
+        xcsf_load(&xcs->xcs, filename);
         // Update object params
-        xcs.update_params();
+        xcs->update_params();
         // Delete the temporary file
         if (std::remove(filename) != 0) {
             perror("Error deleting temporary pickle file");
-- 
2.43.0


From bf1d2bdd6ebabdf82b91db7881fb594612a623ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:43 +0000
Subject: [PATCH 49/63] fix: pickle through a temporary file of its own and
 check it

---
 xcsf/pybind_wrapper.cpp | 50 +++++++++++++++++++++++++----------------
 xcsf/xcsf.c             | 49 +++++++++++++++++++++++++++++++---------
 xcsf/xcsf.h             |  6 +++++
 3 files changed, 75 insertions(+), 30 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 7329216..d957ce9 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -668,16 +668,25 @@ class XCS
     serialize() const
     {
         // Write XCSF to a temporary binary file
-        const char *filename = "_tmp_pickle.bin";
-        xcsf_save(&xcs, filename);
+        FILE *fp = tmpfile();
+        if (fp == NULL) {
+            throw std::runtime_error("cannot create temporary pickle file");
+        }
+        xcsf_save_stream(&xcs, fp);
         // Read the binary file into bytes
-        std::ifstream file(filename, std::ios::binary);
-        std::string state((std::istreambuf_iterator<char>(file)),
-                          std::istreambuf_iterator<char>());
-        file.close();
-        // Delete the temporary file
-        if (std::remove(filename) != 0) {
-            perror("Error deleting temporary pickle file");
+        std::string state;
+        bool failed = fflush(fp) != 0 || ferror(fp) != 0;
+        const long size = failed ? -1 : ftell(fp);
+        if (size > 0 && fseek(fp, 0, SEEK_SET) == 0) {
+            state.resize(size);
+            failed = fread(&state[0], 1, state.size(), fp) != state.size();
+        } else {
+            failed = true;
+        }
+        // Closing deletes the temporary file
+        fclose(fp);
+        if (failed) {
+            throw std::runtime_error("error using temporary pickle file");
         }
         // Return the binary data as bytes
         return py::bytes(state);
@@ -692,21 +701,24 @@ class XCS
     deserialize(const py::bytes &state)
     {
         // Write the XCSF bytes to a temporary binary file
-        const char *filename = "_tmp_pickle.bin";
-        std::ofstream file(filename, std::ios::binary);
-        file.write(state.cast<std::string>().c_str(),
-                   state.cast<std::string>().size());
-        file.close();
+        FILE *fp = tmpfile();
+        if (fp == NULL) {
+            throw std::runtime_error("cannot create temporary pickle file");
+        }
+        const std::string str = state.cast<std::string>();
+        if (fwrite(str.data(), 1, str.size(), fp) != str.size() ||
+            fseek(fp, 0, SEEK_SET) != 0) {
+            fclose(fp);
+            throw std::runtime_error("error using temporary pickle file");
+        }
         // Create a new XCSF instance
         std::unique_ptr<XCS> xcs(new XCS());
         // Load XCSF
-        xcsf_load(&xcs->xcs, filename);
+        xcsf_load_stream(&xcs->xcs, "pickle", fp);
+        // Closing deletes the temporary file
+        fclose(fp);
         // Update object params
         xcs->update_params();
-        // Delete the temporary file
-        if (std::remove(filename) != 0) {
-            perror("Error deleting temporary pickle file");
-        }
         // Return the deserialized XCSF
         return xcs;
     }
diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index 78523ef..03429fa 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -82,6 +82,24 @@ xcsf_print_pset(const struct XCSF *xcsf, const bool print_cond,
     clset_print(xcsf, &xcsf->pset, print_cond, print_act, print_pred);
 }
 
+/**
+ * @brief Writes the current state of XCSF to an open file.
+ * @param [in] xcsf The XCSF data structure.
+ * @param [in] fp Pointer to the output file.
+ * @return The total number of elements written.
+ */
+size_t
+xcsf_save_stream(const struct XCSF *xcsf, FILE *fp)
+{
+    size_t s = 0;
+    s += fwrite(&VERSION_MAJOR, sizeof(int), 1, fp);
+    s += fwrite(&VERSION_MINOR, sizeof(int), 1, fp);
+    s += fwrite(&VERSION_BUILD, sizeof(int), 1, fp);
+    s += param_save(xcsf, fp);
+    s += clset_pset_save(xcsf, fp);
+    return s;
+}
+
 /**
  * @brief Writes the current state of XCSF to a file.
  * @param [in] xcsf The XCSF data structure.
@@ -96,12 +114,7 @@ xcsf_save(const struct XCSF *xcsf, const char *filename)
         printf("Error saving file: %s. %s.\n", filename, strerror(errno));
         exit(EXIT_FAILURE);
     }
-    size_t s = 0;
-    s += fwrite(&VERSION_MAJOR, sizeof(int), 1, fp);
-    s += fwrite(&VERSION_MINOR, sizeof(int), 1, fp);
-    s += fwrite(&VERSION_BUILD, sizeof(int), 1, fp);
-    s += param_save(xcsf, fp);
-    s += clset_pset_save(xcsf, fp);
+    const size_t s = xcsf_save_stream(xcsf, fp);
     const bool failed = ferror(fp) != 0;
     if (fclose(fp) != 0 || failed) {
         printf("Error saving file: %s. Incomplete write.\n", filename);
@@ -133,15 +146,30 @@ xcsf_load_check(const char *filename, FILE *fp)
 size_t
 xcsf_load(struct XCSF *xcsf, const char *filename)
 {
-    if (xcsf->pset.size > 0) {
-        clset_kill(xcsf, &xcsf->pset);
-        clset_init(&xcsf->pset);
-    }
     FILE *fp = fopen(filename, "rb");
     if (fp == 0) {
         printf("Error loading file: %s. %s.\n", filename, strerror(errno));
         exit(EXIT_FAILURE);
     }
+    const size_t s = xcsf_load_stream(xcsf, filename, fp);
+    fclose(fp);
+    return s;
+}
+
+/**
+ * @brief Reads the state of XCSF from an open file.
+ * @param [in] xcsf The XCSF data structure.
+ * @param [in] filename The name of the input file, for messages.
+ * @param [in] fp Pointer to the input file.
+ * @return The total number of elements read.
+ */
+size_t
+xcsf_load_stream(struct XCSF *xcsf, const char *filename, FILE *fp)
+{
+    if (xcsf->pset.size > 0) {
+        clset_kill(xcsf, &xcsf->pset);
+        clset_init(&xcsf->pset);
+    }
     size_t s = 0;
     int major = 0;
     int minor = 0;
@@ -176,7 +204,6 @@ xcsf_load(struct XCSF *xcsf, const char *filename)
     pa_init(xcsf);
     s += clset_pset_load(xcsf, fp);
     xcsf_load_check(filename, fp);
-    fclose(fp);
     return s;
 }
 
diff --git a/xcsf/xcsf.h b/xcsf/xcsf.h
index 1501cd8..0d3b7d0 100644
--- a/xcsf/xcsf.h
+++ b/xcsf/xcsf.h
@@ -154,9 +154,15 @@ struct Input {
 size_t
 xcsf_load(struct XCSF *xcsf, const char *filename);
 
+size_t
+xcsf_load_stream(struct XCSF *xcsf, const char *filename, FILE *fp);
+
 size_t
 xcsf_save(const struct XCSF *xcsf, const char *filename);
 
+size_t
+xcsf_save_stream(const struct XCSF *xcsf, FILE *fp);
+
 void
 xcsf_free(struct XCSF *xcsf);
 
-- 
2.43.0


From ca020567598b4c22cb6bf8844e797216f76818a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:07 +0000
Subject: [PATCH 50/63] fix: report errors writing and reading the population
 as JSON

---
 xcsf/pybind_wrapper.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index d957ce9..efcec94 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -969,6 +969,9 @@ class XCS
         std::ofstream outfile(filename);
         outfile << json_export(true, true, true);
         outfile.close();
+        if (!outfile) {
+            throw std::runtime_error("error writing file: " + filename);
+        }
     }
 
     /**
@@ -981,6 +984,9 @@ class XCS
         std::ifstream infile(filename);
         std::stringstream buffer;
         buffer << infile.rdbuf();
+        if (!infile || infile.bad() || !buffer) {
+            throw std::runtime_error("error reading file: " + filename);
+        }
         json_insert(buffer.str());
     }
 };
-- 
2.43.0


From 7ce69ee614f9558f1598e6f6846526c1de7aa9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:23 +0000
Subject: [PATCH 51/63] fix: size the Python constructor's default arguments by
 the problem

The default condition, action and prediction arguments were created before
the dimensions were known, so that they fitted a problem of one input, one
output and one action, and depended on the order of the keywords.
---
 xcsf/pybind_wrapper.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index efcec94..0e098ad 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -26,6 +26,7 @@
     #define _hypot hypot
 #endif
 
+#include <algorithm>
 #include <chrono>
 #include <cstdio>
 #include <fstream>
@@ -92,7 +93,7 @@ class XCS
      */
     XCS()
     {
-        reset();
+        reset(1, 1, 1);
         xcsf_init(&xcs);
     }
 
@@ -102,7 +103,8 @@ class XCS
      */
     explicit XCS(py::kwargs kwargs)
     {
-        reset();
+        reset(get_dim(kwargs, "x_dim"), get_dim(kwargs, "y_dim"),
+              get_dim(kwargs, "n_actions"));
         set_params(kwargs);
         xcsf_init(&xcs);
     }
@@ -121,11 +123,29 @@ class XCS
         delete test_data;
     }
 
+    /**
+     * @brief Returns a problem dimension: default arguments depend upon them.
+     * @param [in] kwargs Parameters and their values.
+     * @param [in] name The name of the dimension.
+     * @return The dimension, or one if it is not specified.
+     */
+    static int
+    get_dim(const py::kwargs &kwargs, const char *name)
+    {
+        if (kwargs.contains(name) && py::isinstance<py::int_>(kwargs[name])) {
+            return std::max(1, kwargs[name].cast<int>());
+        }
+        return 1;
+    }
+
     /**
      * @brief Resets basic constructor variables.
+     * @param [in] x_dim The dimensionality of the input variables.
+     * @param [in] y_dim The dimensionality of the prediction variables.
+     * @param [in] n_actions The total number of possible actions.
      */
     void
-    reset(void)
+    reset(const int x_dim, const int y_dim, const int n_actions)
     {
         action = 0;
         payoff = 0;
@@ -143,7 +163,7 @@ class XCS
         test_data->y = NULL;
         val_data = NULL;
         metric_counter = 0;
-        param_init(&xcs, 1, 1, 1);
+        param_init(&xcs, x_dim, y_dim, n_actions);
         update_params();
     }
 
-- 
2.43.0


From b3bfc8943b3fb5b846eb7f2c2da83698b924c929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:23 +0000
Subject: [PATCH 52/63] fix: export an empty population as a population

json_export() of a model without rules gave the text null, which json_read()
and json_insert() refuse.
---
 xcsf/pybind_wrapper.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 0e098ad..a9a530f 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -870,14 +870,11 @@ class XCS
     std::string
     json_export(const bool condition, const bool action, const bool prediction)
     {
-        if (xcs.pset.list != NULL) {
-            char *json_str = clset_json_export(&xcs, &xcs.pset, condition,
-                                               action, prediction);
-            const std::string str(json_str);
-            free(json_str);
-            return str;
-        }
-        return "null";
+        char *json_str =
+            clset_json_export(&xcs, &xcs.pset, condition, action, prediction);
+        const std::string str(json_str);
+        free(json_str);
+        return str;
     }
 
     /**
-- 
2.43.0


From cd78c4e7d4e80e23143f96c5f7c92a309e8cab68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:43 +0000
Subject: [PATCH 53/63] fix: refuse networks whose inputs are not those of the
 problem

---
 xcsf/act_neural.c  | 5 +++++
 xcsf/cond_neural.c | 5 +++++
 xcsf/pred_neural.c | 5 +++++
 xcsf/rule_neural.c | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/xcsf/act_neural.c b/xcsf/act_neural.c
index 88a2053..2c2fd32 100644
--- a/xcsf/act_neural.c
+++ b/xcsf/act_neural.c
@@ -46,6 +46,11 @@ act_neural_init(const struct XCSF *xcsf, struct Cl *c)
 {
     struct ActNeural *new = malloc(sizeof(struct ActNeural));
     neural_create(&new->net, xcsf->act->largs);
+    if (new->net.n_inputs != xcsf->x_dim) {
+        printf("act_neural_init(): n_inputs(%d) != x_dim(%d)\n",
+               new->net.n_inputs, xcsf->x_dim);
+        exit(EXIT_FAILURE);
+    }
     if (new->net.n_outputs != xcsf->n_actions) {
         printf("act_neural_init(): n_outputs(%d) != n_actions(%d)\n",
                new->net.n_outputs, xcsf->n_actions);
diff --git a/xcsf/cond_neural.c b/xcsf/cond_neural.c
index b101eae..9057309 100644
--- a/xcsf/cond_neural.c
+++ b/xcsf/cond_neural.c
@@ -44,6 +44,11 @@ cond_neural_init(const struct XCSF *xcsf, struct Cl *c)
 {
     struct CondNeural *new = malloc(sizeof(struct CondNeural));
     neural_create(&new->net, xcsf->cond->largs);
+    if (new->net.n_inputs != xcsf->x_dim) {
+        printf("cond_neural_init(): n_inputs(%d) != x_dim(%d)\n",
+               new->net.n_inputs, xcsf->x_dim);
+        exit(EXIT_FAILURE);
+    }
     c->cond = new;
 }
 
diff --git a/xcsf/pred_neural.c b/xcsf/pred_neural.c
index ace640c..aff8cb8 100644
--- a/xcsf/pred_neural.c
+++ b/xcsf/pred_neural.c
@@ -46,6 +46,11 @@ pred_neural_init(const struct XCSF *xcsf, struct Cl *c)
 {
     struct PredNeural *new = malloc(sizeof(struct PredNeural));
     neural_create(&new->net, xcsf->pred->largs);
+    if (new->net.n_inputs != xcsf->x_dim) {
+        printf("pred_neural_init(): n_inputs(%d) != x_dim(%d)\n",
+               new->net.n_inputs, xcsf->x_dim);
+        exit(EXIT_FAILURE);
+    }
     if (new->net.n_outputs != xcsf->y_dim) {
         printf("pred_neural_init(): n_outputs(%d) != y_dim(%d)\n",
                new->net.n_outputs, xcsf->y_dim);
diff --git a/xcsf/rule_neural.c b/xcsf/rule_neural.c
index b3f09cb..56ada31 100644
--- a/xcsf/rule_neural.c
+++ b/xcsf/rule_neural.c
@@ -37,6 +37,11 @@ rule_neural_cond_init(const struct XCSF *xcsf, struct Cl *c)
 {
     struct RuleNeural *new = malloc(sizeof(struct RuleNeural));
     neural_create(&new->net, xcsf->cond->largs);
+    if (new->net.n_inputs != xcsf->x_dim) {
+        printf("rule_neural_init(): n_inputs(%d) != x_dim(%d)\n",
+               new->net.n_inputs, xcsf->x_dim);
+        exit(EXIT_FAILURE);
+    }
     const int expected = (int) fmax(1, ceil(log2(xcsf->n_actions))) + 1;
     if (new->net.n_outputs != expected) {
         printf("rule_neural_init(): n_outputs(%d) != expected(%d)\n",
-- 
2.43.0


From 75ed7c7ffcefad818f70f851816f9d94d3876822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:13 +0000
Subject: [PATCH 54/63] fix: refuse layers with no window, stride or room for
 their inputs

---
 xcsf/neural_layer_args.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/xcsf/neural_layer_args.c b/xcsf/neural_layer_args.c
index 92cb3c7..d11d7b4 100644
--- a/xcsf/neural_layer_args.c
+++ b/xcsf/neural_layer_args.c
@@ -474,6 +474,9 @@ layer_args_validate_inputs(struct ArgsLayer *arg)
             arg->channels = 1;
             arg->height = 1;
             arg->width = arg->n_inputs;
+        } else if (arg->channels * arg->height * arg->width != arg->n_inputs) {
+            printf("Error: channels * height * width != number of inputs\n");
+            exit(EXIT_FAILURE);
         }
     }
     if (layer_receives_images(arg->type)) {
@@ -495,6 +498,28 @@ layer_args_validate_inputs(struct ArgsLayer *arg)
     }
 }
 
+/**
+ * @brief Checks the window of a layer that moves one over its inputs.
+ * @param [in] arg Layer parameters to check.
+ */
+static void
+layer_args_validate_window(const struct ArgsLayer *arg)
+{
+    const bool window = arg->type == CONVOLUTIONAL || arg->type == MAXPOOL;
+    if (window && arg->size < 1) {
+        printf("Error: layer size < 1\n");
+        exit(EXIT_FAILURE);
+    }
+    if ((window || arg->type == UPSAMPLE) && arg->stride < 1) {
+        printf("Error: layer stride < 1\n");
+        exit(EXIT_FAILURE);
+    }
+    if (window && arg->pad < 0) {
+        printf("Error: layer pad < 0\n");
+        exit(EXIT_FAILURE);
+    }
+}
+
 /**
  * @brief Checks network layer arguments are valid.
  * @param [in] args List of layer parameters to check.
@@ -516,6 +541,7 @@ layer_args_validate(struct ArgsLayer *args)
         if (arg->n_max < arg->n_init) {
             arg->n_max = arg->n_init;
         }
+        layer_args_validate_window(arg);
         arg = arg->next;
     } while (arg != NULL);
 }
-- 
2.43.0


From 546e576af0e7e41b26ceec4ebf2d1f5ee2281812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:43 +0000
Subject: [PATCH 55/63] fix: refuse parameters and arguments that are not
 objects

---
 xcsf/param.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xcsf/param.c b/xcsf/param.c
index aa1bc05..264fe44 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -360,6 +360,10 @@ param_json_import_action(struct XCSF *xcsf, cJSON *json)
         exit(EXIT_FAILURE);
     }
     token = cJSON_GetObjectItem(json, "args");
+    if (token != NULL && !cJSON_IsObject(token)) {
+        printf("Invalid action args\n");
+        exit(EXIT_FAILURE);
+    }
     if (token != NULL) {
         const char *ret = action_param_json_import(xcsf, token);
         if (ret != NULL) {
@@ -390,6 +394,10 @@ param_json_import_condition(struct XCSF *xcsf, cJSON *json)
         exit(EXIT_FAILURE);
     }
     token = cJSON_GetObjectItem(json, "args");
+    if (token != NULL && !cJSON_IsObject(token)) {
+        printf("Invalid condition args\n");
+        exit(EXIT_FAILURE);
+    }
     if (token != NULL) {
         const char *ret = cond_param_json_import(xcsf, token);
         if (ret != NULL) {
@@ -423,6 +431,10 @@ param_json_import_prediction(struct XCSF *xcsf, cJSON *json)
         exit(EXIT_FAILURE);
     }
     token = cJSON_GetObjectItem(json, "args");
+    if (token != NULL && !cJSON_IsObject(token)) {
+        printf("Invalid prediction args\n");
+        exit(EXIT_FAILURE);
+    }
     if (token != NULL) {
         const char *ret = pred_param_json_import(xcsf, token);
         if (ret != NULL) {
@@ -477,7 +489,7 @@ param_json_import(struct XCSF *xcsf, const char *json_str)
         if (param_json_import_cl_general(xcsf, iter)) {
             continue;
         }
-        if (strncmp(iter->string, "ea\0", 3) == 0) {
+        if (strncmp(iter->string, "ea\0", 3) == 0 && cJSON_IsObject(iter)) {
             ea_param_json_import(xcsf, iter->child);
             continue;
         }
-- 
2.43.0


From 992b42c186dbd3a8a61d321ba94d63587fde63cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:32 +0000
Subject: [PATCH 56/63] fix: the first performance line covers one trial more
 than the others

Trials count from zero, so PERF_TRIALS + 1 errors were summed but divided by
PERF_TRIALS.
---
 xcsf/perf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xcsf/perf.c b/xcsf/perf.c
index 633a3c6..0408dd3 100644
--- a/xcsf/perf.c
+++ b/xcsf/perf.c
@@ -35,8 +35,10 @@ perf_print(const struct XCSF *xcsf, double *error, double *terror,
            const int trial)
 {
     if (trial % xcsf->PERF_TRIALS == 0 && trial > 0) {
-        *error /= xcsf->PERF_TRIALS;
-        *terror /= xcsf->PERF_TRIALS;
+        // trials count from zero so there is one more before the first line
+        const int n = xcsf->PERF_TRIALS + (trial == xcsf->PERF_TRIALS);
+        *error /= n;
+        *terror /= n;
         printf("%d %.5f %.5f %d\n", trial, *error, *terror, xcsf->pset.size);
         fflush(stdout);
         *error = 0;
-- 
2.43.0


From 1b4f19808b90e9b98d338185c13dfc7c0915b7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:32 +0000
Subject: [PATCH 57/63] fix: fit() runs exactly MAX_TRIALS trials

The last epoch ran PERF_TRIALS trials even if fewer were left.
---
 xcsf/pybind_wrapper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index a9a530f..36fb39f 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -564,9 +564,10 @@ class XCS
         }
         // break up the learning into epochs to track metrics
         const int n = ceil(xcs.MAX_TRIALS / (double) xcs.PERF_TRIALS);
-        const int n_trials = std::min(xcs.MAX_TRIALS, xcs.PERF_TRIALS);
         for (int i = 0; i < n; ++i) {
-            const int start = i * n_trials;
+            const int start = i * xcs.PERF_TRIALS;
+            const int n_trials =
+                std::min(xcs.MAX_TRIALS - start, xcs.PERF_TRIALS);
             const double train_error = xcs_supervised_fit(
                 &xcs, train_data, NULL, shuffle, start, n_trials);
             double val_error = 0;
-- 
2.43.0


From e5a76afa396fdd8ecc31fe06892f0b5adcf40745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:32 +0000
Subject: [PATCH 58/63] fix: the trials metric counts the trials that were run

It was computed from the number of epochs and the length of the current one.
---
 xcsf/pybind_wrapper.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 36fb39f..3b54e32 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -85,7 +85,7 @@ class XCS
     py::list metric_psize;
     py::list metric_msize;
     py::list metric_mfrac;
-    int metric_counter;
+    int metric_counter; //!< Total number of trials run
 
   public:
     /**
@@ -455,14 +455,13 @@ class XCS
     void
     update_metrics(const double train, const double val, const int n_trials)
     {
-        const int trial = (1 + metric_counter) * n_trials;
+        metric_counter += n_trials;
         metric_train.append(train);
         metric_val.append(val);
-        metric_trial.append(trial);
+        metric_trial.append(metric_counter);
         metric_psize.append(xcs.pset.size);
         metric_msize.append(xcs.mset_size);
         metric_mfrac.append(xcs.mfrac);
-        ++metric_counter;
     }
 
     /**
-- 
2.43.0


From 6010d7ecea8ea1a275bc88b288cb9e2b2c61d10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:32 +0000
Subject: [PATCH 59/63] fix: evolving the learning rate of a recurrent layer
 respects its bounds

The outer layer has no bounds, so the first mutation set the rate to zero.
---
 xcsf/neural_layer_recurrent.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index 7b8ebc7..bc797b9 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -133,8 +133,9 @@ set_layer_n_biases(struct Layer *l)
 static bool
 mutate_eta(struct Layer *l)
 {
-    if ((l->options & LAYER_EVOLVE_ETA) && layer_mutate_eta(l, l->mu[0])) {
-        l->input_layer->eta = l->eta;
+    if ((l->options & LAYER_EVOLVE_ETA) &&
+        layer_mutate_eta(l->input_layer, l->mu[0])) {
+        l->eta = l->input_layer->eta;
         l->self_layer->eta = l->eta;
         l->output_layer->eta = l->eta;
         return true;
-- 
2.43.0


From 9056bfd5f13951ee6ab29d90eaa1fa1f334c2a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:32 +0000
Subject: [PATCH 60/63] fix: offspring inherit constant predictions

The copy did nothing, so offspring predicted zero although pred_reset is off.
---
 xcsf/pred_constant.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/xcsf/pred_constant.c b/xcsf/pred_constant.c
index 8b1dde1..8e440ba 100644
--- a/xcsf/pred_constant.c
+++ b/xcsf/pred_constant.c
@@ -37,7 +37,7 @@ pred_constant_init(const struct XCSF *xcsf, struct Cl *c)
 }
 
 /**
- * @brief Dummy function since constant predictions have no data structure.
+ * @brief Copies a constant prediction from one classifier to another.
  * @param [in] xcsf The XCSF data structure.
  * @param [in] dest The destination classifier.
  * @param [in] src The source classifier.
@@ -46,9 +46,7 @@ void
 pred_constant_copy(const struct XCSF *xcsf, struct Cl *dest,
                    const struct Cl *src)
 {
-    (void) xcsf;
-    (void) dest;
-    (void) src;
+    memcpy(dest->prediction, src->prediction, sizeof(double) * xcsf->y_dim);
 }
 
 /**
-- 
2.43.0


From 6f4e87eda6b08944ee7f31384ce9c83b82cc1036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:07 +0000
Subject: [PATCH 61/63] fix: refuse unsupported callbacks before training

fit() trained for one epoch, or started afresh, before it raised the error.
---
 xcsf/pybind_wrapper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 3b54e32..fbd275f 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -556,6 +556,11 @@ class XCS
         py::list calls;
         if (py::isinstance<py::list>(callbacks)) {
             calls = callbacks.cast<py::list>();
+            for (py::handle item : calls) {
+                if (!py::isinstance<Callback>(item)) {
+                    throw std::invalid_argument("unsupported callback");
+                }
+            }
         }
         if (!warm_start) { // re-initialise XCSF as necessary
             xcsf_free(&xcs);
-- 
2.43.0


From 20abfc2d785e0d831f1d28355f833845a00ef3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:07 +0000
Subject: [PATCH 62/63] fix: refused parameters are not recorded

set_params() stored values before they were converted, so get_params() returned
values that had been refused.
---
 xcsf/pybind_wrapper.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index fbd275f..dee86ef 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -923,11 +923,7 @@ class XCS
     XCS &
     set_params(py::kwargs kwargs)
     {
-        py::dict kwargs_dict(kwargs);
-        // update external params dict
-        for (const auto &item : kwargs_dict) {
-            params[item.first] = item.second;
-        }
+        py::dict kwargs_dict = kwargs.attr("copy")();
         // map None types
         if (kwargs_dict.contains("random_state")) {
             py::object rs = kwargs["random_state"];
@@ -941,6 +937,10 @@ class XCS
         std::string json_str = json_dumps.cast<std::string>();
         const char *json_params = json_str.c_str();
         param_json_import(&xcs, json_params);
+        // update external params dict
+        for (const auto &item : kwargs) {
+            params[item.first] = item.second;
+        }
         return *this;
     }
 
-- 
2.43.0


From 50ae53ca214d435cf00dda6623cd0e6d0974cf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:10 +0000
Subject: [PATCH 63/63] fix: total time of a set overflows in long runs

The product of the time stamp and the numerosity of a rule was computed as an
int, so after enough trials the mean time of a set was wrong and the EA ran
when it was not due.
---
 xcsf/clset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/clset.c b/xcsf/clset.c
index fb37575..d8abfaa 100644
--- a/xcsf/clset.c
+++ b/xcsf/clset.c
@@ -280,7 +280,7 @@ clset_total_time(const struct Set *set)
     double sum = 0;
     const struct Clist *iter = set->list;
     while (iter != NULL) {
-        sum += iter->cl->time * iter->cl->num;
+        sum += (double) iter->cl->time * iter->cl->num;
         iter = iter->next;
     }
     return sum;
-- 
2.43.0

