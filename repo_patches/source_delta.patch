From 85ff3712abfaf7b3281ff08ceb5339e0e6a9e9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:08:29 +0000
Subject: [PATCH 01/23] fix: set recurrent layer output, delta and sizes after
 loading and copying

---
 xcsf/neural_layer_recurrent.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index abcf415..0842325 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -298,6 +298,8 @@ neural_layer_recurrent_copy(const struct Layer *src)
     l->out_w = src->out_w;
     l->out_c = src->out_c;
     l->out_h = src->out_h;
+    l->n_weights = src->n_weights;
+    l->n_biases = src->n_biases;
     l->n_active = src->n_active;
     l->eta = src->eta;
     l->input_layer = layer_copy(src->input_layer);
@@ -538,5 +540,9 @@ neural_layer_recurrent_load(struct Layer *l, FILE *fp)
     s += layer_load(l->input_layer, fp);
     s += layer_load(l->self_layer, fp);
     s += layer_load(l->output_layer, fp);
+    l->output = l->output_layer->output;
+    l->delta = l->output_layer->delta;
+    set_layer_n_biases(l);
+    set_layer_n_weights(l);
     return s;
 }
-- 
2.43.0


From 5dc2b8d84e06cb1249ca0c6f95adfb712ad284b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:08:41 +0000
Subject: [PATCH 02/23] fix: save and load the activation functions of LSTM
 layers

---
 xcsf/neural_layer_lstm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcsf/neural_layer_lstm.c b/xcsf/neural_layer_lstm.c
index 86f32c1..ef35e33 100644
--- a/xcsf/neural_layer_lstm.c
+++ b/xcsf/neural_layer_lstm.c
@@ -674,6 +674,8 @@ neural_layer_lstm_save(const struct Layer *l, FILE *fp)
     s += fwrite(&l->decay, sizeof(double), 1, fp);
     s += fwrite(&l->max_neuron_grow, sizeof(int), 1, fp);
     s += fwrite(&l->options, sizeof(uint32_t), 1, fp);
+    s += fwrite(&l->function, sizeof(int), 1, fp);
+    s += fwrite(&l->recurrent_function, sizeof(int), 1, fp);
     s += fwrite(l->mu, sizeof(double), N_MU, fp);
     s += fwrite(l->state, sizeof(double), l->n_outputs, fp);
     s += fwrite(l->prev_state, sizeof(double), l->n_outputs, fp);
@@ -721,6 +723,8 @@ neural_layer_lstm_load(struct Layer *l, FILE *fp)
     s += fread(&l->decay, sizeof(double), 1, fp);
     s += fread(&l->max_neuron_grow, sizeof(int), 1, fp);
     s += fread(&l->options, sizeof(uint32_t), 1, fp);
+    s += fread(&l->function, sizeof(int), 1, fp);
+    s += fread(&l->recurrent_function, sizeof(int), 1, fp);
     l->out_w = l->n_outputs;
     l->out_c = 1;
     l->out_h = 1;
-- 
2.43.0


From ebe51b41008c6306fe068dadd58d8a2730ef12d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:08:49 +0000
Subject: [PATCH 03/23] fix: mutate recurrent layer eta within the configured
 range

---
 xcsf/neural_layer_recurrent.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index 0842325..92db989 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -133,8 +133,9 @@ set_layer_n_biases(struct Layer *l)
 static bool
 mutate_eta(struct Layer *l)
 {
-    if ((l->options & LAYER_EVOLVE_ETA) && layer_mutate_eta(l, l->mu[0])) {
-        l->input_layer->eta = l->eta;
+    if ((l->options & LAYER_EVOLVE_ETA) &&
+        layer_mutate_eta(l->input_layer, l->mu[0])) {
+        l->eta = l->input_layer->eta;
         l->self_layer->eta = l->eta;
         l->output_layer->eta = l->eta;
         return true;
-- 
2.43.0


From 9fda0732634396e9399ab4fe4afcbdf4a66a91af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:09:28 +0000
Subject: [PATCH 04/23] fix: save and load the fed back output of recurrent
 layers

---
 xcsf/neural_layer_recurrent.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/neural_layer_recurrent.c b/xcsf/neural_layer_recurrent.c
index 92db989..e29bab6 100644
--- a/xcsf/neural_layer_recurrent.c
+++ b/xcsf/neural_layer_recurrent.c
@@ -510,6 +510,7 @@ neural_layer_recurrent_save(const struct Layer *l, FILE *fp)
     s += layer_save(l->input_layer, fp);
     s += layer_save(l->self_layer, fp);
     s += layer_save(l->output_layer, fp);
+    s += fwrite(l->output, sizeof(double), l->n_outputs, fp);
     return s;
 }
 
@@ -543,6 +544,7 @@ neural_layer_recurrent_load(struct Layer *l, FILE *fp)
     s += layer_load(l->output_layer, fp);
     l->output = l->output_layer->output;
     l->delta = l->output_layer->delta;
+    s += fread(l->output, sizeof(double), l->n_outputs, fp);
     set_layer_n_biases(l);
     set_layer_n_weights(l);
     return s;
-- 
2.43.0


From b2e65c157fe929accf5f19fe20cb06a4ec03e9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:10:45 +0000
Subject: [PATCH 05/23] fix: copy the current prediction when duplicating a
 classifier

---
 xcsf/cl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcsf/cl.c b/xcsf/cl.c
index 7fa9e44..7175f09 100644
--- a/xcsf/cl.c
+++ b/xcsf/cl.c
@@ -83,7 +83,8 @@ cl_copy(const struct XCSF *xcsf, struct Cl *dest, const struct Cl *src)
 void
 cl_init_copy(const struct XCSF *xcsf, struct Cl *dest, const struct Cl *src)
 {
-    dest->prediction = calloc(xcsf->y_dim, sizeof(double));
+    dest->prediction = malloc(sizeof(double) * xcsf->y_dim);
+    memcpy(dest->prediction, src->prediction, sizeof(double) * xcsf->y_dim);
     dest->fit = src->fit;
     dest->err = src->err;
     dest->num = src->num;
-- 
2.43.0


From a0b85f668e54e4bf563d5f910c73969eefdf4ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:44 +0000
Subject: [PATCH 06/23] fix: resize the prediction array for the loaded
 dimensions

---
 xcsf/xcsf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index 7873924..aec9f1d 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -137,6 +137,8 @@ xcsf_load(struct XCSF *xcsf, const char *filename)
         exit(EXIT_FAILURE);
     }
     s += param_load(xcsf, fp);
+    pa_free(xcsf);
+    pa_init(xcsf);
     s += clset_pset_load(xcsf, fp);
     fclose(fp);
     return s;
-- 
2.43.0


From b7d99da6829d55b29434ebe90689d542afaca14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:53 +0000
Subject: [PATCH 07/23] fix: allocate the loaded number of tree GP constants

---
 xcsf/gp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/gp.c b/xcsf/gp.c
index e558a49..456aba3 100644
--- a/xcsf/gp.c
+++ b/xcsf/gp.c
@@ -527,6 +527,8 @@ tree_args_load(struct ArgsGPTree *args, FILE *fp)
     s += fread(&args->n_constants, sizeof(int), 1, fp);
     s += fread(&args->init_depth, sizeof(int), 1, fp);
     s += fread(&args->max_len, sizeof(int), 1, fp);
+    free(args->constants);
+    args->constants = malloc(sizeof(double) * args->n_constants);
     s += fread(args->constants, sizeof(double), args->n_constants, fp);
     return s;
 }
-- 
2.43.0


From ea2fd87c55fbb4daf58c6be872603f2182af8c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:53 +0000
Subject: [PATCH 08/23] fix: copy the values supplied for covering

---
 xcsf/pybind_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index d90636a..6dabb52 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -569,7 +569,7 @@ class XCS
             memset(xcs.cover, 0, sizeof(double) * xcs.pa_size);
         } else {
             py::array_t<double> cover_arr = cover.cast<py::array_t<double>>();
-            xcs.cover = get_cover(cover_arr);
+            memcpy(xcs.cover, get_cover(cover_arr), sizeof(double) * xcs.y_dim);
         }
     }
 
-- 
2.43.0


From 536f4451598aa94096c54ec32379860566ae81f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:57 +0000
Subject: [PATCH 09/23] fix: free the prediction buffer after it is copied to
 an array

---
 xcsf/pybind_wrapper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 6dabb52..8ca4852 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -601,8 +601,10 @@ class XCS
             (double *) malloc(sizeof(double) * n_samples * xcs.pa_size);
         set_cover(cover);
         xcs_supervised_predict(&xcs, input, output, n_samples, xcs.cover);
-        return py::array_t<double>(
+        py::array_t<double> predictions(
             std::vector<ptrdiff_t>{ n_samples, xcs.pa_size }, output);
+        free(output);
+        return predictions;
     }
 
     /**
-- 
2.43.0


From 58d9075f8e455b2ff525f1601f7b7ce52e1f1783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:14:34 +0000
Subject: [PATCH 10/23] fix: free the exported population string after it is
 copied

---
 xcsf/pybind_wrapper.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xcsf/pybind_wrapper.cpp b/xcsf/pybind_wrapper.cpp
index 8ca4852..56b6a49 100644
--- a/xcsf/pybind_wrapper.cpp
+++ b/xcsf/pybind_wrapper.cpp
@@ -804,12 +804,15 @@ class XCS
      * @param [in] prediction Whether to return the prediction.
      * @return String encoded in json format.
      */
-    const char *
+    std::string
     json_export(const bool condition, const bool action, const bool prediction)
     {
         if (xcs.pset.list != NULL) {
-            return clset_json_export(&xcs, &xcs.pset, condition, action,
-                                     prediction);
+            char *json_str = clset_json_export(&xcs, &xcs.pset, condition,
+                                               action, prediction);
+            const std::string str(json_str);
+            free(json_str);
+            return str;
         }
         return "null";
     }
-- 
2.43.0


From 3714aceb7cd1a95c09c730bf81e001db964a7ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:08 +0000
Subject: [PATCH 11/23] fix: free the layer parameters when their import fails

---
 xcsf/act_neural.c  | 1 +
 xcsf/cond_neural.c | 1 +
 xcsf/pred_neural.c | 1 +
 3 files changed, 3 insertions(+)

diff --git a/xcsf/act_neural.c b/xcsf/act_neural.c
index 22dc30a..cc15981 100644
--- a/xcsf/act_neural.c
+++ b/xcsf/act_neural.c
@@ -311,6 +311,7 @@ act_neural_param_json_import(struct XCSF *xcsf, cJSON *json)
         larg->n_inputs = xcsf->x_dim;
         char *ret = layer_args_json_import(larg, iter->child);
         if (ret != NULL) {
+            free(larg);
             return ret;
         }
         if (xcsf->act->largs == NULL) {
diff --git a/xcsf/cond_neural.c b/xcsf/cond_neural.c
index eb6b3ef..f96d322 100644
--- a/xcsf/cond_neural.c
+++ b/xcsf/cond_neural.c
@@ -359,6 +359,7 @@ cond_neural_param_json_import(struct XCSF *xcsf, cJSON *json)
         larg->n_inputs = xcsf->x_dim;
         char *ret = layer_args_json_import(larg, iter->child);
         if (ret != NULL) {
+            free(larg);
             return ret;
         }
         if (xcsf->cond->largs == NULL) {
diff --git a/xcsf/pred_neural.c b/xcsf/pred_neural.c
index 5a016a3..9682892 100644
--- a/xcsf/pred_neural.c
+++ b/xcsf/pred_neural.c
@@ -471,6 +471,7 @@ pred_neural_param_json_import(struct XCSF *xcsf, cJSON *json)
         larg->n_inputs = xcsf->x_dim;
         char *ret = layer_args_json_import(larg, iter->child);
         if (ret != NULL) {
+            free(larg);
             return ret;
         }
         if (xcsf->pred->largs == NULL) {
-- 
2.43.0


From 3ee615587d64fdd5b729c5882d21710af0513e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:14 +0000
Subject: [PATCH 12/23] fix: free the exported network string after printing

---
 xcsf/neural.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xcsf/neural.c b/xcsf/neural.c
index d345b6e..fd96068 100644
--- a/xcsf/neural.c
+++ b/xcsf/neural.c
@@ -394,7 +394,9 @@ neural_outputs(const struct Net *net)
 void
 neural_print(const struct Net *net, const bool print_weights)
 {
-    printf("%s\n", neural_json_export(net, print_weights));
+    char *json_str = neural_json_export(net, print_weights);
+    printf("%s\n", json_str);
+    free(json_str);
 }
 
 /**
-- 
2.43.0


From 9a980f3499afe0debb6ebd18960a25c700765d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:08 +0000
Subject: [PATCH 13/23] fix: match the whole name of the recurrent layer type

---
 xcsf/neural_layer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/neural_layer.c b/xcsf/neural_layer.c
index d357300..50b5d4a 100644
--- a/xcsf/neural_layer.c
+++ b/xcsf/neural_layer.c
@@ -551,7 +551,7 @@ layer_type_as_int(const char *type)
     if (strncmp(type, STRING_NOISE, 6) == 0) {
         return NOISE;
     }
-    if (strncmp(type, STRING_RECURRENT, 9) == 0) {
+    if (strncmp(type, STRING_RECURRENT, 10) == 0) {
         return RECURRENT;
     }
     if (strncmp(type, STRING_LSTM, 5) == 0) {
-- 
2.43.0


From 6cde5628a9a4ee9f34214ac59017bf9f35d5ec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:17 +0000
Subject: [PATCH 14/23] fix: match the whole recurrent_activation parameter
 name

---
 xcsf/neural_layer_args.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/neural_layer_args.c b/xcsf/neural_layer_args.c
index 7af0d20..4cf3021 100644
--- a/xcsf/neural_layer_args.c
+++ b/xcsf/neural_layer_args.c
@@ -314,7 +314,7 @@ layer_args_json_import_activation(struct ArgsLayer *args, const cJSON *json)
     if (strncmp(json->string, "activation\0", 15) == 0 &&
         cJSON_IsString(json)) {
         args->function = neural_activation_as_int(json->valuestring);
-    } else if (strncmp(json->string, "recurrent_activation\0", 17) == 0 &&
+    } else if (strncmp(json->string, "recurrent_activation\0", 21) == 0 &&
                cJSON_IsString(json)) {
         args->recurrent_function = neural_activation_as_int(json->valuestring);
     } else {
-- 
2.43.0


From 38ec756304846a221392f50aef34883c7616e0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:41 +0000
Subject: [PATCH 15/23] fix: report invalid dimensions instead of ignoring them

---
 xcsf/param.c | 6 +++---
 xcsf/xcsf.c  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xcsf/param.c b/xcsf/param.c
index 5c536b9..62e0ca9 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -56,9 +56,9 @@ param_init(struct XCSF *xcsf, const int x_dim, const int y_dim,
     xcsf->pred = malloc(sizeof(struct ArgsPred));
     xcsf->population_file = malloc(sizeof(char));
     xcsf->population_file[0] = '\0';
-    param_set_n_actions(xcsf, n_actions);
-    param_set_x_dim(xcsf, x_dim);
-    param_set_y_dim(xcsf, y_dim);
+    catch_error(param_set_n_actions(xcsf, n_actions));
+    catch_error(param_set_x_dim(xcsf, x_dim));
+    catch_error(param_set_y_dim(xcsf, y_dim));
     param_set_omp_num_threads(xcsf, 8);
     param_set_random_state(xcsf, -1);
     param_set_pop_init(xcsf, true);
diff --git a/xcsf/xcsf.c b/xcsf/xcsf.c
index aec9f1d..9f7d7f5 100644
--- a/xcsf/xcsf.c
+++ b/xcsf/xcsf.c
@@ -173,7 +173,7 @@ void
 xcsf_ae_to_classifier(struct XCSF *xcsf, const int y_dim, const int n_del)
 {
     pa_free(xcsf);
-    param_set_y_dim(xcsf, y_dim);
+    catch_error(param_set_y_dim(xcsf, y_dim));
     param_set_loss_func(xcsf, LOSS_ONEHOT);
     pa_init(xcsf);
     const struct Clist *iter = xcsf->pset.list;
-- 
2.43.0


From 38298f7a1da1ca94bbffd23b19fc0edf8a076a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:41 +0000
Subject: [PATCH 16/23] fix: set the error target before initialising the
 system error with it

---
 xcsf/param.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/param.c b/xcsf/param.c
index 62e0ca9..95d6f82 100644
--- a/xcsf/param.c
+++ b/xcsf/param.c
@@ -46,7 +46,6 @@ param_init(struct XCSF *xcsf, const int x_dim, const int y_dim,
            const int n_actions)
 {
     xcsf->time = 0;
-    xcsf->error = xcsf->E0;
     xcsf->mset_size = 0;
     xcsf->aset_size = 0;
     xcsf->mfrac = 0;
@@ -68,6 +67,7 @@ param_init(struct XCSF *xcsf, const int x_dim, const int y_dim,
     param_set_loss_func(xcsf, LOSS_MAE);
     param_set_huber_delta(xcsf, 1);
     param_set_e0(xcsf, 0.01);
+    xcsf->error = xcsf->E0;
     param_set_alpha(xcsf, 0.1);
     param_set_nu(xcsf, 5);
     param_set_beta(xcsf, 0.1);
-- 
2.43.0


From 57d722294435381320e16496412e1405af5a1acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:11 +0000
Subject: [PATCH 17/23] fix: reject imported DGP connections to nodes that do
 not exist

The largest valid connection is n + n_inputs - 1; importing n + n_inputs made
the graph read past the end of its node states.
---
 xcsf/dgp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/dgp.c b/xcsf/dgp.c
index 27190e6..9065322 100644
--- a/xcsf/dgp.c
+++ b/xcsf/dgp.c
@@ -458,7 +458,7 @@ graph_json_import_connectivity(struct Graph *dgp, const cJSON *json)
         const int max_c = dgp->n + dgp->n_inputs;
         for (int i = 0; i < dgp->klen; ++i) {
             const cJSON *item_i = cJSON_GetArrayItem(item, i);
-            if (item_i->valueint < 0 || item_i->valueint > max_c) {
+            if (item_i->valueint < 0 || item_i->valueint >= max_c) {
                 printf("Import error: connectivity value out of bounds\n");
                 exit(EXIT_FAILURE);
             }
-- 
2.43.0


From 6616be9f7ea66ac4c347540153c7d58efc6f557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:11 +0000
Subject: [PATCH 18/23] fix: reject imported integer actions that are out of
 range

An action of n_actions or more made the prediction array be written past its
end.
---
 xcsf/act_integer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xcsf/act_integer.c b/xcsf/act_integer.c
index 0924f58..022de88 100644
--- a/xcsf/act_integer.c
+++ b/xcsf/act_integer.c
@@ -270,10 +270,13 @@ void
 act_integer_json_import(const struct XCSF *xcsf, struct Cl *c,
                         const cJSON *json)
 {
-    (void) xcsf;
     struct ActInteger *act = c->act;
     const cJSON *item = cJSON_GetObjectItem(json, "action");
     if (item != NULL && cJSON_IsNumber(item)) {
+        if (item->valueint < 0 || item->valueint >= xcsf->n_actions) {
+            printf("Import error: action out of bounds\n");
+            exit(EXIT_FAILURE);
+        }
         act->action = item->valueint;
     }
     sam_json_import(act->mu, N_MU, json);
-- 
2.43.0


From 18e849de52b40f6e41f501b561850459ce6dfcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:29 +0000
Subject: [PATCH 19/23] fix: give imported DGP graphs their cycle count and
 mutation rates

A description without "t" or "mutation" left both uninitialised.
---
 xcsf/dgp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcsf/dgp.c b/xcsf/dgp.c
index 9065322..a3e1b5e 100644
--- a/xcsf/dgp.c
+++ b/xcsf/dgp.c
@@ -487,6 +487,7 @@ graph_json_import(struct Graph *dgp, const struct ArgsDGP *args,
         dgp->n = n->valueint;
     }
     dgp->n_inputs = args->n_inputs;
+    dgp->t = args->max_t;
     dgp->max_t = args->max_t;
     dgp->max_k = args->max_k;
     dgp->evolve_cycles = args->evolve_cycles;
@@ -498,6 +499,7 @@ graph_json_import(struct Graph *dgp, const struct ArgsDGP *args,
     dgp->function = malloc(sizeof(int) * dgp->n);
     dgp->connectivity = malloc(sizeof(int) * dgp->klen);
     dgp->mu = malloc(sizeof(double) * N_MU);
+    sam_init(dgp->mu, N_MU, MU_TYPE);
     graph_rand(dgp);
     const cJSON *t = cJSON_GetObjectItem(json, "t");
     if (t != NULL) {
-- 
2.43.0


From a7171ad78daf395dd395157794f2340168849fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:16 +0000
Subject: [PATCH 20/23] fix: export the image shape of dropout and noise layers

---
 xcsf/neural_layer_args.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xcsf/neural_layer_args.c b/xcsf/neural_layer_args.c
index 4cf3021..781b4ab 100644
--- a/xcsf/neural_layer_args.c
+++ b/xcsf/neural_layer_args.c
@@ -114,7 +114,8 @@ layer_args_copy(const struct ArgsLayer *src)
 static void
 layer_args_json_export_inputs(cJSON *json, const struct ArgsLayer *args)
 {
-    if (layer_receives_images(args->type)) {
+    const bool images = layer_receives_images(args->type);
+    if (images || args->type == DROPOUT || args->type == NOISE) {
         if (args->height > 0) {
             cJSON_AddNumberToObject(json, "height", args->height);
         }
@@ -124,6 +125,8 @@ layer_args_json_export_inputs(cJSON *json, const struct ArgsLayer *args)
         if (args->channels > 0) {
             cJSON_AddNumberToObject(json, "channels", args->channels);
         }
+    }
+    if (images) {
         if (args->size > 0) {
             cJSON_AddNumberToObject(json, "size", args->size);
         }
-- 
2.43.0


From 826d35bb681628bb9520cfd25785ef7367e7173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:12 +0000
Subject: [PATCH 21/23] fix: covering of rule networks stops only when the rule
 matches and advocates the action

The loops of rule_dgp_act_cover() and rule_neural_act_cover() ended as soon as
either the condition matched or the action was right, so a covering classifier
could fail to match the very input it was created for, or advocate another
action.
---
 xcsf/rule_dgp.c    | 2 +-
 xcsf/rule_neural.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcsf/rule_dgp.c b/xcsf/rule_dgp.c
index e7b77d1..a350d49 100644
--- a/xcsf/rule_dgp.c
+++ b/xcsf/rule_dgp.c
@@ -221,7 +221,7 @@ rule_dgp_act_cover(const struct XCSF *xcsf, const struct Cl *c, const double *x,
     struct RuleDGP *cond = c->cond;
     do {
         graph_rand(&cond->dgp);
-    } while (!rule_dgp_cond_match(xcsf, c, x) &&
+    } while (!rule_dgp_cond_match(xcsf, c, x) ||
              rule_dgp_act_compute(xcsf, c, x) != action);
 }
 
diff --git a/xcsf/rule_neural.c b/xcsf/rule_neural.c
index 9618332..633177a 100644
--- a/xcsf/rule_neural.c
+++ b/xcsf/rule_neural.c
@@ -230,7 +230,7 @@ rule_neural_act_cover(const struct XCSF *xcsf, const struct Cl *c,
     const struct RuleNeural *cond = c->cond;
     do {
         neural_rand(&cond->net);
-    } while (!rule_neural_cond_match(xcsf, c, x) &&
+    } while (!rule_neural_cond_match(xcsf, c, x) ||
              rule_neural_act_compute(xcsf, c, x) != action);
 }
 
-- 
2.43.0


From 3a07fb1bef9f3db3c5de229c520fd07308e8a04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:11 +0000
Subject: [PATCH 22/23] fix: pass the convolutional layer's error through its
 activation when its weights are not trained

---
 xcsf/neural_layer_convolutional.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/neural_layer_convolutional.c b/xcsf/neural_layer_convolutional.c
index 0161341..5bd5006 100644
--- a/xcsf/neural_layer_convolutional.c
+++ b/xcsf/neural_layer_convolutional.c
@@ -301,8 +301,8 @@ neural_layer_convolutional_backward(const struct Layer *l,
     const int m = l->n_filters;
     const int n = l->size * l->size * l->channels;
     const int k = l->out_w * l->out_h;
+    neural_gradient_array(l->state, l->delta, l->n_outputs, l->function);
     if (l->options & LAYER_SGD_WEIGHTS) {
-        neural_gradient_array(l->state, l->delta, l->n_outputs, l->function);
         for (int i = 0; i < l->n_biases; ++i) {
             l->bias_updates[i] += blas_sum(l->delta + k * i, k);
         }
-- 
2.43.0


From f8c6c8b0f961a16f537c3e8b0106edfd0bd7a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:17 +0000
Subject: [PATCH 23/23] fix: insert a layer below the first layer of a network

neural_insert() tested the wrong pointer, so inserting at position 0 of a
non-empty network dereferenced NULL (e.g. pred_expand() of a single layer
prediction).
---
 xcsf/neural.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcsf/neural.c b/xcsf/neural.c
index fd96068..6dd21e0 100644
--- a/xcsf/neural.c
+++ b/xcsf/neural.c
@@ -120,7 +120,7 @@ neural_insert(struct Net *net, struct Layer *l, const int pos)
         } else {
             new->next = iter->next;
             iter->next = new;
-            if (iter->next == NULL) { // new tail
+            if (new->next == NULL) { // new tail
                 net->tail = new;
                 net->n_inputs = l->n_inputs;
             } else { // middle
-- 
2.43.0

