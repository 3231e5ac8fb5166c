CHECK = 'C04'
BROKEN = [
 # 0 noise resize leaks
 [('xcsf/neural_layer_noise.c', "    free_layer_arrays(l);\n    malloc_layer_arrays(l);\n", "    malloc_layer_arrays(l);\n")],
 # 1 lstm mutate neurons leaks arrays
 [('xcsf/neural_layer_lstm.c', "        free_layer_arrays(l);\n        malloc_layer_arrays(l);\n        return true;", "        malloc_layer_arrays(l);\n        return true;")],
 # 2 recurrent: delta/output freed in free arrays (double free with sub-layer)
 [('xcsf/neural_layer_recurrent.c', "    free(l->state);\n    free(l->prev_state);\n    free(l->mu);", "    free(l->state);\n    free(l->output);\n    free(l->prev_state);\n    free(l->mu);")],
 # 3 ea_subsume frees the offspring twice via fall through
 [('xcsf/ea.c', "            ++(xcsf->pset.num);\n            cl_free(xcsf, c);\n        }\n", "            ++(xcsf->pset.num);\n            cl_free(xcsf, c);\n            clset_add(&xcsf->pset, c);\n        }\n")],
 # 4 ea_add: identical offspring leaked
 [('xcsf/ea.c', "        ++(c1p->num);\n        ++(xcsf->pset.num);\n        cl_free(xcsf, c1);\n", "        ++(c1p->num);\n        ++(xcsf->pset.num);\n")],
 # 5 gp crossover frees p1 twice
 [('xcsf/gp.c', "    free(p1->tree);\n    free(p2->tree);\n    p1->tree = new1;", "    free(p1->tree);\n    free(p1->tree);\n    p1->tree = new1;")],
 # 6 tree crossover: free before last use
 [('xcsf/gp.c', "    const int nlen2 = start2 + (end1 - start1) + (len2 - end2);\n", "    free(p1->tree);\n    const int nlen2 = start2 + (end1 - start1) + (len2 - end2);\n"),
  ('xcsf/gp.c', "    free(p1->tree);\n    free(p2->tree);\n    p1->tree = new1;", "    free(p2->tree);\n    p1->tree = new1;")],
 # 7 clset_pset_del frees node before using next
 [('xcsf/clset.c', "        --(xcsf->pset.size);\n        if (delprev == NULL) {", "        --(xcsf->pset.size);\n        free(del);\n        if (delprev == NULL) {"),
  ('xcsf/clset.c', "            delprev->next = del->next;\n        }\n        free(del);", "            delprev->next = del->next;\n        }")],
 # 8 clset_validate: node not freed at head
 [('xcsf/clset.c', "                set->list = iter->next;\n                free(iter);\n                iter = set->list;\n            } else {", "                set->list = iter->next;\n                iter = set->list;\n            } else {")],
 # 9 retrieve without reset of prev_pset: two owners
 [('xcsf/xcsf.c', "    xcsf->pset = xcsf->prev_pset;\n    clset_init(&xcsf->prev_pset);", "    xcsf->pset = xcsf->prev_pset;")],
 # 10 retrieve without killing
 [('xcsf/xcsf.c', "    clset_kill(xcsf, &xcsf->pset);\n    xcsf->pset = xcsf->prev_pset;", "    clset_free(&xcsf->pset);\n    xcsf->pset = xcsf->prev_pset;")],
 # 11 store without killing
 [('xcsf/xcsf.c', "    clset_kill(xcsf, &xcsf->prev_pset);\n    const struct Clist", "    clset_init(&xcsf->prev_pset);\n    const struct Clist")],
 # 12 xcsf_free doesn't kill prev_pset
 [('xcsf/xcsf.c', "    clset_kill(xcsf, &xcsf->prev_pset);\n    pa_free(xcsf);", "    clset_free(&xcsf->prev_pset);\n    pa_free(xcsf);")],
 # 13 xcsf_load: leaks population
 [('xcsf/xcsf.c', "        clset_kill(xcsf, &xcsf->pset);\n        clset_init(&xcsf->pset);", "        clset_free(&xcsf->pset);\n        clset_init(&xcsf->pset);")],
 # 14 xcsf_load no pa_free
 [('xcsf/xcsf.c', "    pa_free(xcsf);\n    pa_init(xcsf);\n    s += clset", "    pa_init(xcsf);\n    s += clset")],
 # 15 neural_remove frees layer without members
 [('xcsf/neural.c', "    --(net->n_layers);\n    layer_free(iter->layer);\n", "    --(net->n_layers);\n")],
 # 16 neural_remove leaks list node
 [('xcsf/neural.c', "    free(iter->layer);\n    free(iter);\n}\n", "    free(iter->layer);\n}\n")],
 # 17 rl end step: prev_aset leaked
 [('xcsf/xcs_rl.c', "    clset_free(&xcsf->prev_aset);\n    xcsf->prev_aset = xcsf->aset;", "    xcsf->prev_aset = xcsf->aset;")],
 # 18 rl end trial kset freed not killed
 [('xcsf/xcs_rl.c', "    clset_kill(xcsf, &xcsf->kset);", "    clset_free(&xcsf->kset);")],
 # 19 rule_dgp import without free
 [('xcsf/rule_dgp.c', "    struct RuleDGP *cond = c->cond;\n    graph_free(&cond->dgp);\n    graph_json_import", "    struct RuleDGP *cond = c->cond;\n    graph_json_import")],
 # 20 connected resize leaks weight_active
 [('xcsf/neural_layer_connected.c', "    free(l->weight_updates);\n    free(l->weight_active);\n    l->weights = weights;", "    free(l->weight_updates);\n    l->weights = weights;")],
 # 21 population file set leak
 [('xcsf/param.c', "    free(xcsf->population_file);\n    size_t length", "    size_t length")],
 # 22 param_free: conditional leak of targs constants
 [('xcsf/condition.c', "    tree_args_free(xcsf->cond->targs);\n", "")],
 # 23 cond_gp cover frees only when ...
 [('xcsf/cond_gp.c', "        tree_free(&cond->gp);\n", "")],
 # 24 prediction leaked in ae_to_classifier
 [('xcsf/xcsf.c', "        free(iter->cl->prediction);\n", "")],
 # 25 subsumption adds subsumed twice to the kill set
 [('xcsf/clset.c', "                c->num = 0;\n                clset_add(&xcsf->kset, c);", "                c->num = 0;\n                clset_add(&xcsf->kset, c);\n                clset_add(&xcsf->kset, c);")],
 # 26 subsumption frees at once (still in list)
 [('xcsf/clset.c', "                c->num = 0;\n                clset_add(&xcsf->kset, c);", "                c->num = 0;\n                cl_free(xcsf, c);")],
 # 27 layer args free leaves list
 [('xcsf/prediction.c', "    layer_args_free(&xcsf->pred->largs);", "    free(xcsf->pred->largs);")],
 # 28 args load loses the old list
 [('xcsf/neural_layer_args.c', "    layer_args_free(largs);\n", "    *largs = NULL;\n")],
 # 29 clset_kill doesn't advance properly: use after free
 [('xcsf/clset.c', "        cl_free(xcsf, iter->cl);\n        set->list = iter->next;\n        free(iter);\n        iter = set->list;", "        cl_free(xcsf, iter->cl);\n        free(iter);\n        set->list = iter->next;\n        iter = set->list;")],
 # 30 recurrent free: one sub-layer members leaked
 [('xcsf/neural_layer_recurrent.c', "    layer_free(l->self_layer);\n", "")],
 # 31 tree_args_init_constants leaks if n_constants
 [('xcsf/gp.c', "    if (args->constants != NULL) {\n        free(args->constants);", "    if (args->n_constants < 1) {\n        free(args->constants);")],
 # 32 xcsf_free loses prev pset only if pset non-empty
 [('xcsf/xcsf.c', "    clset_kill(xcsf, &xcsf->prev_pset);\n    pa_free(xcsf);", "    if (xcsf->pset.size > 0) {\n        clset_kill(xcsf, &xcsf->prev_pset);\n    }\n    pa_free(xcsf);")],
 # 33 cl_free: prediction released after the classifier
 [('xcsf/cl.c', "    free(c->prediction);\n    cond_free(xcsf, c);\n    act_free(xcsf, c);\n    pred_free(xcsf, c);\n    free(c);", "    cond_free(xcsf, c);\n    act_free(xcsf, c);\n    pred_free(xcsf, c);\n    free(c);\n    free(c->prediction);")],
 # 34 supervised trial: kset freed w/o classifiers
 [('xcsf/xcs_supervised.c', "    clset_free(&xcsf->mset);", "    clset_kill(xcsf, &xcsf->mset);")],
 # 35 neural free: only if layers
 [('xcsf/neural.c', "        layer_free(iter->layer);\n        free(iter->layer);\n        net->tail = iter->prev;", "        layer_free(iter->layer);\n        if (iter->layer->n_weights > 0) {\n            free(iter->layer);\n        }\n        net->tail = iter->prev;")],
 # 36 temp buffer of conv not freed
 [('xcsf/neural_layer_convolutional.c', "    free(l->bias_updates);\n    free(l->temp);\n", "    free(l->bias_updates);\n")],
 # 37 dgp import frees after failing: connectivity replaced without free
 [('xcsf/act_neural.c', "    layer_args_free(&xcsf->act->largs);\n    for", "    xcsf->act->largs = NULL;\n    for")],
]
KEPT = [
 # 0 reorder frees
 [('xcsf/dgp.c', "    free(dgp->connectivity);\n    free(dgp->state);\n", "    free(dgp->state);\n    free(dgp->connectivity);\n")],
 # 1 helper for node removal
 [('xcsf/clset.c', "        --(xcsf->pset.size);\n        if (delprev == NULL) {\n            xcsf->pset.list = del->next;\n        } else {\n            delprev->next = del->next;\n        }\n        free(del);", "        --(xcsf->pset.size);\n        struct Clist *after = del->next;\n        free(del);\n        if (delprev != NULL) {\n            delprev->next = after;\n        } else {\n            xcsf->pset.list = after;\n        }")],
 # 2 kill with saved next
 [('xcsf/clset.c', "        cl_free(xcsf, iter->cl);\n        set->list = iter->next;\n        free(iter);\n        iter = set->list;\n    }", "        struct Clist *next = iter->next;\n        cl_free(xcsf, iter->cl);\n        free(iter);\n        iter = next;\n    }\n    set->list = NULL;")],
 # 3 for loop in clset_free
 [('xcsf/clset.c', "    struct Clist *iter = set->list;\n    while (iter != NULL) {\n        set->list = iter->next;\n        free(iter);\n        iter = set->list;\n    }\n    set->size = 0;\n    set->num = 0;\n}\n\n/**\n * @brief Frees the set and", "    while (set->list != NULL) {\n        struct Clist *head = set->list;\n        set->list = head->next;\n        free(head);\n    }\n    set->size = 0;\n    set->num = 0;\n}\n\n/**\n * @brief Frees the set and")],
 # 4 layer_args_free with local
 [('xcsf/neural_layer_args.c', "    while (*largs != NULL) {\n        struct ArgsLayer *arg = *largs;\n        *largs = (*largs)->next;\n        free(arg);\n    }", "    struct ArgsLayer *arg = *largs;\n    while (arg != NULL) {\n        struct ArgsLayer *next = arg->next;\n        free(arg);\n        arg = next;\n    }\n    *largs = NULL;")],
 # 5 gp crossover local pointers for the old trees
 [('xcsf/gp.c', "    free(p1->tree);\n    free(p2->tree);\n    p1->tree = new1;\n    p2->tree = new2;\n", "    int *old1 = p1->tree;\n    int *old2 = p2->tree;\n    p1->tree = new1;\n    p2->tree = new2;\n    free(old1);\n    free(old2);\n")],
 # 6 noise resize: realloc
 [('xcsf/neural_layer_noise.c', "    free_layer_arrays(l);\n    malloc_layer_arrays(l);\n", "    l->output = realloc(l->output, sizeof(double) * l->n_outputs);\n    l->delta = realloc(l->delta, sizeof(double) * l->n_outputs);\n    l->state = realloc(l->state, sizeof(double) * l->n_outputs);\n")],
 # 7 ea: single exit for frees
 [('xcsf/ea.c', "    if (!cmod && !mmod) {\n        ++(c1p->num);\n        ++(xcsf->pset.num);\n        cl_free(xcsf, c1);\n    } else if", "    const bool unchanged = !(cmod || mmod);\n    if (unchanged) {\n        cl_free(xcsf, c1);\n        ++(c1p->num);\n        ++(xcsf->pset.num);\n    } else if")],
 # 8 neural_free via head
 [('xcsf/neural.c', "    struct Llist *iter = net->tail;\n    while (iter != NULL) {\n        layer_free(iter->layer);\n        free(iter->layer);\n        net->tail = iter->prev;\n        free(iter);\n        iter = net->tail;\n        --(net->n_layers);\n    }", "    struct Llist *iter = net->tail;\n    while (iter != NULL) {\n        struct Llist *prev = iter->prev;\n        struct Layer *l = iter->layer;\n        layer_free(l);\n        free(l);\n        free(iter);\n        iter = prev;\n    }\n    net->tail = NULL;\n    net->head = NULL;\n    net->n_layers = 0;")],
 # 9 xcsf_load using NULL test
 [('xcsf/xcsf.c', "    if (xcsf->pset.size > 0) {\n        clset_kill(xcsf, &xcsf->pset);\n        clset_init(&xcsf->pset);\n    }", "    clset_kill(xcsf, &xcsf->pset);")],
 # 10 lstm frees helper loop-free reorder
 [('xcsf/neural_layer_lstm.c', "    layer_free(l->uf);\n    layer_free(l->ui);\n", "    layer_free(l->uf);\n    free(l->uf);\n    layer_free(l->ui);\n"), ('xcsf/neural_layer_lstm.c', "    free(l->uf);\n    free(l->ui);\n    free(l->ug);", "    free(l->ui);\n    free(l->ug);")],
]
