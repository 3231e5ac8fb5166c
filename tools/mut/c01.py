CHECK = 'C01'
X='xcsf/'
BROKEN = [
 # param order swap of same sized items
 [(X+'param.c', "    s += fread(&xcsf->INIT_FITNESS, sizeof(double), 1, fp);\n    s += fread(&xcsf->INIT_ERROR, sizeof(double), 1, fp);\n", "    s += fread(&xcsf->INIT_ERROR, sizeof(double), 1, fp);\n    s += fread(&xcsf->INIT_FITNESS, sizeof(double), 1, fp);\n")],
 # both sides drop an item
 [(X+'param.c', "    s += fwrite(&xcsf->NU, sizeof(double), 1, fp);\n", ""), (X+'param.c', "    s += fread(&xcsf->NU, sizeof(double), 1, fp);\n", "")],
 # replaced after loading
 [(X+'param.c', "    loss_set_func(xcsf);\n    return s;", "    loss_set_func(xcsf);\n    xcsf->explore = false;\n    return s;")],
 [(X+'xcsf.c', "    s += clset_pset_load(xcsf, fp);\n", "    s += clset_pset_load(xcsf, fp);\n    xcsf->time = 0;\n")],
 [(X+'clset.c', "    for (int i = 0; i < size; ++i) {\n        struct Cl *c = malloc", "    for (int i = 1; i < size; ++i) {\n        struct Cl *c = malloc")],
 [(X+'clset.c', "        s += cl_load(xcsf, c, fp);\n        clset_add", "        s += cl_load(xcsf, c, fp);\n        c->exp = 0;\n        clset_add")],
 [(X+'clset.c', "    clset_pset_reverse(xcsf); // reverse population list for consistency\n", "")],
 [(X+'cl.c', "s += fread(&c->age, sizeof(int), 1, fp);\n    s += fread(&c->mtotal, sizeof(int), 1, fp);", "s += fread(&c->mtotal, sizeof(int), 1, fp);\n    s += fread(&c->age, sizeof(int), 1, fp);")],
 [(X+'cl.c', "    s += act_load(xcsf, c, fp);\n    s += pred_load(xcsf, c, fp);\n", "    s += pred_load(xcsf, c, fp);\n    s += act_load(xcsf, c, fp);\n")],
 [(X+'cl.c', "s += fread(&c->num, sizeof(int), 1, fp);", "s += fread(&c->num, sizeof(int), 1, fp);\n    c->num = 1;")],
 [(X+'neural.c', "    const struct Llist *iter = net->tail;\n    while (iter != NULL) {\n        s += layer_save(iter->layer, fp);\n        iter = iter->prev;", "    const struct Llist *iter = net->head;\n    while (iter != NULL) {\n        s += layer_save(iter->layer, fp);\n        iter = iter->next;")],
 [(X+'neural_layer_lstm.c', "    s += layer_load(l->uf, fp);\n    s += layer_load(l->ui, fp);\n", "    s += layer_load(l->ui, fp);\n    s += layer_load(l->uf, fp);\n")],
 [(X+'neural_layer_lstm.c', "    s += fwrite(l->c, sizeof(double), l->n_outputs, fp);\n    s += fwrite(l->h, sizeof(double), l->n_outputs, fp);\n", "    s += fwrite(l->h, sizeof(double), l->n_outputs, fp);\n    s += fwrite(l->c, sizeof(double), l->n_outputs, fp);\n")],
 [(X+'neural_layer_connected.c', "    s += fwrite(l->weights, sizeof(double), l->n_weights, fp);\n    s += fwrite(l->weight_active, sizeof(bool), l->n_weights, fp);\n", "    s += fwrite(l->weights, sizeof(double), l->n_active, fp);\n    s += fwrite(l->weight_active, sizeof(bool), l->n_weights, fp);\n")],
 [(X+'neural_layer_connected.c', "    s += fread(l->bias_updates, sizeof(double), l->n_biases, fp);\n    s += fread(l->weight_updates, sizeof(double), l->n_weights, fp);\n", "    s += fread(l->weight_updates, sizeof(double), l->n_weights, fp);\n    s += fread(l->bias_updates, sizeof(double), l->n_biases, fp);\n")],
 [(X+'neural_layer_recurrent.c', "    s += fread(l->state, sizeof(double), l->n_outputs, fp);\n    s += fread(l->prev_state, sizeof(double), l->n_outputs, fp);\n", "    s += fread(l->prev_state, sizeof(double), l->n_outputs, fp);\n    s += fread(l->state, sizeof(double), l->n_outputs, fp);\n")],
 [(X+'pred_rls.c', "    const int n_sqrd = pred->n * pred->n;\n    s += fread(pred->matrix, sizeof(double), n_sqrd, fp);", "    const int n_sqrd = pred->n * pred->n;\n    s += fread(pred->matrix, sizeof(double), n_sqrd, fp);\n    init_matrix(xcsf, c);")] if False else
 [(X+'pred_rls.c', "    const int n_sqrd = pred->n * pred->n;\n    s += fread(pred->matrix, sizeof(double), n_sqrd, fp);", "    const int n_sqrd = pred->n * pred->n;\n    s += fread(pred->matrix, sizeof(double), n_sqrd, fp);\n    for (int i = 0; i < pred->n; ++i) {\n        pred->matrix[i * pred->n + i] = xcsf->pred->scale_factor;\n    }")],
 [(X+'pred_nlms.c', "    s += fread(&pred->eta, sizeof(double), 1, fp);\n    return s;", "    s += fread(&pred->eta, sizeof(double), 1, fp);\n    pred->eta = xcsf->pred->eta;\n    return s;")],
 [(X+'gp.c', "    s += fwrite(args->constants, sizeof(double), args->n_constants, fp);", "    s += fwrite(args->constants, sizeof(double), args->n_inputs, fp);")],
 [(X+'gp.c', "    s += fwrite(args->constants, sizeof(double), args->n_constants, fp);\n", ""), (X+'gp.c', "    args->constants = malloc(sizeof(double) * args->n_constants);\n    s += fread(args->constants, sizeof(double), args->n_constants, fp);\n", "    args->constants = NULL;\n    tree_args_init_constants(args);\n")],
 [(X+'dgp.c', "    s += fread(dgp->state, sizeof(double), dgp->n, fp);\n    s += fread(dgp->initial_state, sizeof(double), dgp->n, fp);\n", "    s += fread(dgp->initial_state, sizeof(double), dgp->n, fp);\n    s += fread(dgp->state, sizeof(double), dgp->n, fp);\n")],
 [(X+'neural_layer_args.c', "        s += fread(&arg->momentum, sizeof(double), 1, fp);\n        s += fread(&arg->decay, sizeof(double), 1, fp);\n", "        s += fread(&arg->decay, sizeof(double), 1, fp);\n        s += fread(&arg->momentum, sizeof(double), 1, fp);\n")],
 [(X+'neural_layer_args.c', "            struct ArgsLayer *iter = *largs;\n            while (iter->next != NULL) {\n                iter = iter->next;\n            }\n            iter->next = arg;", "            arg->next = *largs;\n            *largs = arg;")],
 [(X+'cond_ternary.c', "    s += fwrite(cond->string, sizeof(char), cond->length, fp);", "    s += fwrite(cond->string, sizeof(char), xcsf->x_dim, fp);")],
 [(X+'cond_rectangle.c', "    s += fwrite(cond->b1, sizeof(double), xcsf->x_dim, fp);\n    s += fwrite(cond->b2, sizeof(double), xcsf->x_dim, fp);", "    s += fwrite(cond->b2, sizeof(double), xcsf->x_dim, fp);\n    s += fwrite(cond->b1, sizeof(double), xcsf->x_dim, fp);")],
 [(X+'ea.c', "    s += fwrite(&xcsf->ea->subsumption, sizeof(bool), 1, fp);\n    s += fwrite(&xcsf->ea->pred_reset, sizeof(bool), 1, fp);", "    s += fwrite(&xcsf->ea->pred_reset, sizeof(bool), 1, fp);\n    s += fwrite(&xcsf->ea->subsumption, sizeof(bool), 1, fp);")],
 [(X+'xcsf.c', "    s += fwrite(&VERSION_BUILD, sizeof(int), 1, fp);\n", "")],
 [(X+'xcsf.c', 'fopen(filename, "wb")', 'fopen(filename, "ab")')],
 [(X+'rule_neural.c', "return neural_save(", "return 0; neural_save(")] if False else
 [(X+'neural_layer_dropout.c', "    s += fread(&l->scale, sizeof(double), 1, fp);", "    s += fread(&l->scale, sizeof(double), 1, fp);\n    l->scale = 1. / (1. - l->probability);\n    l->probability = 0.5;")],
 [(X+'param.c', "size_t len = strnlen(xcsf->population_file, MAX_LEN) + 1;", "size_t len = strnlen(xcsf->population_file, MAX_LEN);")],
]
KEPT = [
 # helpers extracted
 [(X+'cl.c', "size_t\ncl_load(const struct XCSF *xcsf, struct Cl *c, FILE *fp)\n{\n    size_t s = 0;\n    s += fread(&c->err, sizeof(double), 1, fp);\n    s += fread(&c->fit, sizeof(double), 1, fp);\n", "static size_t\nrd(double *p, FILE *fp)\n{\n    return fread(p, sizeof(double), 1, fp);\n}\nsize_t\ncl_load(const struct XCSF *xcsf, struct Cl *c, FILE *fp)\n{\n    size_t s = rd(&c->err, fp);\n    s += rd(&c->fit, fp);\n")],
 [(X+'clset.c', "    for (int i = 0; i < size; ++i) {\n        struct Cl *c = malloc", "    int k = size;\n    while (k-- > 0) {\n        struct Cl *c = malloc")],
 [(X+'clset.c', "    const struct Clist *iter = xcsf->pset.list;\n    while (iter != NULL) {\n        s += cl_save(xcsf, iter->cl, fp);\n        iter = iter->next;\n    }", "    for (const struct Clist *it = xcsf->pset.list; it != NULL; it = it->next) {\n        s += cl_save(xcsf, it->cl, fp);\n    }")],
 # reorder both sides
 [(X+'param.c', "    s += fread(&xcsf->INIT_FITNESS, sizeof(double), 1, fp);\n    s += fread(&xcsf->INIT_ERROR, sizeof(double), 1, fp);\n", "    s += fread(&xcsf->INIT_ERROR, sizeof(double), 1, fp);\n    s += fread(&xcsf->INIT_FITNESS, sizeof(double), 1, fp);\n"),
  (X+'param.c', "    s += fwrite(&xcsf->INIT_FITNESS, sizeof(double), 1, fp);\n    s += fwrite(&xcsf->INIT_ERROR, sizeof(double), 1, fp);\n", "    s += fwrite(&xcsf->INIT_ERROR, sizeof(double), 1, fp);\n    s += fwrite(&xcsf->INIT_FITNESS, sizeof(double), 1, fp);\n")],
 # read into local then assign
 [(X+'neural_layer_connected.c', "    s += fread(&l->eta, sizeof(double), 1, fp);\n", "    double eta = 0;\n    s += fread(&eta, sizeof(double), 1, fp);\n    l->eta = eta;\n")],
 # element-wise writing
 [(X+'pred_rls.c', "    s += fwrite(pred->weights, sizeof(double), pred->n_weights, fp);", "    for (int i = 0; i < pred->n_weights; ++i) {\n        s += fwrite(&pred->weights[i], sizeof(double), 1, fp);\n    }"), (X+'pred_rls.c', "    s += fread(pred->weights, sizeof(double), pred->n_weights, fp);", "    for (int i = 0; i < pred->n_weights; ++i) {\n        s += fread(&pred->weights[i], sizeof(double), 1, fp);\n    }")],
 [(X+'pred_rls.c', "    s += fwrite(pred->weights, sizeof(double), pred->n_weights, fp);", "    for (int i = 0; i < pred->n_weights; ++i) {\n        s += fwrite(&pred->weights[i], sizeof(double), 1, fp);\n    }")],
 # list append with a tail pointer
 [(X+'neural_layer_args.c', "        if (*largs == NULL) {\n            *largs = arg;\n        } else {\n            struct ArgsLayer *iter = *largs;\n            while (iter->next != NULL) {\n                iter = iter->next;\n            }\n            iter->next = arg;\n        }\n    }\n    return s;", "        struct ArgsLayer **end = largs;\n        while (*end != NULL) {\n            end = &(*end)->next;\n        }\n        *end = arg;\n    }\n    return s;")],
 [(X+'neural_layer_args.c', "    for (int i = 0; i < n; ++i) {\n        struct ArgsLayer *arg = malloc(sizeof(struct ArgsLayer));\n        layer_args_init(arg);", "    struct ArgsLayer *tail = NULL;\n    for (int i = 0; i < n; ++i) {\n        struct ArgsLayer *arg = malloc(sizeof(struct ArgsLayer));\n        layer_args_init(arg);"), (X+'neural_layer_args.c', "        if (*largs == NULL) {\n            *largs = arg;\n        } else {\n            struct ArgsLayer *iter = *largs;\n            while (iter->next != NULL) {\n                iter = iter->next;\n            }\n            iter->next = arg;\n        }\n    }\n    return s;", "        if (tail == NULL) {\n            *largs = arg;\n        } else {\n            tail->next = arg;\n        }\n        tail = arg;\n    }\n    return s;")],
 # error check on short read
 [(X+'cl.c', "    s += cond_load(xcsf, c, fp);\n    return s;", "    s += cond_load(xcsf, c, fp);\n    if (s == 0) {\n        printf(\"nothing read\\n\");\n        exit(EXIT_FAILURE);\n    }\n    return s;")],
 [(X+'xcsf.c', "    int major = 0;\n    int minor = 0;\n    int build = 0;\n    s += fread(&major, sizeof(int), 1, fp);\n    s += fread(&minor, sizeof(int), 1, fp);\n    s += fread(&build, sizeof(int), 1, fp);\n    if (major != VERSION_MAJOR || minor != VERSION_MINOR) {", "    int v[3] = { 0, 0, 0 };\n    s += fread(v, sizeof(int), 3, fp);\n    const int major = v[0];\n    const int minor = v[1];\n    if (major != VERSION_MAJOR || minor != VERSION_MINOR) {")],
 # allocation helper
 [(X+'dgp.c', "    dgp->mu = malloc(sizeof(double) * N_MU);\n    s += fread(dgp->state", "    dgp->mu = calloc(N_MU, sizeof(double));\n    s += fread(dgp->state")],
 [(X+'neural_layer_convolutional.c', "    s += fwrite(l->bias_updates, sizeof(double), l->n_filters, fp);", "    s += fwrite(l->bias_updates, sizeof(double), l->n_biases, fp);")],
 [(X+'cond_rectangle.c', "    s += fread(new->b1, sizeof(double), xcsf->x_dim, fp);\n", "    const int n = xcsf->x_dim;\n    s += fread(new->b1, sizeof(double), n, fp);\n")],
 [(X+'xcsf.c', "    s += param_load(xcsf, fp);\n    pa_free(xcsf);\n    pa_init(xcsf);\n    s += clset_pset_load(xcsf, fp);\n", "    pa_free(xcsf);\n    s += param_load(xcsf, fp);\n    pa_init(xcsf);\n    const size_t n_pop = clset_pset_load(xcsf, fp);\n    s += n_pop;\n")],
 [(X+'clset.c', "    for (int i = 0; i < size; ++i) {\n        struct Cl *c = malloc(sizeof(struct Cl));\n        s += cl_load(xcsf, c, fp);\n        clset_add(&xcsf->pset, c);\n    }\n    clset_pset_reverse(xcsf); // reverse population list for consistency\n", "    struct Clist **end = &xcsf->pset.list;\n    for (int i = 0; i < size; ++i) {\n        struct Cl *c = malloc(sizeof(struct Cl));\n        s += cl_load(xcsf, c, fp);\n        *end = malloc(sizeof(struct Clist));\n        (*end)->cl = c;\n        (*end)->next = NULL;\n        end = &(*end)->next;\n        ++xcsf->pset.size;\n        xcsf->pset.num += c->num;\n    }\n"),(X+'clset.c',"""/**
 * @brief Reverses the order of the population classifier list.
 * @param [in] xcsf The XCSF data structure.
 */
static void
clset_pset_reverse(struct XCSF *xcsf)
{
    struct Clist *current = xcsf->pset.list;
    struct Clist *prev = NULL;
    struct Clist *next = NULL;
    while (current != NULL) {
        next = current->next;
        current->next = prev;
        prev = current;
        current = next;
    }
    xcsf->pset.list = prev;
}
""","")],
 [(X+'neural.c', "    for (int i = 0; i < nlayers; ++i) {\n        struct Layer *l = malloc(sizeof(struct Layer));\n        s += layer_load(l, fp);\n        neural_push(net, l);\n    }", "    int left = nlayers;\n    while (left > 0) {\n        struct Layer *l = malloc(sizeof(struct Layer));\n        s += layer_load(l, fp);\n        neural_insert(net, l, net->n_layers);\n        left--;\n    }")],
]
