CHECK = 'C03'
X='xcsf/'
BROKEN = [
 [(X+'cl.c', "    memcpy(dest->prediction, src->prediction, sizeof(double) * xcsf->y_dim);\n    dest->fit", "    memcpy(dest->prediction, src->prediction, sizeof(double));\n    dest->fit")],
 [(X+'cl.c', "    dest->mtotal = src->mtotal;\n", "    dest->mtotal = src->age;\n")],
 [(X+'cl.c', "    dest->num = src->num;\n    dest->exp", "    dest->num = 1;\n    dest->exp")],
 [(X+'cl.c', "    dest->time = src->time;\n    dest->action", "    dest->time = xcsf->time;\n    dest->action")],
 [(X+'cl.c', "    cond_copy(xcsf, dest, src);\n    pred_copy(xcsf, dest, src);\n}", "    cond_copy(xcsf, dest, src);\n    pred_init(xcsf, dest);\n}")],
 [(X+'gp.c', "    dest->tree = malloc(sizeof(int) * src->len);\n    memcpy(dest->tree, src->tree, sizeof(int) * src->len);\n", "    dest->tree = src->tree;\n")],
 [(X+'gp.c', "    memcpy(dest->mu, src->mu, sizeof(double) * N_MU);\n}", "    sam_init(dest->mu, N_MU, MU_TYPE);\n}")],
 [(X+'dgp.c', "    memcpy(dest->connectivity, src->connectivity, sizeof(int) * src->klen);\n    memcpy(dest->mu", "    memcpy(dest->connectivity, src->connectivity, sizeof(int) * src->n);\n    memcpy(dest->mu")],
 [(X+'dgp.c', "    memcpy(dest->initial_state, src->initial_state, sizeof(double) * src->n);\n", "    memcpy(dest->initial_state, src->state, sizeof(double) * src->n);\n")],
 [(X+'dgp.c', "    dest->t = src->t;\n", "    dest->t = src->max_t;\n")],
 [(X+'neural_layer_connected.c', "    l->eta = src->eta;\n    l->eta_max = src->eta_max;", "    l->eta = src->eta_max;\n    l->eta_max = src->eta_max;")],
 [(X+'neural_layer_connected.c', "    memcpy(l->weight_active, src->weight_active, sizeof(bool) * src->n_weights);\n    memcpy(l->mu", "    memset(l->weight_active, true, sizeof(bool) * src->n_weights);\n    memcpy(l->mu")],
 [(X+'neural_layer_connected.c', "    memcpy(l->weights, src->weights, sizeof(double) * src->n_weights);\n    memcpy(l->weight_active", "    memcpy(l->weights, src->weights, sizeof(double) * src->n_active);\n    memcpy(l->weight_active")],
 [(X+'neural_layer_lstm.c', "    l->ug = layer_copy(src->ug);", "    l->ug = layer_copy(src->uo);")],
 [(X+'neural_layer_lstm.c', "    l->wo = layer_copy(src->wo);", "    l->wo = src->wo;")],
 [(X+'neural_layer_recurrent.c', "    l->output = l->output_layer->output;\n    l->delta = l->output_layer->delta;\n    malloc_layer_arrays(l);\n    memcpy", "    l->output = src->output;\n    l->delta = l->output_layer->delta;\n    malloc_layer_arrays(l);\n    memcpy")],
 [(X+'neural_layer_dropout.c', "    l->probability = src->probability;\n    l->scale = src->scale;", "    l->probability = src->probability;\n    l->scale = src->probability;")],
 [(X+'neural_layer_maxpool.c', "    l->pad = src->pad;\n    l->size = src->size;", "    l->size = src->size;")],
 [(X+'neural.c', "    const struct Llist *iter = src->tail;\n    while (iter != NULL) {\n        struct Layer *l = layer_copy(iter->layer);\n        neural_push(dest, l);\n        iter = iter->prev;\n    }", "    const struct Llist *iter = src->head;\n    while (iter != NULL) {\n        struct Layer *l = layer_copy(iter->layer);\n        neural_push(dest, l);\n        iter = iter->next;\n    }")],
 [(X+'neural.c', "        struct Layer *l = layer_copy(iter->layer);\n        neural_push(dest, l);", "        struct Layer *l = iter->layer;\n        neural_push(dest, l);")],
 [(X+'cond_rectangle.c', "    memcpy(new->b2, src_cond->b2, sizeof(double) * xcsf->x_dim);\n    memcpy(new->mu", "    memcpy(new->b2, src_cond->b1, sizeof(double) * xcsf->x_dim);\n    memcpy(new->mu")],
 [(X+'cond_ternary.c', "    new->mu = malloc(sizeof(double) * N_MU);\n    memcpy(new->string, src_cond->string, sizeof(char) * src_cond->length);\n    memcpy(new->mu, src_cond->mu, sizeof(double) * N_MU);", "    new->mu = src_cond->mu;\n    memcpy(new->string, src_cond->string, sizeof(char) * src_cond->length);")],
 [(X+'pred_nlms.c', "    dest_pred->eta = src_pred->eta;\n}", "}")],
 [(X+'pred_rls.c', "           sizeof(double) * src_pred->n_weights);\n}", "           sizeof(double) * src_pred->n);\n}")],
 [(X+'rule_dgp.c', "    new->n_outputs = src_cond->n_outputs;\n    dest->cond", "    dest->cond")],
 [(X+'act_integer.c', "    new->action = src_act->action;\n    new->mu", "    new->action = src->action;\n    new->mu")],
 [(X+'clset.c', "BOGUS", "")] if False else
 [(X+'xcsf.c', "        struct Cl *new = malloc(sizeof(struct Cl));\n        const struct Cl *src = iter->cl;\n        cl_init_copy(xcsf, new, src);\n        clset_add(&xcsf->prev_pset, new);", "        clset_add(&xcsf->prev_pset, iter->cl);")],
]
KEPT = [
 [(X+'cl.c', "    memcpy(dest->prediction, src->prediction, sizeof(double) * xcsf->y_dim);\n    dest->fit", "    for (int i = 0; i < xcsf->y_dim; ++i) {\n        dest->prediction[i] = src->prediction[i];\n    }\n    dest->fit")],
 [(X+'gp.c', "    dest->tree = malloc(sizeof(int) * src->len);\n    memcpy(dest->tree, src->tree, sizeof(int) * src->len);\n", "    int *t = malloc(sizeof(int) * dest->len);\n    for (int i = dest->len - 1; i >= 0; --i) {\n        t[i] = src->tree[i];\n    }\n    dest->tree = t;\n")],
 [(X+'cond_rectangle.c', "    new->b1 = malloc(sizeof(double) * xcsf->x_dim);\n    new->b2 = malloc(sizeof(double) * xcsf->x_dim);\n    new->mu = malloc(sizeof(double) * N_MU);\n    memcpy(new->b1, src_cond->b1, sizeof(double) * xcsf->x_dim);\n    memcpy(new->b2, src_cond->b2, sizeof(double) * xcsf->x_dim);\n    memcpy(new->mu, src_cond->mu, sizeof(double) * N_MU);\n    dest->cond = new;", "    const size_t n = sizeof(double) * xcsf->x_dim;\n    dest->cond = new;\n    new->b1 = dup_block(src_cond->b1, n);\n    new->b2 = dup_block(src_cond->b2, n);\n    new->mu = dup_block(src_cond->mu, sizeof(double) * N_MU);"), (X+'cond_rectangle.c', "/**\n * @brief Creates and initialises a hyperrectangle condition.", "static void *\ndup_block(const void *src, const size_t n)\n{\n    void *p = malloc(n);\n    memcpy(p, src, n);\n    return p;\n}\n\n/**\n * @brief Creates and initialises a hyperrectangle condition.")],
 [(X+'neural_layer_connected.c', "    l->type = src->type;\n    l->layer_vptr = src->layer_vptr;\n    l->function = src->function;\n    l->n_inputs = src->n_inputs;\n    l->n_outputs = src->n_outputs;\n    l->max_outputs = src->max_outputs;\n    l->out_c = src->out_c;\n    l->out_h = src->out_h;\n    l->out_w = src->out_w;\n    l->n_weights = src->n_weights;\n    l->n_biases = src->n_biases;\n    l->options = src->options;\n    l->eta = src->eta;\n    l->eta_max = src->eta_max;\n    l->eta_min = src->eta_min;\n    l->momentum = src->momentum;\n    l->decay = src->decay;\n    l->max_neuron_grow = src->max_neuron_grow;\n    l->n_active = src->n_active;\n    malloc_layer_arrays(l);\n    memcpy(l->biases", "    *l = *src;\n    malloc_layer_arrays(l);\n    memcpy(l->biases")],
 [(X+'neural_layer_dropout.c', "    layer_defaults(l);\n    l->type = src->type;\n", "    memcpy(l, src, sizeof(struct Layer));\n    l->type = src->type;\n")],
 [(X+'neural.c', "    const struct Llist *iter = src->tail;\n    while (iter != NULL) {\n        struct Layer *l = layer_copy(iter->layer);\n        neural_push(dest, l);\n        iter = iter->prev;\n    }", "    for (const struct Llist *it = src->tail; it != NULL; it = it->prev) {\n        neural_push(dest, layer_copy(it->layer));\n    }")],
 [(X+'neural.c', "    const struct Llist *iter = src->tail;\n    while (iter != NULL) {\n        struct Layer *l = layer_copy(iter->layer);\n        neural_push(dest, l);\n        iter = iter->prev;\n    }", "    const struct Llist *iter = src->tail;\n    for (int i = 0; i < src->n_layers && iter != NULL; ++i) {\n        struct Layer *l = layer_copy(iter->layer);\n        neural_push(dest, l);\n        iter = iter->prev;\n    }")],
 [(X+'pred_nlms.c', "    pred_nlms_init(xcsf, dest);\n    struct PredNLMS *dest_pred = dest->pred;\n    const struct PredNLMS *src_pred = src->pred;\n    memcpy(dest_pred->weights, src_pred->weights,\n           sizeof(double) * src_pred->n_weights);\n    memcpy(dest_pred->mu, src_pred->mu, sizeof(double) * N_MU);\n    dest_pred->eta = src_pred->eta;", "    const struct PredNLMS *src_pred = src->pred;\n    struct PredNLMS *p = malloc(sizeof(struct PredNLMS));\n    dest->pred = p;\n    p->n = src_pred->n;\n    p->n_weights = src_pred->n_weights;\n    p->weights = malloc(sizeof(double) * p->n_weights);\n    p->mu = malloc(sizeof(double) * N_MU);\n    p->tmp_input = malloc(sizeof(double) * p->n);\n    memcpy(p->weights, src_pred->weights, sizeof(double) * p->n_weights);\n    memcpy(p->mu, src_pred->mu, sizeof(double) * N_MU);\n    p->eta = src_pred->eta;\n    (void) xcsf;")],
 [(X+'cl.c', "    dest->cond_vptr = src->cond_vptr;\n    dest->pred_vptr = src->pred_vptr;\n    dest->act_vptr = src->act_vptr;\n    act_copy(xcsf, dest, src);\n    cond_copy(xcsf, dest, src);\n    pred_copy(xcsf, dest, src);\n}", "    dest->cond_vptr = src->cond_vptr;\n    dest->pred_vptr = src->pred_vptr;\n    dest->act_vptr = src->act_vptr;\n    pred_copy(xcsf, dest, src);\n    cond_copy(xcsf, dest, src);\n    act_copy(xcsf, dest, src);\n}")],
]
