CHECK = 'C02'
X='xcsf/'
BROKEN = [
 [(X+'neural_layer_connected.c', "    l->out_w = l->n_outputs;\n    l->out_c = 1;\n    l->out_h = 1;\n    malloc_layer_arrays(l);\n    s += fread(l->weights", "    l->out_c = 1;\n    l->out_h = 1;\n    malloc_layer_arrays(l);\n    s += fread(l->weights")],
 [(X+'neural_layer_recurrent.c', "    set_layer_n_biases(l);\n    set_layer_n_weights(l);\n    return s;", "    set_layer_n_biases(l);\n    return s;")],
 [(X+'neural_layer_recurrent.c', "    l->output = l->output_layer->output;\n    l->delta = l->output_layer->delta;\n    s += fread(l->output", "    l->output = l->output_layer->output;\n    l->delta = l->input_layer->delta;\n    s += fread(l->output")],
 [(X+'param.c', "    s += pred_param_load(xcsf, fp);\n    loss_set_func(xcsf);\n", "    s += pred_param_load(xcsf, fp);\n")],
 [(X+'xcsf.c', "    s += param_load(xcsf, fp);\n    pa_free(xcsf);\n    pa_init(xcsf);\n", "    s += param_load(xcsf, fp);\n")],
 [(X+'xcsf.c', "    s += param_load(xcsf, fp);\n    pa_free(xcsf);\n    pa_init(xcsf);\n", "    pa_free(xcsf);\n    pa_init(xcsf);\n    s += param_load(xcsf, fp);\n")],
 [(X+'dgp.c', "    dgp->tmp_input = malloc(sizeof(double) * dgp->max_k);\n    dgp->function = malloc(sizeof(int) * dgp->n);\n    dgp->connectivity = malloc(sizeof(int) * dgp->klen);\n    dgp->mu = malloc(sizeof(double) * N_MU);\n    s +=", "    dgp->tmp_input = malloc(sizeof(double) * dgp->n_inputs);\n    dgp->function = malloc(sizeof(int) * dgp->n);\n    dgp->connectivity = malloc(sizeof(int) * dgp->klen);\n    dgp->mu = malloc(sizeof(double) * N_MU);\n    s +=")],
 [(X+'cond_ellipsoid.c', "    new->spread = malloc(sizeof(double) * xcsf->x_dim);\n    new->mu = malloc(sizeof(double) * N_MU);\n    s +=", "    new->spread = malloc(sizeof(double) * xcsf->y_dim);\n    new->mu = malloc(sizeof(double) * N_MU);\n    s +=")],
 [(X+'cl.c', "    c->prediction = malloc(sizeof(double) * xcsf->y_dim);\n    s += fread", "    c->prediction = malloc(sizeof(double) * xcsf->n_actions);\n    s += fread")],
 [(X+'cl.c', "    prediction_set(xcsf, c);\n    condition_set(xcsf, c);\n    s += act_load", "    condition_set(xcsf, c);\n    s += act_load")],
 [(X+'neural_layer_lstm.c', "    malloc_layers(l);\n    s += layer_load(l->uf, fp);", "    s += layer_load(l->uf, fp);")] if False else
 [(X+'neural_layer_lstm.c', "    l->out_w = l->n_outputs;\n    l->out_c = 1;\n    l->out_h = 1;\n    malloc_layer_arrays(l);\n    l->mu = malloc(sizeof(double) * N_MU);\n    s +=", "    l->out_w = l->n_inputs;\n    l->out_c = 1;\n    l->out_h = 1;\n    malloc_layer_arrays(l);\n    l->mu = malloc(sizeof(double) * N_MU);\n    s +=")],
 [(X+'neural.c', "    neural_init(net);\n    for (int i = 0; i < nlayers; ++i) {", "    net->head = NULL;\n    net->tail = NULL;\n    net->n_layers = 0;\n    for (int i = 0; i < nlayers; ++i) {")],
 [(X+'neural_layer.h', "    layer_defaults(l);\n    size_t s = fread(&l->type", "    size_t s = fread(&l->type")],
 [(X+'cond_ternary.c', "    new->tmp_input = malloc(sizeof(char) * xcsf->cond->bits);\n    new->mu = malloc(sizeof(double) * N_MU);\n    s +=", "    new->tmp_input = malloc(sizeof(char) * xcsf->x_dim);\n    new->mu = malloc(sizeof(double) * N_MU);\n    s +=")],
 [(X+'rule_dgp.c', "    new->n_outputs = ", "    //n_outputs = ")] if False else
 [(X+'gp.c', "    args->constants = malloc(sizeof(double) * args->n_constants);\n    s +=", "    args->constants = malloc(sizeof(double) * args->n_inputs);\n    s +=")],
 [(X+'neural_layer_dropout.c', "    s += fread(&l->out_c, sizeof(int), 1, fp);\n    malloc_layer_arrays(l);\n", "    s += fread(&l->out_c, sizeof(int), 1, fp);\n    l->output = calloc(l->n_outputs, sizeof(double));\n    l->delta = calloc(l->n_outputs, sizeof(double));\n")],
]
KEPT = [
 [(X+'neural_layer_connected.c', "    l->out_w = l->n_outputs;\n    l->out_c = 1;\n    l->out_h = 1;\n    malloc_layer_arrays(l);\n    s += fread(l->weights", "    malloc_layer_arrays(l);\n    l->out_c = 1;\n    l->out_h = l->out_c;\n    l->out_w = l->n_outputs;\n    s += fread(l->weights")],
 [(X+'xcsf.c', "    pa_free(xcsf);\n    pa_init(xcsf);\n    s += clset", "    free(xcsf->pa);\n    free(xcsf->nr);\n    free(xcsf->cover);\n    xcsf->pa_size = xcsf->y_dim * xcsf->n_actions;\n    xcsf->cover = calloc(xcsf->pa_size, sizeof(double));\n    xcsf->nr = malloc(sizeof(double) * xcsf->pa_size);\n    xcsf->pa = malloc(sizeof(double) * xcsf->pa_size);\n    s += clset")],
 [(X+'dgp.c', "    dgp->state = malloc(sizeof(double) * dgp->n);\n    dgp->initial_state = malloc(sizeof(double) * dgp->n);\n    dgp->tmp_state = malloc(sizeof(double) * dgp->n);\n    dgp->tmp_input = malloc(sizeof(double) * dgp->max_k);\n    dgp->function = malloc(sizeof(int) * dgp->n);\n    dgp->connectivity = malloc(sizeof(int) * dgp->klen);\n    dgp->mu = malloc(sizeof(double) * N_MU);\n    s += fread", "    dgp->state = calloc(dgp->n, sizeof(double));\n    dgp->initial_state = calloc(dgp->n, sizeof(double));\n    dgp->tmp_state = calloc(dgp->n, sizeof(double));\n    dgp->tmp_input = calloc(dgp->max_k, sizeof(double));\n    dgp->function = calloc(dgp->n, sizeof(int));\n    dgp->connectivity = calloc(dgp->klen, sizeof(int));\n    dgp->mu = calloc(N_MU, sizeof(double));\n    s += fread")],
 [(X+'dgp.c', "    dgp->klen = dgp->n * dgp->max_k;\n    dgp->state = malloc(sizeof(double) * dgp->n);\n    dgp->initial_state = malloc(sizeof(double) * dgp->n);\n    dgp->tmp_state = malloc(sizeof(double) * dgp->n);\n    dgp->tmp_input = malloc(sizeof(double) * dgp->max_k);\n    dgp->function = malloc(sizeof(int) * dgp->n);\n    dgp->connectivity = malloc(sizeof(int) * dgp->klen);\n    dgp->mu = malloc(sizeof(double) * N_MU);\n", "    dgp->klen = dgp->n * dgp->max_k;\n    graph_alloc(dgp);\n"), (X+'dgp.c', "/**\n * @brief Initialises a new DGP graph.", "static void\ngraph_alloc(struct Graph *dgp)\n{\n    const size_t n = sizeof(double) * dgp->n;\n    dgp->state = malloc(n);\n    dgp->initial_state = malloc(n);\n    dgp->tmp_state = malloc(n);\n    dgp->tmp_input = malloc(sizeof(double) * dgp->max_k);\n    dgp->function = malloc(sizeof(int) * dgp->n);\n    dgp->connectivity = malloc(sizeof(int) * dgp->klen);\n    dgp->mu = malloc(sizeof(double) * N_MU);\n}\n\n/**\n * @brief Initialises a new DGP graph.")],
 [(X+'neural_layer_recurrent.c', "    s += layer_load(l->output_layer, fp);\n    l->output = l->output_layer->output;\n    l->delta = l->output_layer->delta;\n", "    s += layer_load(l->output_layer, fp);\n    const struct Layer *out = l->output_layer;\n    l->delta = out->delta;\n    l->output = out->output;\n")],
 [(X+'cl.c', "    c->prediction = malloc(sizeof(double) * xcsf->y_dim);\n    s += fread(c->prediction, sizeof(double), xcsf->y_dim, fp);", "    double *p = malloc(sizeof(double) * xcsf->y_dim);\n    s += fread(p, sizeof(double), xcsf->y_dim, fp);\n    c->prediction = p;")],
 [(X+'neural_layer_maxpool.c', "    s += fread(&l->stride, sizeof(int), 1, fp);\n    malloc_layer_arrays(l);\n", "    s += fread(&l->stride, sizeof(int), 1, fp);\n    l->delta = calloc(l->n_outputs, sizeof(double));\n    l->output = calloc(l->n_outputs, sizeof(double));\n    l->indexes = calloc(l->n_outputs, sizeof(int));\n")],
 [(X+'neural_layer_connected.c', "    l->weight_updates = calloc(l->n_weights, sizeof(double));\n", "    l->weight_updates = malloc(sizeof(double) * l->n_weights);\n    memset(l->weight_updates, 0, sizeof(double) * l->n_weights);\n")],
 [(X+'neural_layer_connected.c', "    l->bias_updates = calloc(l->n_outputs, sizeof(double));\n", "    l->bias_updates = malloc(sizeof(double) * l->n_outputs);\n    for (int i = 0; i < l->n_outputs; ++i) {\n        l->bias_updates[i] = 0;\n    }\n")],
]
