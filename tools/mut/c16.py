CHECK = 'C16'
NL = 'xcsf/neural_layer.c'
BROKEN = [
 [('xcsf/sam.c', "mu[i] = clamp(mu[i], MU_EPSILON, 1);", "mu[i] = fmin(mu[i], 1);")],
 [('xcsf/sam.c', "                mu[i] = clamp(mu[i], MU_EPSILON, 1);\n", "")],
 [('xcsf/sam.c', "mu[i] = mrates[rand_uniform_int(0, N_RATES)];\n                }", "mu[i] = mrates[rand_uniform_int(0, N_RATES + 1)];\n                }")],
 [(NL, "        l->biases[i] = clamp(l->biases[i], WEIGHT_MIN, WEIGHT_MAX);\n        if", "        if")],
 [(NL, "    for (int i = 0; i < l->n_biases; ++i) {\n        l->biases[i] = clamp(l->biases[i], WEIGHT_MIN, WEIGHT_MAX);\n    }\n}", "    for (int i = 0; i < l->n_outputs - 1; ++i) {\n        l->biases[i] = clamp(l->biases[i], WEIGHT_MIN, WEIGHT_MAX);\n    }\n}")],
 [(NL, "        } else {\n            l->weights[i] = 0;\n        }\n    }\n    for", "        }\n    }\n    for")],
 [(NL, "l->eta = clamp(l->eta, l->eta_min, l->eta_max);", "l->eta = clamp(l->eta, 0, l->eta_max);")],
 [(NL, "l->n_outputs + n > l->max_outputs", "l->n_outputs + n > l->max_outputs + 1")],
 [(NL, "n = -(l->n_outputs - 1);", "n = -(l->n_outputs);")],
 [(NL, "l->function = rand_uniform_int(0, NUM_ACTIVATIONS);", "l->function = rand_uniform_int(0, NUM_ACTIVATIONS + 1);")],
 [(NL, "                l->weight_active[i] = false;\n                l->weights[i] = 0;\n", "                l->weight_active[i] = false;\n")],
 [(NL, "            l->weights[offset + r] = rand_normal(0, WEIGHT_SD);\n            l->weight_active[offset + r] = true;", "            l->weights[offset + r] = rand_normal(0, WEIGHT_SD);")],
 [(NL, "        if (l->weight_active[i]) {\n            const double orig = l->weights[i];", "        if (l->n_active > 0) {\n            const double orig = l->weights[i];")],
 [('xcsf/neural_layer_connected.c', "weight_active[offset + j] = l->weight_active[orig_offset + j];", "weight_active[offset + j] = l->weight_active[offset + j];")],
 [('xcsf/neural_layer_connected.c', "        layer_weight_clamp(l);\n", "")],
 [('xcsf/neural_layer_convolutional.c', "n = l->max_outputs - l->n_filters;", "n = l->max_outputs - l->n_filters + 1;")],
 [('xcsf/pred_nlms.c', "clamp(pred->eta, xcsf->pred->eta_min, xcsf->pred->eta)", "clamp(pred->eta, 0, 1)")],
 [('xcsf/pred_nlms.c', "pred->eta = rand_uniform(xcsf->pred->eta_min, xcsf->pred->eta);", "pred->eta = rand_uniform(0, xcsf->pred->eta);")],
 [('xcsf/act_integer.c', "rand_uniform_int(0, xcsf->n_actions)", "rand_uniform_int(0, xcsf->n_actions + 1)")],
 [('xcsf/rule_neural.c', "clamp_int(action, 0, xcsf->n_actions - 1)", "clamp_int(action, 0, xcsf->n_actions)")],
 [('xcsf/rule_dgp.c', "    action = clamp_int(action, 0, xcsf->n_actions - 1);\n", "")],
 [('xcsf/dgp.c', "dgp->t + n > dgp->max_t", "dgp->t > dgp->max_t")],
 [('xcsf/dgp.c', "rand_uniform_int(0, n_nodes) + n_inputs", "rand_uniform_int(0, n_nodes + 1) + n_inputs")],
 [('xcsf/dgp.c', "    state = clamp(state, 0, 1);\n", "")],
 [('xcsf/dgp.c', "dgp->connectivity[i] = random_connection(dgp->n, dgp->n_inputs);\n            if", "dgp->connectivity[i] = random_connection(dgp->klen, dgp->n_inputs);\n            if")],
 [('xcsf/cond_rectangle.c', "b1[i] = clamp(b1[i], xcsf->cond->min, xcsf->cond->max);\n", "b1[i] = fmax(b1[i], xcsf->cond->min);\n")],
 [('xcsf/cond_ellipsoid.c', "spread[i] = fmax(DBL_EPSILON, spread[i]);", "spread[i] = fmin(1, spread[i]);")],
 [('xcsf/gp.c', "gp->tree[i] = rand_uniform_int(GP_NUM_FUNC, max_term);", "gp->tree[i] = rand_uniform_int(0, max_term);")],
 [('xcsf/gp.c', "const int max_term = GP_NUM_FUNC + args->n_constants + args->n_inputs;\n    for", "const int max_term = GP_NUM_FUNC + args->n_constants + args->n_inputs + 1;\n    for")],
 [('xcsf/utils.h', "    return (a < min) ? min : (a > max) ? max : a;\n}\n\n/**\n * @brief Returns an integer", "    return (a < min) ? min : a;\n}\n\n/**\n * @brief Returns an integer")],
 [('xcsf/utils.h', "for (int i = 1; i < N; ++i) {\n        if (X[i] > max)", "for (int i = 1; i <= N; ++i) {\n        if (X[i] > max)")],
]
KEPT = [
 [('xcsf/sam.c', "                mu[i] = clamp(mu[i], MU_EPSILON, 1);\n", "                if (mu[i] < MU_EPSILON) {\n                    mu[i] = MU_EPSILON;\n                } else if (mu[i] > 1) {\n                    mu[i] = 1;\n                }\n")],
 [('xcsf/sam.c', "                mu[i] *= exp(rand_normal(0, 1));\n                mu[i] = clamp(mu[i], MU_EPSILON, 1);\n", "                mu[i] = fmin(fmax(mu[i] * exp(rand_normal(0, 1)), MU_EPSILON), 1);\n")],
 [(NL, "        l->biases[i] = clamp(l->biases[i], WEIGHT_MIN, WEIGHT_MAX);\n    }\n}", "        const double b = l->biases[i];\n        l->biases[i] = (b > WEIGHT_MAX) ? WEIGHT_MAX : (b < WEIGHT_MIN) ? WEIGHT_MIN : b;\n    }\n}")],
 [(NL, "    for (int i = 0; i < l->n_weights; ++i) {\n        if (l->weight_active[i]) {\n            l->weights[i] = clamp(l->weights[i], WEIGHT_MIN, WEIGHT_MAX);\n        } else {\n            l->weights[i] = 0;\n        }\n    }", "    int i = 0;\n    while (i < l->n_weights) {\n        double w = 0;\n        if (l->weight_active[i]) {\n            w = clamp(l->weights[i], WEIGHT_MIN, WEIGHT_MAX);\n        }\n        l->weights[i] = w;\n        ++i;\n    }")],
 [(NL, "        if (l->n_outputs + n < 1) {\n            n = -(l->n_outputs - 1);\n        } else if (l->n_outputs + n > l->max_outputs) {\n            n = l->max_outputs - l->n_outputs;\n        }", "        const int total = clamp_int(l->n_outputs + n, 1, l->max_outputs);\n        n = total - l->n_outputs;")],
 [(NL, "    l->eta += rand_normal(0, mu);\n    l->eta = clamp(l->eta, l->eta_min, l->eta_max);", "    const double eta = orig + rand_normal(0, mu);\n    l->eta = clamp(eta, l->eta_min, l->eta_max);")],
 [('xcsf/dgp.c', "    const int n = (int) round((2 * dgp->mu[2]) - 1);\n    if (dgp->t + n < 1 || dgp->t + n > dgp->max_t) {\n        return false;\n    }\n    dgp->t += n;\n    return true;", "    const int n = (int) round((2 * dgp->mu[2]) - 1);\n    const int t = dgp->t + n;\n    if (t >= 1 && t <= dgp->max_t) {\n        dgp->t = t;\n        return true;\n    }\n    return false;")],
 [('xcsf/gp.c', "            if (gp->tree[i] >= GP_NUM_FUNC) {\n                gp->tree[i] = rand_uniform_int(GP_NUM_FUNC, max_term);\n            } else {\n                gp->tree[i] = rand_uniform_int(0, GP_NUM_FUNC);\n            }", "            const bool is_term = orig >= GP_NUM_FUNC;\n            gp->tree[i] = is_term ? rand_uniform_int(GP_NUM_FUNC, max_term) : rand_uniform_int(0, GP_NUM_FUNC);")],
 [('xcsf/rule_neural.c', "    action = clamp_int(action, 0, xcsf->n_actions - 1);\n", "    if (action >= xcsf->n_actions) {\n        action = xcsf->n_actions - 1;\n    }\n    if (action < 0) {\n        action = 0;\n    }\n")],
 [('xcsf/cond_rectangle.c', "        b1[i] += rand_normal(0, cond->mu[0]);\n        b1[i] = clamp(b1[i], xcsf->cond->min, xcsf->cond->max);", "        double lower = b1[i] + rand_normal(0, cond->mu[0]);\n        lower = clamp(lower, xcsf->cond->min, xcsf->cond->max);\n        b1[i] = lower;")],
 [('xcsf/dgp.c', "    // another node within the graph\n    if (rand_uniform(0, 1) < 0.5) {\n        return rand_uniform_int(0, n_nodes) + n_inputs;\n    }\n    // external input\n    return rand_uniform_int(0, n_inputs);", "    int c = 0;\n    if (rand_uniform(0, 1) < 0.5) {\n        c = n_inputs;\n        c += rand_uniform_int(0, n_nodes);\n    } else {\n        c = rand_uniform_int(0, n_inputs);\n    }\n    return c;")],
 [(NL, "                l->weight_active[i] = false;\n                l->weights[i] = 0;\n", "                l->weights[i] = 0;\n                l->weight_active[i] = false;\n")],
 [('xcsf/neural_layer_connected.c', "        layer_weight_clamp(l);\n", "        for (int w = 0; w < l->n_weights; ++w) {\n            l->weights[w] = l->weight_active[w] ? clamp(l->weights[w], WEIGHT_MIN, WEIGHT_MAX) : 0;\n        }\n        for (int b = 0; b < l->n_biases; ++b) {\n            l->biases[b] = clamp(l->biases[b], WEIGHT_MIN, WEIGHT_MAX);\n        }\n")],
 [('xcsf/utils.h', "    return (a < min) ? min : (a > max) ? max : a;\n}\n\n/**\n * @brief Returns an integer", "    if (a < min) {\n        return min;\n    }\n    if (a > max) {\n        return max;\n    }\n    return a;\n}\n\n/**\n * @brief Returns an integer")],
]
