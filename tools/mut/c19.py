CHECK = 'C19'
PA, RL, SU, LO, CS = ('xcsf/' + x for x in ('pa.c', 'xcs_rl.c', 'xcs_supervised.c', 'loss.c', 'clset.c'))
PAL = """        for (int j = 0; j < xcsf->y_dim; ++j) {
            pa[iter->cl->action * xcsf->y_dim + j] += pred[j] * fitness;
            nr[iter->cl->action * xcsf->y_dim + j] += fitness;
        }
"""
BEST = """    int *max_i = calloc(xcsf->n_actions, sizeof(int));
    double max = xcsf->pa[0];
    int n_max = 1;
    for (int i = 1; i < xcsf->n_actions; ++i) {
        const double val = xcsf->pa[i];
        if (val > max) {
            max = val;
            max_i[0] = i;
            n_max = 1;
        } else if (val == max) {
            max_i[n_max] = i;
            ++n_max;
        }
    }
"""
HUB = """        if (fabs(a) > delta) {
            error += 0.5 * delta * delta + delta * (fabs(a) - delta);
        } else {
            error += 0.5 * a * a;
        }
"""
MA = """    const struct Clist *iter = xcsf->mset.list;
    while (iter != NULL) {
        if (iter->cl->action == action) {
            clset_add(&xcsf->aset, iter->cl);
        }
        iter = iter->next;
    }
    // update statistics
    xcsf->aset_size"""
TR = """    if (cover != NULL) {
        // no coverage is to be performed
        clset_match(xcsf, x, false);
        if (xcsf->mset.size < 1) {
            // empty match set, return the specified array
            memcpy(xcsf->pa, cover, sizeof(double) * xcsf->pa_size);
        } else {
            // non-empty match set, build prediction as usual
            pa_build(xcsf, x);
        }
    } else {
        // perform covering if required
        clset_match(xcsf, x, true);
        pa_build(xcsf, x);
    }
"""
BROKEN = [
 [(PA, "pa[iter->cl->action * xcsf->y_dim + j] += pred[j] * fitness;", "pa[iter->cl->action * xcsf->y_dim + j] += pred[j] * fitness * iter->cl->num;")],
 [(PA, "nr[iter->cl->action * xcsf->y_dim + j] += fitness;", "nr[iter->cl->action * xcsf->y_dim + j] = fitness;")],
 [(PA, "            if (nr[k] != 0) {", "            if (nr[k] > 1) {")],
 [(PA, "const int k = i * xcsf->y_dim + j;", "const int k = j * xcsf->y_dim + i;")],
 [(PA, "            max_i[0] = i;\n            n_max = 1;", "            max_i[0] = i;")],
 [(PA, "        } else if (val == max) {", "        } else if (val >= max) {\n            max = val;\n            --n_max;\n        } else if (val == max) {")],
 [(PA, "max_i[rand_uniform_int(0, n_max)]", "max_i[rand_uniform_int(0, 1)]")],
 [(PA, "while (xcsf->nr[action] == 0);", "while (xcsf->nr[action] != 0);")],
 [(RL, "rand_uniform(0, 1) < xcsf->P_EXPLORE", "rand_uniform(0, 1) > xcsf->P_EXPLORE")],
 [(RL, "xcsf->prev_reward + (xcsf->GAMMA * pa_best_val(xcsf))", "reward + (xcsf->GAMMA * pa_best_val(xcsf))")],
 [(RL, "clset_update(xcsf, &xcsf->prev_aset, xcsf->prev_state, &p, false);", "clset_update(xcsf, &xcsf->prev_aset, state, &p, false);")],
 [(RL, "clset_update(xcsf, &xcsf->prev_aset, xcsf->prev_state, &p, false);", "clset_update(xcsf, &xcsf->prev_aset, xcsf->prev_state, &p, true);")],
 [(RL, "    if (done) { // in", "    if (done || xcsf->prev_aset.list == NULL) { // in")],
 [(RL, "            ea(xcsf, &xcsf->aset);", "            ea(xcsf, &xcsf->mset);")],
 [(RL, "        clset_validate(&xcsf->aset);\n", "")],
 [(RL, "xcsf->prev_pred = pa_val(xcsf, action);", "xcsf->prev_pred = pa_best_val(xcsf);")],
 [(RL, "    param_set_explore(xcsf, true); // ensure EA is executed\n", "")],
 [(RL, "/ max_p;\n    }\n    if (done) {", ";\n    }\n    if (done) {")],
 [(SU, "return cnt % data->n_samples;", "return (cnt + 1) % data->n_samples;")],
 [(SU, "xcs_supervised_sample(train_data, cnt + start, shuffle)", "xcs_supervised_sample(train_data, cnt, shuffle)")],
 [(SU, "&train_data->y[row * train_data->y_dim]", "&train_data->y[row * train_data->x_dim]")],
 [(SU, "            param_set_explore(xcsf, false);\n            xcs_supervised_trial(xcsf, x, y, NULL);", "            xcs_supervised_trial(xcsf, x, y, NULL);")],
 [(SU, "return err / N;", "return err / data->n_samples;")],
 [(SU, "if (N > data->n_samples)", "if (N >= data->n_samples - 1)")],
 [(SU, "&pred[row * xcsf->pa_size]", "&pred[row * xcsf->y_dim]")],
 [(SU, "        if (xcsf->mset.size < 1) {", "        if (xcsf->mset.size < 2) {")],
 [(SU, "        clset_update(xcsf, &xcsf->mset, x, y, true);\n        ea(xcsf, &xcsf->mset);", "        ea(xcsf, &xcsf->mset);\n        clset_update(xcsf, &xcsf->mset, x, y, true);")],
 [(LO, "error += 0.5 * delta * delta + delta * (fabs(a) - delta);", "error += delta * (fabs(a) - delta);")],
 [(LO, "error += 0.5 * a * a;", "error += a * a;")],
 [(LO, "(1 - y[i]) * log(fmax((1 - pred[i]), DBL_EPSILON))", "(1 - y[i]) * log(fmax((pred[i]), DBL_EPSILON))")],
 [(LO, "        error += y[i] * log(fmax(pred[i], DBL_EPSILON));", "        error += y[i] * log(fmax(pred[i], 0.01));")],
 [(LO, "    error /= xcsf->y_dim;\n    return error;\n}\n\n/**\n * @brief Mean squared", "    return error;\n}\n\n/**\n * @brief Mean squared")],
 [(CS, "if (iter->cl->action == action) {", "if (iter->cl->action <= action) {")],
 [(CS, "xcsf->mset_size += (xcsf->mset.size - xcsf->mset_size) * xcsf->BETA;", "xcsf->mset_size += (xcsf->mset.num - xcsf->mset_size) * xcsf->BETA;")],
]
KEPT = [
 [(PA, PAL, """        const int off = iter->cl->action * xcsf->y_dim;
        for (int j = 0; j < xcsf->y_dim; ++j) {
            nr[off + j] += fitness;
            pa[off + j] += fitness * pred[j];
        }
""")],
 [(PA, PAL, """        double *p = &pa[iter->cl->action * xcsf->y_dim];
        double *n = &nr[iter->cl->action * xcsf->y_dim];
        for (int j = 0; j < xcsf->y_dim; ++j) {
            p[j] += pred[j] * fitness;
        }
        for (int j = 0; j < xcsf->y_dim; ++j) {
            n[j] += fitness;
        }
""")],
 [(PA, "    for (int i = 0; i < xcsf->n_actions; ++i) {\n        for (int j = 0; j < xcsf->y_dim; ++j) {\n            const int k = i * xcsf->y_dim + j;\n            if (nr[k] != 0) {\n                pa[k] /= nr[k];\n            } else {\n                pa[k] = 0;\n            }\n        }\n    }", "    for (int k = 0; k < xcsf->pa_size; ++k) {\n        pa[k] = (nr[k] == 0) ? 0 : pa[k] / nr[k];\n    }")],
 [(PA, BEST, """    int *max_i = malloc(sizeof(int) * xcsf->n_actions);
    max_i[0] = 0;
    double max = xcsf->pa[0];
    int n_max = 1;
    for (int i = 1; i < xcsf->n_actions; ++i) {
        if (xcsf->pa[i] < max) {
            continue;
        }
        if (xcsf->pa[i] > max) {
            max = xcsf->pa[i];
            n_max = 0;
        }
        max_i[n_max] = i;
        n_max += 1;
    }
""")],
 [(PA, BEST, """    int *max_i = calloc(xcsf->n_actions, sizeof(int));
    double max = xcsf->pa[0];
    for (int i = 1; i < xcsf->n_actions; ++i) {
        max = fmax(max, xcsf->pa[i]);
    }
    int n_max = 0;
    for (int i = 0; i < xcsf->n_actions; ++i) {
        if (xcsf->pa[i] == max) {
            max_i[n_max] = i;
            ++n_max;
        }
    }
"""), (PA, '#include "pa.h"', '#include "pa.h"\n#include <math.h>')],
 [(PA, "    int action = 0;\n    do {\n        action = rand_uniform_int(0, xcsf->n_actions);\n    } while (xcsf->nr[action] == 0);\n    return action;", "    int action = rand_uniform_int(0, xcsf->n_actions);\n    while (xcsf->nr[action] == 0) {\n        action = rand_uniform_int(0, xcsf->n_actions);\n    }\n    return action;")],
 [(PA, "    int action = 0;\n    do {\n        action = rand_uniform_int(0, xcsf->n_actions);\n    } while (xcsf->nr[action] == 0);\n    return action;", "    for (;;) {\n        const int action = rand_uniform_int(0, xcsf->n_actions);\n        if (xcsf->nr[action] != 0) {\n            return action;\n        }\n    }")],
 [(LO, HUB, """        const double m = fabs(a);
        error += (m <= delta) ? a * a / 2 : delta * (m - 0.5 * delta);
""")],
 [(LO, "        error += (y[i] - pred[i]) * (y[i] - pred[i]);\n    }\n    error /= xcsf->y_dim;\n    return error;", "        const double d = pred[i] - y[i];\n        error += d * d;\n    }\n    return error / xcsf->y_dim;")],
 [(CS, MA, """    for (const struct Clist *p = xcsf->mset.list; p != NULL; p = p->next) {
        struct Cl *c = p->cl;
        if (c->action != action) {
            continue;
        }
        clset_add(&xcsf->aset, c);
    }
    // update statistics
    xcsf->aset_size""")],
 [(SU, TR, """    clset_match(xcsf, x, cover == NULL);
    if (cover != NULL && xcsf->mset.size < 1) {
        memcpy(xcsf->pa, cover, sizeof(double) * xcsf->pa_size);
    } else {
        pa_build(xcsf, x);
    }
""")],
 [(SU, TR, """    clset_match(xcsf, x, cover == NULL);
    if (cover == NULL || xcsf->mset.size > 0) {
        pa_build(xcsf, x);
    } else {
        for (int i = 0; i < xcsf->pa_size; ++i) {
            xcsf->pa[i] = cover[i];
        }
    }
""")],
 [(SU, "        err += (xcsf->loss_ptr)(xcsf, xcsf->pa, y);\n    }\n    return err / data->n_samples;", "        const double e = (xcsf->loss_ptr)(xcsf, xcsf->pa, y);\n        err = err + e;\n    }\n    const int n = data->n_samples;\n    return err / n;")],
 [(RL, "    if (xcsf->explore && rand_uniform(0, 1) < xcsf->P_EXPLORE) {\n        return pa_rand_action(xcsf);\n    }\n    return pa_best_action(xcsf);", "    int action;\n    if (!xcsf->explore || rand_uniform(0, 1) >= xcsf->P_EXPLORE) {\n        action = pa_best_action(xcsf);\n    } else {\n        action = pa_rand_action(xcsf);\n    }\n    return action;")],
 [(RL, "void\nxcs_rl_update(", "static void\nupdate_set(struct XCSF *xcsf, struct Set *set, const double *x, const double *y,\n           const bool cur)\n{\n    clset_validate(set);\n    clset_update(xcsf, set, x, y, cur);\n    if (xcsf->explore) {\n        ea(xcsf, set);\n    }\n}\n\nvoid\nxcs_rl_update("), (RL, "        clset_validate(&xcsf->aset);\n        clset_update(xcsf, &xcsf->aset, state, &reward, true);\n        if (xcsf->explore) {\n            ea(xcsf, &xcsf->aset);\n        }\n", "        update_set(xcsf, &xcsf->aset, state, &reward, true);\n"), (RL, "        clset_validate(&xcsf->prev_aset);\n        clset_update(xcsf, &xcsf->prev_aset, xcsf->prev_state, &p, false);\n        if (xcsf->explore) {\n            ea(xcsf, &xcsf->prev_aset);\n        }\n", "        update_set(xcsf, &xcsf->prev_aset, xcsf->prev_state, &p, false);\n")],
 [(SU, "        const double *x = &train_data->x[row * train_data->x_dim];\n        const double *y = &train_data->y[row * train_data->y_dim];", "        const double *y = train_data->y + row * train_data->y_dim;\n        const double *x = train_data->x + row * train_data->x_dim;")],
 [(RL, "    xcsf->prev_aset = xcsf->aset;\n    xcsf->prev_reward = reward;\n    xcsf->prev_pred = pa_val(xcsf, action);\n    memcpy(xcsf->prev_state, state, sizeof(double) * xcsf->x_dim);", "    xcsf->prev_pred = pa_val(xcsf, action);\n    xcsf->prev_reward = reward;\n    for (int i = 0; i < xcsf->x_dim; ++i) {\n        xcsf->prev_state[i] = state[i];\n    }\n    xcsf->prev_aset.list = xcsf->aset.list;\n    xcsf->prev_aset.size = xcsf->aset.size;\n    xcsf->prev_aset.num = xcsf->aset.num;")],
]
