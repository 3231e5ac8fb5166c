CHECK = 'C15'
BROKEN = [
 [('xcsf/cond_rectangle.c', "        if (orig != b2[i]) {\n            changed = true;\n        }\n", "")],
 [('xcsf/cond_ternary.c', "                cond->string[i] = DONT_CARE;\n            }\n            changed = true;", "                cond->string[i] = DONT_CARE;\n                changed = true;\n            }")],
 [('xcsf/neural_layer_lstm.c', "    mod = layer_mutate_weights(l->wo, l->mu[4]) ? true : mod;", "    layer_mutate_weights(l->wo, l->mu[4]);")],
 [('xcsf/neural_layer.c', "        l->recurrent_function = rand_uniform_int(0, NUM_ACTIVATIONS);\n        if (l->recurrent_function != orig) {", "        l->recurrent_function = rand_uniform_int(0, NUM_ACTIVATIONS);\n        if (l->function != orig) {")],
 [('xcsf/cl.c', "    if (cm || pm || am) {\n        return true;", "    if (cm || am) {\n        return true;")],
 [('xcsf/cl.c', "    if (cc || pc || ac) {", "    if (cc || (pc && ac)) {")],
 [('xcsf/gp.c', "            if (gp->tree[i] != orig) {\n                changed = true;\n            }\n", "            changed = gp->tree[i] != orig;\n")],
 [('xcsf/act_integer.c', "        if (old != act->action) {\n            return true;\n        }\n", "        return old > act->action;\n")],
 [('xcsf/neural.c', "        if (layer_mutate(iter->layer)) {\n            mod = true;\n        }", "        mod = layer_mutate(iter->layer);")],
 [('xcsf/pred_nlms.c', "        const double orig = pred->eta;\n        pred->eta += rand_normal(0, pred->mu[0]);", "        pred->eta += rand_normal(0, pred->mu[0]);\n        const double orig = pred->eta;")],
 [('xcsf/neural_layer.c', "        if (l->biases[i] != orig) {\n            mod = true;\n        }", "        if (l->biases[i] != orig && l->n_biases > 1) {\n            mod = true;\n        }")],
 [('xcsf/cond_gp.c', "cond_gp_crossover", "cond_gp_crossover")] if 0 else
 [('xcsf/neural_layer.c', "                l->weights[i] = 0;\n                --(l->n_active);\n                mod = true;", "                l->weights[i] = 0;\n                --(l->n_active);")],
 [('xcsf/cond_ellipsoid.c', "                cond2->spread[i] = tmp;\n                changed = true;", "                cond2->spread[i] = tmp;")],
 [('xcsf/rule_neural.c', "    return neural_mutate(&cond->net);", "    neural_mutate(&cond->net);\n    return false;")],
]
KEPT = [
 [('xcsf/cond_rectangle.c', "        if (orig != b2[i]) {\n            changed = true;\n        }\n", "        changed = changed || (b2[i] != orig);\n")],
 [('xcsf/cl.c', "    if (cm || pm || am) {\n        return true;\n    }\n    return false;", "    return am || cm || pm;")],
 [('xcsf/cl.c', "    if (cm || pm || am) {\n        return true;\n    }\n    return false;", "    int n = 0;\n    if (cm) { ++n; }\n    if (pm) { ++n; }\n    if (am) { ++n; }\n    return n > 0;")],
 [('xcsf/cl.c', "    if (cm || pm || am) {\n        return true;\n    }\n    return false;", "    return cm | pm | am;")],
 [('xcsf/act_integer.c', "        if (old != act->action) {\n            return true;\n        }\n", "        return old != act->action;\n")],
 [('xcsf/pred_nlms.c', "        pred->eta += rand_normal(0, pred->mu[0]);\n        pred->eta = clamp(pred->eta, xcsf->pred->eta_min, xcsf->pred->eta);\n        if (orig != pred->eta) {\n            return true;\n        }", "        const double eta = clamp(orig + rand_normal(0, pred->mu[0]),\n                                 xcsf->pred->eta_min, xcsf->pred->eta);\n        pred->eta = eta;\n        if (orig != eta) {\n            return true;\n        }")],
 [('xcsf/gp.c', "            if (gp->tree[i] != orig) {\n                changed = true;\n            }\n", "            changed |= gp->tree[i] != orig;\n")],
 [('xcsf/cond_rectangle.c', "        double orig = b1[i];\n        b1[i] += rand_normal(0, cond->mu[0]);\n        b1[i] = clamp(b1[i], xcsf->cond->min, xcsf->cond->max);\n        if (orig != b1[i]) {\n            changed = true;\n        }\n        orig = b2[i];", "        changed = mutate_bound(xcsf, &b1[i], cond->mu[0]) || changed;\n        const double orig = b2[i];"), ('xcsf/cond_rectangle.c', "bool\ncond_rectangle_mutate(", "static bool\nmutate_bound(const struct XCSF *xcsf, double *b, const double mu)\n{\n    const double orig = *b;\n    *b = clamp(orig + rand_normal(0, mu), xcsf->cond->min, xcsf->cond->max);\n    return *b != orig;\n}\n\nbool\ncond_rectangle_mutate(")],
 [('xcsf/neural.c', "        if (layer_mutate(iter->layer)) {\n            mod = true;\n        }", "        mod = layer_mutate(iter->layer) || mod;")],
 [('xcsf/neural_layer_connected.c', "    if ((l->options & LAYER_EVOLVE_WEIGHTS) &&\n        layer_mutate_weights(l, l->mu[4])) {\n        mod = true;\n    }", "    if (l->options & LAYER_EVOLVE_WEIGHTS) {\n        const bool w = layer_mutate_weights(l, l->mu[4]);\n        mod = w ? w : mod;\n    }")],
 [('xcsf/cond_ternary.c', "            if (cond->string[i] == DONT_CARE) {\n                cond->string[i] = (rand_uniform(0, 1) < 0.5) ? '0' : '1';\n            } else {\n                cond->string[i] = DONT_CARE;\n            }\n            changed = true;", "            changed = true;\n            const char old = cond->string[i];\n            char new = DONT_CARE;\n            if (old == DONT_CARE) {\n                new = (rand_uniform(0, 1) < 0.5) ? '0' : '1';\n            }\n            cond->string[i] = new;")],
]
