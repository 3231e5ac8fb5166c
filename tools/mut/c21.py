CHECK = 'C21'
RE, EL, TE, GP, DG, NE, RD, RN, AI, AN = ('xcsf/' + x for x in ('cond_rectangle.c', 'cond_ellipsoid.c', 'cond_ternary.c', 'cond_gp.c', 'cond_dgp.c', 'cond_neural.c', 'rule_dgp.c', 'rule_neural.c', 'act_integer.c', 'act_neural.c'))
BROKEN = [
 [(RE, "if (x[i] < lb || x[i] > ub) {\n                return false;\n            }\n        }\n    } else {", "if (x[i] <= lb || x[i] > ub) {\n                return false;\n            }\n        }\n    } else {")],
 [(RE, "const double lb = fmin(cond->b1[i], cond->b2[i]);", "const double lb = cond->b1[i];")],
 [(RE, "if (l1 > l2 || u1 < u2) {", "if (l1 > l2 && u1 < u2) {")],
 [(RE, "const double u2 = fmax(cond2->b1[i], cond2->b2[i]);", "const double u2 = fmax(cond2->b1[i], cond1->b2[i]);")],
 [(RE, "const double u2 = cond2->b1[i] + cond2->b2[i];", "const double u2 = cond2->b1[i];")],
 [(RE, "cond->b2[i] = x[i] + (r2 * 0.5);", "cond->b2[i] = x[i] - (r2 * 0.5);")],
 [(RE, "cond->b1[i] = x[i] - (r1 * 0.5);", "cond->b1[i] = x[i] - (r1 * 0.25);")],
 [(RE, "            cond->b1[i] = x[i];\n", "            cond->b1[i] = clamp(x[i], 0, 1);\n")],
 [(RE, "cond->b1[i] += xcsf->cond->eta * (x[i] - cond->b1[i]);", "cond->b1[i] += xcsf->BETA * (x[i] - cond->b1[i]);")],
 [(RE, "                cond1->b2[i] = cond2->b2[i];\n", "                cond1->b2[i] = cond2->b1[i];\n")],
 [(RE, "b2[i] = fmax(DBL_EPSILON, b2[i]);", "b2[i] = fabs(b2[i]);")],
 [(RE, "        b2[i] += rand_normal(0, cond->mu[0]);", "        b2[i] += rand_normal(0, cond->mu[0] * 2);")],
 [(EL, "dist += d * d;", "dist += fabs(d);")],
 [(EL, "(cond_ellipsoid_dist(xcsf, c, x) < 1)", "(sqrt(cond_ellipsoid_dist(xcsf, c, x)) <= 1)")],
 [(EL, "temp[i] -= 2 * cond2->spread[i];", "temp[i] -= cond2->spread[i];")],
 [(EL, "cond1->center[i] != cond2->center[i] ||", "cond1->center[i] != cond2->center[i] &&")],
 [(EL, "            temp[i] = cond2->center[i];\n", "            temp[i] = cond1->center[i];\n")],
 [(EL, "        cond->center[i] = x[i];", "        cond->center[i] = clamp(x[i], xcsf->cond->min, xcsf->cond->max);")],
 [(TE, "if (s != DONT_CARE && s != cond->tmp_input[j]) {", "if (s == '0' && s != cond->tmp_input[j]) {")],
 [(TE, "const char s = cond->string[i * bits + j];", "const char s = cond->string[i + j];")],
 [(TE, "        if (cond1->string[i] != DONT_CARE &&\n            cond1->string[i] != cond2->string[i]) {", "        if (cond1->string[i] != DONT_CARE && cond2->string[i] != DONT_CARE &&\n            cond1->string[i] != cond2->string[i]) {")],
 [(TE, "    bool general = false;", "    bool general = true;")],
 [(TE, "                cond->string[i * bits + j] = cond->tmp_input[j];", "                cond->string[i * bits + j] = cond->tmp_input[bits - 1 - j];")],
 [(TE, "cond->string[i] = (rand_uniform(0, 1) < 0.5) ? '0' : '1';", "cond->string[i] = (rand_uniform(0, 1) < 0.1) ? '0' : '1';")],
 [(GP, "    cond->gp.pos = 0;\n    if", "    if")],
 [(GP, "> 0.5)", "> 0)")],
 [(DG, "graph_update(&cond->dgp, x, !xcsf->STATEFUL);", "graph_update(&cond->dgp, x, xcsf->STATEFUL);")],
 [(RD, "graph_output(&cond->dgp, i + 1) > 0.5", "graph_output(&cond->dgp, i) > 0.5")],
 [(RD, "!rule_dgp_cond_match(xcsf, c, x) ||", "!rule_dgp_cond_match(xcsf, c, x) &&")],
 [(RN, "action += (int) pow(2, i - 1);", "action += (int) pow(2, i);")],
 [(RN, "rule_neural_act_compute(xcsf, c, x) != action", "rule_neural_act_compute(xcsf, c, x) > action")],
 [(AI, "if (act1->action != act2->action) {", "if (act1->action < act2->action) {")],
 [(AN, "neural_propagate(&act->net, x, xcsf->explore);", "neural_propagate(&act->net, x, true);")],
 [(NE, "neural_output(&cond->net, 0) > 0.5", "neural_output(&cond->net, 0) >= 0.25")],
]
BROKEN += [
    ('xcsf/utils.h', 'binary[bits - 1 - i] = (a % 2)', 'binary[i] = (a % 2)'),
    ('xcsf/utils.h', '(f * pow(2, bits))', '(f * (pow(2, bits) - 1))'),
    ('xcsf/utils.h', 'if (f >= 1) {\n        for', 'if (f > 1) {\n        for'),
]
KEPT = [
 [(RE, "    if (xcsf->cond->type == COND_TYPE_HYPERRECTANGLE_CSR) {\n        for (int i = 0; i < xcsf->x_dim; ++i) {\n            const double lb = cond->b1[i] - cond->b2[i];\n            const double ub = cond->b1[i] + cond->b2[i];\n            if (x[i] < lb || x[i] > ub) {", "    if (xcsf->cond->type == COND_TYPE_HYPERRECTANGLE_CSR) {\n        for (int i = 0; i < xcsf->x_dim; ++i) {\n            if (fabs(x[i] - cond->b1[i]) > cond->b2[i]) {")],
 [(RE, "    if (xcsf->cond->type == COND_TYPE_HYPERRECTANGLE_CSR) {\n        for (int i = 0; i < xcsf->x_dim; ++i) {\n            const double lb = cond->b1[i] - cond->b2[i];\n            const double ub = cond->b1[i] + cond->b2[i];\n            if (x[i] < lb || x[i] > ub) {\n                return false;\n            }\n        }\n    } else { // ubr\n        for (int i = 0; i < xcsf->x_dim; ++i) {\n            const double lb = fmin(cond->b1[i], cond->b2[i]);\n            const double ub = fmax(cond->b1[i], cond->b2[i]);\n            if (x[i] < lb || x[i] > ub) {\n                return false;\n            }\n        }\n    }\n    return true;",
   "    const bool csr = xcsf->cond->type == COND_TYPE_HYPERRECTANGLE_CSR;\n    bool match = true;\n    for (int i = 0; match && i < xcsf->x_dim; ++i) {\n        const double lb = csr ? cond->b1[i] - cond->b2[i] : fmin(cond->b1[i], cond->b2[i]);\n        const double ub = csr ? cond->b1[i] + cond->b2[i] : fmax(cond->b1[i], cond->b2[i]);\n        match = x[i] >= lb && x[i] <= ub;\n    }\n    return match;")],
 [(RE, "            if (l1 > l2 || u1 < u2) {\n                return false;\n            }\n        }\n    }\n    return true;", "            if (!(l1 <= l2 && u1 >= u2)) {\n                return false;\n            }\n        }\n    }\n    return true;")],
 [(EL, "        const double d = (x[i] - cond->center[i]) / cond->spread[i];\n        dist += d * d;", "        const double d = x[i] - cond->center[i];\n        const double s = cond->spread[i];\n        dist += (d * d) / (s * s);")],
 [(EL, "            temp[i] += cond2->spread[i];\n            if (cond_ellipsoid_dist(xcsf, c1, temp) > 1) {\n                free(temp);\n                return false;\n            }\n            temp[i] -= 2 * cond2->spread[i];", "            temp[i] = cond2->center[i] + cond2->spread[i];\n            if (cond_ellipsoid_dist(xcsf, c1, temp) > 1) {\n                free(temp);\n                return false;\n            }\n            temp[i] = cond2->center[i] - cond2->spread[i];")],
 [(EL, "    double *temp = malloc(sizeof(double) * xcsf->x_dim);\n    memcpy(temp, cond2->center, sizeof(double) * xcsf->x_dim);", "    double *temp = malloc(sizeof(double) * xcsf->x_dim);\n    for (int i = 0; i < xcsf->x_dim; ++i) {\n        temp[i] = cond2->center[i];\n    }")],
 [(TE, "    for (int i = 0; i < xcsf->x_dim; ++i) {\n        float_to_binary(x[i], cond->tmp_input, bits);\n        for (int j = 0; j < bits; ++j) {\n            const char s = cond->string[i * bits + j];\n            if (s != DONT_CARE && s != cond->tmp_input[j]) {\n                return false;\n            }\n        }\n    }\n    return true;", "    const char *s = cond->string;\n    for (int i = 0; i < xcsf->x_dim; ++i) {\n        float_to_binary(x[i], cond->tmp_input, bits);\n        for (int j = 0; j < bits; ++j) {\n            if (s[j] == DONT_CARE) {\n                continue;\n            }\n            if (s[j] != cond->tmp_input[j]) {\n                return false;\n            }\n        }\n        s += bits;\n    }\n    return true;")],
 [(TE, "    for (int i = 0; i < xcsf->x_dim; ++i) {\n        float_to_binary(x[i], cond->tmp_input, bits);\n        for (int j = 0; j < bits; ++j) {\n            const char s = cond->string[i * bits + j];\n            if", "    int k = 0;\n    for (int i = 0; i < xcsf->x_dim; ++i) {\n        float_to_binary(x[i], cond->tmp_input, bits);\n        for (int j = 0; j < bits; ++j) {\n            const char s = cond->string[k];\n            ++k;\n            if")],
 [(TE, "        if (cond1->string[i] != DONT_CARE &&\n            cond1->string[i] != cond2->string[i]) {\n            return false;\n        }\n        if (cond1->string[i] != cond2->string[i]) {\n            general = true;\n        }", "        const char a = cond1->string[i];\n        const char b = cond2->string[i];\n        if (a != b) {\n            if (a != DONT_CARE) {\n                return false;\n            }\n            general = true;\n        }")],
 [(GP, "    if (tree_eval(&cond->gp, xcsf->cond->targs, x) > 0.5) {\n        return true;\n    }\n    return false;", "    const double out = tree_eval(&cond->gp, xcsf->cond->targs, x);\n    return out > 0.5;")],
 [(GP, "    do {\n        tree_free(&cond->gp);\n        tree_rand(&cond->gp, xcsf->cond->targs);\n    } while (!cond_gp_match(xcsf, c, x));", "    for (;;) {\n        tree_free(&cond->gp);\n        tree_rand(&cond->gp, xcsf->cond->targs);\n        if (cond_gp_match(xcsf, c, x)) {\n            break;\n        }\n    }")],
 [(RD, "            action += (int) pow(2, i);", "            action += 1 << i;")],
 [(RD, "    int action = 0;\n    for (int i = 0; i < cond->n_outputs; ++i) {\n        if (graph_output(&cond->dgp, i + 1) > 0.5) {\n            action += (int) pow(2, i);\n        }\n    }", "    int action = 0;\n    int bit = 1;\n    for (int i = 0; i < cond->n_outputs; ++i) {\n        if (graph_output(&cond->dgp, i + 1) > 0.5) {\n            action += bit;\n        }\n        bit *= 2;\n    }")],
 [(RD, "    do {\n        graph_rand(&cond->dgp);\n    } while (!rule_dgp_cond_match(xcsf, c, x) ||\n             rule_dgp_act_compute(xcsf, c, x) != action);", "    bool covered = false;\n    while (!covered) {\n        graph_rand(&cond->dgp);\n        covered = rule_dgp_cond_match(xcsf, c, x) &&\n            rule_dgp_act_compute(xcsf, c, x) == action;\n    }")],
 [(AI, "    if (rand_uniform(0, 1) < act->mu[0]) {\n        const int old = act->action;\n        act->action = rand_uniform_int(0, xcsf->n_actions);\n        if (old != act->action) {\n            return true;\n        }\n    }\n    return false;", "    if (rand_uniform(0, 1) >= act->mu[0]) {\n        return false;\n    }\n    const int new = rand_uniform_int(0, xcsf->n_actions);\n    const bool changed = new != act->action;\n    act->action = new;\n    return changed;")],
 [(RE, "        double orig = b1[i];\n        b1[i] += rand_normal(0, cond->mu[0]);\n        b1[i] = clamp(b1[i], xcsf->cond->min, xcsf->cond->max);\n        if (orig != b1[i]) {\n            changed = true;\n        }\n        orig = b2[i];", "        const double v = clamp(b1[i] + rand_normal(0, cond->mu[0]), xcsf->cond->min, xcsf->cond->max);\n        changed = changed || v != b1[i];\n        b1[i] = v;\n        double orig = b2[i];")],
 [(RE, "bool\ncond_rectangle_crossover(", "static void\nswap(double *a, double *b)\n{\n    const double t = *a;\n    *a = *b;\n    *b = t;\n}\n\nbool\ncond_rectangle_crossover("), (RE, "                const double tmp = cond1->b1[i];\n                cond1->b1[i] = cond2->b1[i];\n                cond2->b1[i] = tmp;\n", "                swap(&cond1->b1[i], &cond2->b1[i]);\n")],
]
