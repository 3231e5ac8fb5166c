CHECK = 'C12'
BROKEN = [
 [('xcsf/pred_nlms.c', "    // prediction\n", "    if (c->exp > 100000) p->weights[0] *= 0.999;\n    // prediction\n")] if 0 else
 [('xcsf/xcs_supervised.c', "    param_set_explore(xcsf, false);\n    double err = 0;\n    for (int row", "    double err = 0;\n    for (int row")],
 [('xcsf/xcs_supervised.c', "    if (xcsf->explore) {\n        clset_update(xcsf, &xcsf->mset, x, y, true);", "    if (xcsf->explore || (y != NULL && xcsf->mset.size == 1)) {\n        clset_update(xcsf, &xcsf->mset, x, y, true);")],
 [('xcsf/xcs_supervised.c', "        clset_match(xcsf, x, false);", "        clset_match(xcsf, x, xcsf->pset.size == 0);")],
 [('xcsf/xcs_supervised.c', "        ea(xcsf, &xcsf->mset);\n    }", "    }\n    ea(xcsf, &xcsf->mset);\n")],
 [('xcsf/cond_rectangle.c', "cond_rectangle_match(const struct XCSF *xcsf, const struct Cl *c,\n                     const double *x)\n{", "cond_rectangle_match(const struct XCSF *xcsf, const struct Cl *c,\n                     const double *x)\n{\n    if (x[0] > 2) ((struct CondRectangle *) c->cond)->b1[0] = x[0];")],
 [('xcsf/pred_neural.c', "neural_propagate(&pred->net, x, xcsf->explore)", "neural_propagate(&pred->net, x, true)")],
 [('xcsf/neural_layer_dropout.c', "    if (!net->train) {", "    if (!net->train && l->n_inputs > 1) {")],
 [('xcsf/cl.c', "    ++(c->age);\n", "    ++(c->age);\n    c->time = xcsf->time;\n")],
 [('xcsf/clset.c', "    xcsf->mfrac += (clset_mfrac(xcsf) - xcsf->mfrac) * xcsf->BETA;\n}", "    xcsf->mfrac += (clset_mfrac(xcsf) - xcsf->mfrac) * xcsf->BETA;\n    ++(xcsf->time);\n}")],
 [('xcsf/clset.c', "clset_mean_eta(", "clset_mean_eta(")] if 0 else
 [('xcsf/cl.c', "    if (c->err > xcsf->E0) {\n        const double acc", "    if (c->err > xcsf->E0) {\n        ((struct Cl *) c)->age = 0;\n        const double acc")],
]
KEPT = [
 [('xcsf/xcs_supervised.c', "    param_set_explore(xcsf, false);\n    double err = 0;\n    for (int row", "    double err = 0;\n    xcsf->explore = false;\n    for (int row")],
 [('xcsf/xcs_supervised.c', "    if (xcsf->explore) {\n        clset_update(xcsf, &xcsf->mset, x, y, true);\n        ea(xcsf, &xcsf->mset);\n    }\n", "    const bool learn = xcsf->explore;\n    if (learn) {\n        clset_update(xcsf, &xcsf->mset, x, y, true);\n    }\n    if (learn) {\n        ea(xcsf, &xcsf->mset);\n    }\n")],
 [('xcsf/neural.c', "    net->train = train;", "    net->train = train ? true : false;")],
]
