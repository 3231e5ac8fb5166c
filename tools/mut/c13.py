CHECK = 'C13'
BROKEN = [
 [('xcsf/cl.c', "    ++(c->age);\n", "    ++(c->age);\n    ((struct XCSF *) xcsf)->mfrac += 1;\n")],
 [('xcsf/pred_nlms.c', "pred_nlms_compute(const struct XCSF *xcsf, const struct Cl *c, const double *x)\n{", "pred_nlms_compute(const struct XCSF *xcsf, const struct Cl *c, const double *x)\n{\n    static double tmp[64];\n    tmp[0] = x[0];")],
 [('xcsf/clset.c', "    #pragma omp parallel for\n    for (int i = 0; i < set->size; ++i) {\n        cl_update(xcsf, blist[i]->cl", "    #pragma omp parallel for\n    for (int i = 0; i < set->size; ++i) {\n        cl_update(xcsf, blist[i/2]->cl")],
 [('xcsf/clset.c', "    // process conditions and actions setting m flags in parallel\n    #pragma omp parallel for\n    for (int i = 0; i < xcsf->pset.size; ++i) {\n        cl_match(xcsf, blist[i]->cl, x);\n", "    // process conditions and actions setting m flags in parallel\n    #pragma omp parallel for\n    for (int i = 0; i < xcsf->pset.size; ++i) {\n        if (cl_match(xcsf, blist[i]->cl, x)) clset_add(&xcsf->mset, blist[i]->cl);\n")],
 [('xcsf/pa.c', "            cl_predict(xcsf, clist[i], x);\n        }\n    }\n#else", "            const double *q = cl_predict(xcsf, clist[i], x);\n            pa[clist[i]->action * xcsf->y_dim] += q[0] * 0;\n        }\n    }\n#else")],
 [('xcsf/pa.c', "            iter = iter->next;\n        }\n    }\n    #pragma omp", "            if (i % 2) iter = iter->next;\n        }\n    }\n    #pragma omp")],
 [('xcsf/clset.c', "    for (int i = 0; i < set->size; ++i) {\n        cl_update(xcsf, blist[i]->cl, x, y, set->num, cur);\n    }\n#else", "    for (int i = 0; i < set->size; ++i) {\n        cl_update(xcsf, blist[i]->cl, x, y, set->num + (blist[0]->cl->exp > 1 ? 1 : 0), cur);\n    }\n#else")],
 [('xcsf/cl.c', "    ++(c->exp);\n", "    ++(c->exp);\n    ((struct XCSF *) xcsf)->pset.num += 0;\n")],
 [('xcsf/neural.c', "    net->train = train;", "    net->train = train;\n    static const double *last; last = input;")],
 [('xcsf/clset.c', "    struct Clist *blist[set->size];\n    struct Clist *iter = set->list;\n    for (int i = 0; iter != NULL && i < set->size; ++i) {\n        blist[i] = iter;\n        iter = iter->next;\n    }\n    #pragma omp parallel for\n    for (int i = 0; i < set->size; ++i) {\n        cl_update(xcsf, blist[i]->cl, x, y, set->num, cur);\n    }\n", "    struct Clist *blist[set->size];\n    struct Clist *iter = set->list;\n    struct Cl *c;\n    for (int i = 0; iter != NULL && i < set->size; ++i) {\n        blist[i] = iter;\n        iter = iter->next;\n    }\n    #pragma omp parallel for\n    for (int i = 0; i < set->size; ++i) {\n        c = blist[i]->cl;\n        cl_update(xcsf, c, x, y, set->num, cur);\n    }\n")],
]
KEPT = [
 [('xcsf/clset.c', "    #pragma omp parallel for\n    for (int i = 0; i < set->size; ++i) {\n        cl_update(xcsf, blist[i]->cl, x, y, set->num, cur);\n    }\n", "    const int n = set->size;\n    #pragma omp parallel for schedule(dynamic)\n    for (int i = n - 1; i >= 0; --i) {\n        struct Cl *c = blist[i]->cl;\n        cl_update(xcsf, c, x, y, set->num, cur);\n    }\n")],
 [('xcsf/clset.c', "    struct Clist *blist[set->size];\n    struct Clist *iter = set->list;\n    for (int i = 0; iter != NULL && i < set->size; ++i) {\n        blist[i] = iter;\n        iter = iter->next;\n    }\n    #pragma omp parallel for\n    for (int i = 0; i < set->size; ++i) {\n        cl_update(xcsf, blist[i]->cl, x, y, set->num, cur);\n    }\n", "    struct Cl *cls[set->size];\n    int n = 0;\n    for (struct Clist *iter = set->list; iter != NULL; iter = iter->next) {\n        cls[n++] = iter->cl;\n    }\n    #pragma omp parallel for schedule(guided, 4)\n    for (int i = 0; i < n; ++i) {\n        cl_update(xcsf, cls[i], x, y, set->num, cur);\n    }\n")],
 [('xcsf/clset.c', "    #pragma omp parallel for\n    for (int i = 0; i < set->size; ++i) {\n        cl_update(xcsf, blist[i]->cl, x, y, set->num, cur);\n    }\n", "    int k = 0;\n    #pragma omp parallel for reduction(+:k)\n    for (int i = 0; i < set->size; ++i) {\n        cl_update(xcsf, blist[i]->cl, x, y, set->num, cur);\n        k += 1;\n    }\n    (void) k;\n")],
 [('xcsf/clset.c', "        cl_match(xcsf, blist[i]->cl, x);\n        cl_action(xcsf, blist[i]->cl, x);\n", "        match_one(xcsf, blist[i], x);\n"), ('xcsf/clset.c', "void\nclset_match(", "static void match_one(struct XCSF *xcsf, struct Clist *e, const double *x) {\n    struct Cl *c = e->cl;\n    cl_match(xcsf, c, x);\n    cl_action(xcsf, c, x);\n}\nvoid\nclset_match(")],
]
