CHECK = 'C17'
CL = 'xcsf/cl.c'
CS = 'xcsf/clset.c'
UPD = """    if (c->exp * xcsf->BETA < 1) {
        c->err = (c->err * (c->exp - 1) + error) / c->exp;
        c->size = (c->size * (c->exp - 1) + set_num) / c->exp;
    } else {
        c->err += xcsf->BETA * (error - c->err);
        c->size += xcsf->BETA * (set_num - c->size);
    }
"""
FIT = """    double acc_sum = 0;
    double accs[set->size];
    // calculate accuracies
    const struct Clist *iter = set->list;
    for (int i = 0; iter != NULL && i < set->size; ++i) {
        accs[i] = cl_acc(xcsf, iter->cl);
        acc_sum += accs[i] * iter->cl->num;
        iter = iter->next;
    }
    // update fitnesses
    iter = set->list;
    for (int i = 0; iter != NULL && i < set->size; ++i) {
        cl_update_fit(xcsf, iter->cl, acc_sum, accs[i]);
        iter = iter->next;
    }
"""
TOT = """    double sum = 0;
    const struct Clist *iter = set->list;
    while (iter != NULL) {
        sum += iter->cl->fit;
        iter = iter->next;
    }
    return sum;
"""
BROKEN = [
 [(CL, "c->err > xcsf->E0) {", "c->err >= xcsf->E0 * 0.5) {")],
 [(CL, "pow(c->err / xcsf->E0, -(xcsf->NU))", "pow(c->err / xcsf->E0, xcsf->NU)")],
 [(CL, "return fmax(acc, DBL_EPSILON);", "return acc;")],
 [(CL, "c->exp * xcsf->BETA < 1", "c->exp * xcsf->BETA < 2")],
 [(CL, "c->size = (c->size * (c->exp - 1) + set_num) / c->exp;", "c->size = (c->size * c->exp + set_num) / c->exp;")],
 [(CL, "c->size += xcsf->BETA * (set_num - c->size);", "c->size += xcsf->BETA * (set_num - c->num);")],
 [(CL, "(acc * c->num) / acc_sum - c->fit", "acc / acc_sum - c->fit")],
 [(CL, "    if (!cur) { //", "    if (cur) { //")],
 [(CL, "    cond_update(xcsf, c, x, y);\n    pred_update(xcsf, c, x, y);", "    pred_update(xcsf, c, x, y);\n    pred_update(xcsf, c, x, y);")],
 [(CL, "c->exp > xcsf->THETA_DEL && c->fit", "c->exp > xcsf->THETA_SUB && c->fit")],
 [(CL, "xcsf->DELTA * avg_fit * c->num)", "xcsf->DELTA * avg_fit)")],
 [(CL, "return c->size * c->num * avg_fit / (c->fit / c->num);", "return c->size * c->num * avg_fit / c->fit;")],
 [(CL, "    if (c->m) {\n        ++(c->mtotal);\n    }\n    ++(c->age);", "    if (c->m) {\n        ++(c->mtotal);\n        ++(c->age);\n    }")],
 [(CL, "    c->age = 0;\n    c->mtotal = 0;\n}", "    c->age = 1;\n    c->mtotal = 0;\n}")],
 [(CL, "c->exp > xcsf->THETA_SUB && c->err < xcsf->E0", "c->exp > xcsf->THETA_SUB || c->err < xcsf->E0")],
 [(CS, "sum += iter->cl->time * iter->cl->num;", "sum += iter->cl->time;")],
 [(CS, "        sum += iter->cl->fit;", "        sum += iter->cl->fit * iter->cl->num;")],
 [(CS, "cl_update_fit(xcsf, iter->cl, acc_sum, accs[i]);", "cl_update_fit(xcsf, iter->cl, acc_sum, accs[0]);")],
 [(CS, "acc_sum += accs[i] * iter->cl->num;", "acc_sum += accs[i];")],
 [(CS, "        cl_update(xcsf, blist[i]->cl, x, y, set->num, cur);", "        cl_update(xcsf, blist[i]->cl, x, y, set->size, cur);")],
 [(CS, "    for (int i = 0; i < set->size; ++i) {\n        cl_update(", "    for (int i = 1; i < set->size; ++i) {\n        cl_update(")],
]
KEPT = [
 [(CL, UPD, """    double rate = xcsf->BETA;
    if (c->exp * xcsf->BETA < 1) {
        rate = 1.0 / c->exp;
    }
    c->size += rate * (set_num - c->size);
    c->err += rate * (error - c->err);
""")],
 [(CL, UPD, """    const int n = c->exp;
    if (!(n * xcsf->BETA < 1)) {
        c->err = c->err + xcsf->BETA * (error - c->err);
        c->size = (1 - xcsf->BETA) * c->size + xcsf->BETA * set_num;
    } else {
        c->err = (c->err * (n - 1) + error) / n;
        c->size = (c->size * (n - 1) + set_num) / n;
    }
""")],
 [(CL, "void\ncl_update(const", "static double\nmam(const double v, const double t, const int n, const double beta)\n{\n    if (n * beta < 1) {\n        return (v * (n - 1) + t) / n;\n    }\n    return v + beta * (t - v);\n}\n\nvoid\ncl_update(const"), (CL, UPD, "    c->err = mam(c->err, error, c->exp, xcsf->BETA);\n    c->size = mam(c->size, set_num, c->exp, xcsf->BETA);\n")],
 [(CL, "    if (c->err > xcsf->E0) {\n        const double acc = xcsf->ALPHA * pow(c->err / xcsf->E0, -(xcsf->NU));\n        return fmax(acc, DBL_EPSILON);\n    }\n    return 1;", "    double acc = 1;\n    if (xcsf->E0 < c->err) {\n        acc = pow(c->err / xcsf->E0, -(xcsf->NU));\n        acc *= xcsf->ALPHA;\n        if (acc < DBL_EPSILON) {\n            acc = DBL_EPSILON;\n        }\n    }\n    return acc;")],
 [(CS, FIT, """    double acc_sum = 0;
    for (const struct Clist *it = set->list; it != NULL; it = it->next) {
        acc_sum += cl_acc(xcsf, it->cl) * it->cl->num;
    }
    for (const struct Clist *it = set->list; it != NULL; it = it->next) {
        cl_update_fit(xcsf, it->cl, acc_sum, cl_acc(xcsf, it->cl));
    }
""")],
 [(CS, FIT, """    double accs[set->size];
    const struct Clist *iter = set->list;
    int n = 0;
    while (iter != NULL && n < set->size) {
        accs[n] = cl_acc(xcsf, iter->cl);
        iter = iter->next;
        ++n;
    }
    double acc_sum = 0;
    iter = set->list;
    for (int i = 0; iter != NULL && i < set->size; ++i) {
        acc_sum += accs[i] * iter->cl->num;
        iter = iter->next;
    }
    iter = set->list;
    for (int i = 0; iter != NULL && i < set->size; ++i) {
        cl_update_fit(xcsf, iter->cl, acc_sum, accs[i]);
        iter = iter->next;
    }
""")],
 [(CS, FIT, """    double acc_sum = 0;
    double *accs = malloc(sizeof(double) * set->size);
    const struct Clist *iter = set->list;
    for (int i = 0; iter != NULL && i < set->size; ++i) {
        const struct Cl *c = iter->cl;
        accs[i] = cl_acc(xcsf, c);
        acc_sum += accs[i] * c->num;
        iter = iter->next;
    }
    iter = set->list;
    for (int i = 0; iter != NULL && i < set->size; ++i) {
        cl_update_fit(xcsf, iter->cl, acc_sum, accs[i]);
        iter = iter->next;
    }
    free(accs);
""")],
 [(CS, TOT, """    double sum = 0;
    for (const struct Clist *p = set->list; p; p = p->next) {
        const struct Cl *c = p->cl;
        sum = sum + c->fit;
    }
    return sum;
""")],
 [(CS, TOT, """    double sum = 0;
    const struct Clist *iter = set->list;
    if (iter != NULL) {
        do {
            sum += iter->cl->fit;
            iter = iter->next;
        } while (iter != NULL);
    }
    return sum;
""")],
 [(CL, "    c->m = cond_match(xcsf, c, x);\n    if (c->m) {\n        ++(c->mtotal);\n    }\n    ++(c->age);\n    return c->m;", "    const bool m = cond_match(xcsf, c, x);\n    ++(c->age);\n    if (m) {\n        c->mtotal += 1;\n    }\n    c->m = m;\n    return m;")],
 [(CL, "    if (c->exp > xcsf->THETA_DEL && c->fit < xcsf->DELTA * avg_fit * c->num) {\n        return c->size * c->num * avg_fit / (c->fit / c->num);\n    }\n    return c->size * c->num;", "    const double vote = c->size * c->num;\n    if (c->exp <= xcsf->THETA_DEL) {\n        return vote;\n    }\n    if (c->fit >= xcsf->DELTA * avg_fit * c->num) {\n        return vote;\n    }\n    return vote * avg_fit / (c->fit / c->num);")],
 [(CL, "        return (double) c->mtotal / c->age;\n    }\n    return 0;", "        const double t = c->mtotal;\n        return t / c->age;\n    }\n    return 0;")],
 [(CS, "    #pragma omp parallel for\n    for (int i = 0; i < set->size; ++i) {\n        cl_update(xcsf, blist[i]->cl, x, y, set->num, cur);", "    const int n = set->size;\n    #pragma omp parallel for\n    for (int i = 0; i < n; ++i) {\n        struct Cl *c = blist[i]->cl;\n        cl_update(xcsf, c, x, y, set->num, cur);")],
 [(CS, "    struct Clist *blist[set->size];\n    struct Clist *iter = set->list;\n    for (int i = 0; iter != NULL && i < set->size; ++i) {\n        blist[i] = iter;\n        iter = iter->next;\n    }\n    #pragma omp parallel for\n    for (int i = 0; i < set->size; ++i) {\n        cl_update(xcsf, blist[i]->cl, x, y, set->num, cur);", "    struct Cl *blist[set->size];\n    int i = 0;\n    for (struct Clist *iter = set->list; iter != NULL && i < set->size; iter = iter->next) {\n        blist[i++] = iter->cl;\n    }\n    #pragma omp parallel for\n    for (int i = 0; i < set->size; ++i) {\n        cl_update(xcsf, blist[i], x, y, set->num, cur);")],
]
