CHECK = 'C23'
CS, EA = 'xcsf/clset.c', 'xcsf/ea.c'
BROKEN = [
 [(CS, "iter->cl->age > xcsf->M_PROBATION", "iter->cl->age >= xcsf->M_PROBATION")],
 [(CS, "            *delprev = prev;\n            break;", "            *delprev = NULL;\n            break;")],
 [(CS, "/ xcsf->pset.num;\n    double total_vote", "/ xcsf->pset.size;\n    double total_vote")],
 [(CS, "xcsf->error < xcsf->E0) ? 2 : 1", "xcsf->error < xcsf->E0) ? 1 : 2")],
 [(CS, "if (*del == NULL || s > delsize) {", "if (*del == NULL || s < delsize) {")],
 [(CS, "            delsize = s;\n", "")],
 [(CS, "            *delprev = prev;\n            delsize", "            delsize")],
 [(CS, "            cl_cond_size(xcsf, iter->cl) + cl_pred_size(xcsf, iter->cl);", "            cl_cond_size(xcsf, iter->cl);")],
 [(CS, "        if (delprev == NULL) {\n            xcsf->pset.list = del->next;\n        } else {\n            delprev->next = del->next;\n        }\n        free(del);", "        if (delprev == NULL) {\n            xcsf->pset.list = del->next;\n        } else {\n            delprev->next = del->next != NULL ? del->next->next : NULL;\n        }\n        free(del);")],
 [(CS, "        clset_add(&xcsf->kset, del->cl);\n", "        clset_add(&xcsf->mset, del->cl);\n")],
 [(CS, "    for (int i = 0; i < xcsf->n_actions; ++i) {\n        if (!act_covered[i]) {\n            return false;", "    for (int i = 1; i < xcsf->n_actions; ++i) {\n        if (!act_covered[i]) {\n            return false;")],
 [(CS, "s == NULL || cl_general(xcsf, c, s)", "s == NULL || cl_general(xcsf, s, c)")],
 [(CS, "s != c && cl_general(xcsf, s, c)", "s != c && cl_subsumer(xcsf, c) && cl_general(xcsf, s, c)")],
 [(CS, "                s->num += c->num;\n                c->num = 0;", "                s->num += 1;\n                c->num = 0;")],
 [(CS, "                clset_add(&xcsf->kset, c);\n                subsumed", "                subsumed")],
 [(CS, "            clset_validate(set);\n            clset_validate(&xcsf->pset);", "            clset_validate(&xcsf->pset);")],
 [(CS, "        new->next = set->list;\n", "        new->next = set->list->next;\n")],
 [(CS, "    ++(set->size);\n    set->num += c->num;", "    ++(set->size);\n    set->num += 1;")],
 [(CS, "            ++(set->size);\n            set->num += iter->cl->num;\n            prev = iter;", "            ++(set->size);\n            set->num += iter->cl->num;\n            prev = set->size == 1 ? NULL : iter;")],
 [(CS, "iter->cl == NULL || iter->cl->num == 0", "iter->cl == NULL || iter->cl->num <= 1")],
 [(CS, "    while (iter != NULL) {\n        set->list = iter->next;\n        free(iter);\n        iter = set->list;\n    }\n    set->size = 0;\n    set->num = 0;", "    while (iter != NULL) {\n        set->list = iter->next;\n        free(iter);\n        iter = set->list;\n    }\n    set->size = 0;")],
 [(EA, "c1->err = xcsf->ea->err_reduc * ((c1p->err + c2p->err) * 0.5);", "c1->err = xcsf->ea->err_reduc * (c1p->err + c2p->err);")],
 [(EA, "        c1->fit = c1p->fit / c1p->num;\n", "        c1->fit = c1p->fit;\n")],
 [(EA, "c2->fit = xcsf->ea->fit_reduc * (c2p->fit / c2p->num);", "c2->fit = xcsf->ea->fit_reduc * (c2p->fit / c1p->num);")],
 [(EA, "c2->err = xcsf->ea->err_reduc * c2p->err;", "c2->err = xcsf->ea->fit_reduc * c2p->err;")],
 [(EA, "cl_subsumer(xcsf, c2p) && cl_general(xcsf, c2p, c)", "cl_general(xcsf, c2p, c)")],
 [(EA, "cl_subsumer(xcsf, iter->cl) && cl_general(xcsf, iter->cl, c)", "cl_subsumer(xcsf, iter->cl) && cl_general(xcsf, c, iter->cl)")],
 [(EA, "++(candidates[rand_uniform_int(0, choices)]->cl->num);", "++(candidates[0]->cl->num);")],
 [(EA, "        ++(c2p->num);\n", "        ++(c1p->num);\n")],
 [(EA, "if (!cmod && !mmod) {", "if (!cmod || !mmod) {")],
 [(EA, "    while (p > sum) {\n        iter = iter->next;\n        sum += iter->cl->fit;", "    while (p > sum) {\n        iter = iter->next;\n        sum += iter->cl->fit / iter->cl->num;")],
 [(EA, "iter->cl->fit > winner->fit", "iter->cl->fit < winner->fit")],
 [(EA, "(rand_uniform(0, 1) < xcsf->ea->select_size)", "(rand_uniform(0, 1) > xcsf->ea->select_size)")],
 [(EA, "        *c2p = ea_select_rw(xcsf, set, fit_sum);", "        *c2p = ea_select_rw(xcsf, set, fit_sum - (*c1p)->fit);")],
 [(EA, "xcsf->time - clset_mean_time(set) < xcsf->ea->theta", "xcsf->time - clset_mean_time(set) <= xcsf->ea->theta")],
 [(EA, "    clset_set_times(xcsf, set);\n", "")],
 [(EA, "cl_init(xcsf, c2, c2p->size, c2p->time);", "cl_init(xcsf, c2, c1p->size, c2p->time);")],
 [(EA, "        ea_add(xcsf, set, c2p, c1p, c2, cmod, m2mod);", "        ea_add(xcsf, set, c2p, c1p, c2, cmod, m1mod);")],
 [(EA, "        ea_add(xcsf, set, c2p, c1p, c2, cmod, m2mod);", "        ea_add(xcsf, set, c1p, c2p, c2, cmod, m2mod);")],
 [(EA, "i * 2 < xcsf->ea->lambda", "i < xcsf->ea->lambda")],
 [(EA, "        cl_copy(xcsf, c2, c2p);\n", "        cl_copy(xcsf, c2, c1p);\n")],
]
KEPT = [
 [(CS, "    struct Clist *prev = NULL;\n    struct Clist *iter = xcsf->pset.list;\n    while (iter != NULL) {\n        if (iter->cl->mtotal == 0 && iter->cl->age > xcsf->M_PROBATION) {\n            *del = iter;\n            *delprev = prev;\n            break;\n        }\n        prev = iter;\n        iter = iter->next;\n    }", "    struct Clist *last = NULL;\n    for (struct Clist *p = xcsf->pset.list; p != NULL; last = p, p = p->next) {\n        const struct Cl *c = p->cl;\n        if (c->mtotal != 0 || c->age <= xcsf->M_PROBATION) {\n            continue;\n        }\n        *del = p;\n        *delprev = last;\n        return;\n    }")],
 [(CS, "    const int n_spins = (xcsf->COMPACTION && xcsf->error < xcsf->E0) ? 2 : 1;\n    for (int i = 0; i < n_spins; ++i) {", "    int n_spins = 1;\n    if (xcsf->COMPACTION) {\n        if (xcsf->error < xcsf->E0) {\n            ++n_spins;\n        }\n    }\n    for (int i = n_spins; i > 0; --i) {")],
 [(CS, "        const double p = rand_uniform(0, total_vote);\n        double sum = cl_del_vote(xcsf, iter->cl, avg_fit);\n        while (p > sum) {\n            prev = iter;\n            iter = iter->next;\n            sum += cl_del_vote(xcsf, iter->cl, avg_fit);\n        }", "        double p = rand_uniform(0, total_vote);\n        p -= cl_del_vote(xcsf, iter->cl, avg_fit);\n        while (p > 0) {\n            prev = iter;\n            iter = prev->next;\n            p -= cl_del_vote(xcsf, iter->cl, avg_fit);\n        }")],
 [(CS, "    if (set->list == NULL) {\n        set->list = malloc(sizeof(struct Clist));\n        set->list->cl = c;\n        set->list->next = NULL;\n    } else {\n        struct Clist *new = malloc(sizeof(struct Clist));\n        new->cl = c;\n        new->next = set->list;\n        set->list = new;\n    }\n", "    struct Clist *new = malloc(sizeof(struct Clist));\n    new->next = set->list;\n    new->cl = c;\n    set->list = new;\n")],
 [(CS, "            if (prev == NULL) {\n                set->list = iter->next;\n                free(iter);\n                iter = set->list;\n            } else {\n                prev->next = iter->next;\n                free(iter);\n                iter = prev->next;\n            }", "            struct Clist *next = iter->next;\n            if (prev == NULL) {\n                set->list = next;\n            } else {\n                prev->next = next;\n            }\n            free(iter);\n            iter = next;")],
 [(CS, "    --(del->cl->num);\n    --(xcsf->pset.num);\n    // remove macro-classifiers as necessary\n    if (del->cl->num == 0) {", "    xcsf->pset.num -= 1;\n    // remove macro-classifiers as necessary\n    if (--(del->cl->num) == 0) {")],
 [(CS, "        bool subsumed = false;\n        iter = set->list;\n        while (iter != NULL) {\n            struct Cl *c = iter->cl;\n            if (c != NULL && s != c && cl_general(xcsf, s, c)) {", "        bool subsumed = false;\n        for (iter = set->list; iter != NULL; iter = iter->next) {\n            struct Cl *c = iter->cl;\n            if (c == NULL || c == s) {\n                continue;\n            }\n            if (cl_general(xcsf, s, c)) {"), (CS, "                subsumed = true;\n            }\n            iter = iter->next;\n        }", "                subsumed = true;\n            }\n        }")],
 [(EA, "    if (cmod) {\n        c1->err = xcsf->ea->err_reduc * ((c1p->err + c2p->err) * 0.5);\n        c2->err = c1->err;\n        c1->fit = c1p->fit / c1p->num;\n        c2->fit = c2p->fit / c2p->num;\n        c1->fit = xcsf->ea->fit_reduc * ((c1->fit + c2->fit) * 0.5);\n        c2->fit = c1->fit;", "    if (cmod) {\n        const double f1 = c1p->fit / c1p->num;\n        const double f2 = c2p->fit / c2p->num;\n        c2->fit = xcsf->ea->fit_reduc * 0.5 * (f1 + f2);\n        c1->fit = c2->fit;\n        c2->err = 0.5 * xcsf->ea->err_reduc * (c1p->err + c2p->err);\n        c1->err = c2->err;")],
 [(EA, "    for (int i = 0; i * 2 < xcsf->ea->lambda; ++i) {", "    for (int i = 0; i < xcsf->ea->lambda; i += 2) {")],
 [(EA, "        cl_init(xcsf, c1, c1p->size, c1p->time);\n        cl_init(xcsf, c2, c2p->size, c2p->time);\n        cl_copy(xcsf, c1, c1p);\n        cl_copy(xcsf, c2, c2p);", "        cl_init(xcsf, c1, c1p->size, c1p->time);\n        cl_copy(xcsf, c1, c1p);\n        cl_init(xcsf, c2, c2p->size, c2p->time);\n        cl_copy(xcsf, c2, c2p);")],
 [(EA, "    if (!cmod && !mmod) {\n        ++(c1p->num);\n        ++(xcsf->pset.num);\n        cl_free(xcsf, c1);\n    } else if (xcsf->ea->subsumption) {", "    const bool same = !(cmod || mmod);\n    if (same) {\n        cl_free(xcsf, c1);\n        ++(xcsf->pset.num);\n        ++(c1p->num);\n    } else if (xcsf->ea->subsumption) {")],
 [(EA, "ea_select_rw(const struct XCSF *xcsf, const struct Set *set,\n             const double fit_sum)\n{\n    (void) xcsf;", "ea_select_rw(const struct Set *set, const double fit_sum)\n{"), (EA, "        *c1p = ea_select_rw(xcsf, set, fit_sum);\n        *c2p = ea_select_rw(xcsf, set, fit_sum);", "        *c1p = ea_select_rw(set, fit_sum);\n        *c2p = ea_select_rw(set, fit_sum);")],
]
