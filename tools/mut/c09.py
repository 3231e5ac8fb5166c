CHECK = 'C09'
c, e = 'xcsf/clset.c', 'xcsf/ea.c'
BROKEN = [
 [(c, "        --(xcsf->pset.size);\n", "")],
 [(c, "        clset_add(&xcsf->kset, del->cl);\n        --", "        --")],
 [(c, "    --(xcsf->pset.num);\n", "    xcsf->pset.num -= del->cl->num + 1;\n")],
 [(c, "            clset_validate(&xcsf->pset);\n", "")],
 [(c, "                clset_add(&xcsf->kset, c);\n                subsumed", "                subsumed")],
 [(c, "                s->num += c->num;", "                ++(s->num);")],
 [(c, "        if (subsumed) {", "        if (subsumed && set->size > 2) {")],
 [(c, "                c->num = 0;\n", "")],
 [(e, "        ++(c2p->num);\n        ++(xcsf->pset.num);\n", "        ++(c2p->num);\n")],
 [(e, "            ++(xcsf->pset.num);\n            cl_free", "            cl_free")],
 [(c, "    set->num += c->num;\n}", "    ++(set->num);\n}")],
 [(c, "            set->num += iter->cl->num;\n            prev", "            ++(set->num);\n            prev")],
 [(c, "            ++(set->size);\n            set->num", "            set->num")],
 [(c, "    set->size = 0;\n    set->num = 0;\n    struct Clist *prev", "    set->size = 0;\n    struct Clist *prev")],
 [(c, "            delprev->next = del->next;", "            delprev->next = del->next->next;")],
 [(e, "    if (!cmod && !mmod) {\n        ++(c1p->num);\n        ++(xcsf->pset.num);", "    if (!cmod && !mmod) {\n        ++(c1p->num);\n        if (xcsf->pset.num < xcsf->POP_SIZE)\n        ++(xcsf->pset.num);")],
 [(c, "    if (del->cl->num == 0) {\n        clset_add", "    if (del->cl->num <= 1) {\n        clset_add")],
 [('xcsf/cl.c', "    ++(c->exp);", "    ++(c->exp);\n    if (c->num > 100) --(c->num);")],
]
KEPT = [
 [(c, "    --(del->cl->num);\n    --(xcsf->pset.num);\n", "    struct Cl *dc = del->cl;\n    dc->num -= 1;\n    xcsf->pset.num = xcsf->pset.num - 1;\n")],
 [(c, "            delprev->next = del->next;\n        }\n        free(del);\n", "            delprev->next = del->next;\n        }\n        --(xcsf->pset.size);\n        free(del);\n"),
  (c, "        --(xcsf->pset.size);\n        if", "        if")],
 [(c, "    // remove macro-classifiers as necessary\n    if (del->cl->num == 0) {\n", "    if (del->cl->num > 0) {\n        return;\n    }\n    {\n")],
 [(e, "    if (!cmod && !mmod) {\n        ++(c1p->num);\n        ++(xcsf->pset.num);", "    if (!cmod && !mmod) {\n        ++(xcsf->pset.num);\n        c1p->num = c1p->num + 1;")],
 [(c, "        bool subsumed = false;\n        iter = set->list;\n        while (iter != NULL) {", "        bool subsumed = false;\n        for (iter = set->list; iter != NULL; iter = iter->next) {"),
  (c, "                subsumed = true;\n            }\n            iter = iter->next;\n", "                subsumed = true;\n            }\n")],
 [(c, "        if (subsumed) {\n            clset_validate(set);\n            clset_validate(&xcsf->pset);\n        }", "        if (!subsumed) {\n            return;\n        }\n            clset_validate(&xcsf->pset);\n            clset_validate(set);\n")],
 [(c, "        bool subsumed = false;\n        iter", "        int subsumed = 0;\n        iter"), (c, "                subsumed = true;", "                ++subsumed;"), (c, "if (subsumed) {", "if (subsumed > 0) {")],
 [(c, """    if (set->list == NULL) {
        set->list = malloc(sizeof(struct Clist));
        set->list->cl = c;
        set->list->next = NULL;
    } else {
        struct Clist *new = malloc(sizeof(struct Clist));
        new->cl = c;
        new->next = set->list;
        set->list = new;
    }
""", """    struct Clist *new = malloc(sizeof(struct Clist));
    new->cl = c;
    new->next = set->list;
    set->list = new;
""")],
 [(c, """    set->size = 0;
    set->num = 0;
    struct Clist *prev = NULL;
    struct Clist *iter = set->list;
    while (iter != NULL) {
        if (iter->cl == NULL || iter->cl->num == 0) {
            if (prev == NULL) {
                set->list = iter->next;
                free(iter);
                iter = set->list;
            } else {
                prev->next = iter->next;
                free(iter);
                iter = prev->next;
            }
        } else {
            ++(set->size);
            set->num += iter->cl->num;
            prev = iter;
            iter = iter->next;
        }
    }
""", """    int size = 0;
    int num = 0;
    struct Clist *prev = NULL;
    struct Clist *iter = set->list;
    while (iter != NULL) {
        struct Clist *next = iter->next;
        if (iter->cl == NULL || iter->cl->num == 0) {
            if (prev == NULL) {
                set->list = next;
            } else {
                prev->next = next;
            }
            free(iter);
        } else {
            ++size;
            num += iter->cl->num;
            prev = iter;
        }
        iter = next;
    }
    set->size = size;
    set->num = num;
""")],
 [(c, """    set->size = 0;
    set->num = 0;
    struct Clist *prev = NULL;
    struct Clist *iter = set->list;
    while (iter != NULL) {
        if (iter->cl == NULL || iter->cl->num == 0) {
            if (prev == NULL) {
                set->list = iter->next;
                free(iter);
                iter = set->list;
            } else {
                prev->next = iter->next;
                free(iter);
                iter = prev->next;
            }
        } else {
            ++(set->size);
            set->num += iter->cl->num;
            prev = iter;
            iter = iter->next;
        }
    }
""", """    set->size = 0;
    set->num = 0;
    struct Clist **link = &set->list;
    while (*link != NULL) {
        struct Clist *iter = *link;
        if (iter->cl == NULL || iter->cl->num == 0) {
            *link = iter->next;
            free(iter);
        } else {
            ++(set->size);
            set->num += iter->cl->num;
            link = &iter->next;
        }
    }
""")],
 [(e, """    // check if either parent subsumes the offspring
    if (cl_subsumer(xcsf, c1p) && cl_general(xcsf, c1p, c)) {
        ++(c1p->num);
        ++(xcsf->pset.num);
        cl_free(xcsf, c);
    } else if (cl_subsumer(xcsf, c2p) && cl_general(xcsf, c2p, c)) {
        ++(c2p->num);
        ++(xcsf->pset.num);
        cl_free(xcsf, c);
    }
    // attempt""", """    struct Cl *s = NULL;
    if (cl_subsumer(xcsf, c1p) && cl_general(xcsf, c1p, c)) {
        s = c1p;
    } else if (cl_subsumer(xcsf, c2p) && cl_general(xcsf, c2p, c)) {
        s = c2p;
    }
    if (s != NULL) {
        ++(s->num);
        ++(xcsf->pset.num);
        cl_free(xcsf, c);
    }
    // attempt""")],
 [(c, "        if (delprev == NULL) {\n            xcsf->pset.list = del->next;\n        } else {\n            delprev->next = del->next;\n        }\n", "        struct Clist **link = (delprev == NULL) ? &xcsf->pset.list : &delprev->next;\n        *link = del->next;\n")],
]
