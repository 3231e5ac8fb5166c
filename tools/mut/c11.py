CHECK = 'C11'
c, e, r, s = 'xcsf/clset.c', 'xcsf/ea.c', 'xcsf/xcs_rl.c', 'xcsf/xcs_supervised.c'
BROKEN = [
 [(r, "        clset_validate(&xcsf->aset);\n", "")],
 [(r, "        clset_validate(&xcsf->prev_aset);\n        clset_update", "        clset_update")],
 [(c, "            clset_validate(&xcsf->mset);\n", "")],
 [(c, "            clset_validate(set);\n            clset_validate(&xcsf->pset);", "            clset_validate(&xcsf->pset);")],
 [(r, "    clset_free(&xcsf->prev_aset);\n    clset_kill", "    clset_kill")],
 [(r, "    clset_free(&xcsf->prev_aset);\n    xcsf->prev_aset = xcsf->aset;", "    xcsf->prev_aset = xcsf->aset;")],
 [(r, "    clset_free(&xcsf->mset);\n", "    if (xcsf->mset.size > 0 && xcsf->explore) clset_free(&xcsf->mset);\n")],
 [(s, "    if (xcsf->explore) {\n        clset_update(xcsf, &xcsf->mset, x, y, true);\n        ea(xcsf, &xcsf->mset);\n    }\n    clset_kill(xcsf, &xcsf->kset);\n", "    clset_kill(xcsf, &xcsf->kset);\n    clset_init(&xcsf->kset);\n    if (xcsf->explore) {\n        clset_update(xcsf, &xcsf->mset, x, y, true);\n        ea(xcsf, &xcsf->mset);\n    }\n    clset_kill(xcsf, &xcsf->kset);\n")],
 [(s, "    clset_kill(xcsf, &xcsf->kset);\n    clset_free(&xcsf->mset);", "    if (xcsf->explore) clset_kill(xcsf, &xcsf->kset);\n    clset_free(&xcsf->mset);")],
 [(e, "m2mod);\n    }\n    clset_pset_enforce_limit(xcsf);", "m2mod);\n    clset_pset_enforce_limit(xcsf);\n    }\n")],
 [(r, "    clset_init(&xcsf->kset);\n}", "}")],
 [(r, "            ea(xcsf, &xcsf->prev_aset);\n        }\n", "            ea(xcsf, &xcsf->prev_aset);\n            clset_kill(xcsf, &xcsf->kset);\n            clset_init(&xcsf->kset);\n        }\n")],
 [(s, "        clset_update(xcsf, &xcsf->mset, x, y, true);\n        ea(xcsf, &xcsf->mset);", "        ea(xcsf, &xcsf->mset);\n        clset_update(xcsf, &xcsf->mset, x, y, true);")],
 [(c, "if (c != NULL && s != c && cl_general(xcsf, s, c)) {", "if (c != NULL && cl_general(xcsf, s, c)) {")],
]
KEPT = [
 [(r, "    clset_free(&xcsf->mset);\n    clset_free(&xcsf->prev_aset);\n    xcsf->prev_aset = xcsf->aset;", "    clset_free(&xcsf->prev_aset);\n    xcsf->prev_aset.list = xcsf->aset.list;\n    xcsf->prev_aset.size = xcsf->aset.size;\n    xcsf->prev_aset.num = xcsf->aset.num;\n    clset_free(&xcsf->mset);\n")],
 [(s, "    clset_kill(xcsf, &xcsf->kset);\n    clset_free(&xcsf->mset);", "    clset_free(&xcsf->mset);\n    clset_kill(xcsf, &xcsf->kset);")],
 [(c, "        if (prev_psize > xcsf->pset.size) {", "        const int removed = prev_psize - xcsf->pset.size;\n        if (removed > 0) {")],
 [(c, "        if (prev_psize > xcsf->pset.size) {", "        if (prev_psize != xcsf->pset.size) {")],
 [(c, "if (c != NULL && s != c && cl_general(xcsf, s, c)) {", "if (c == NULL || c == s) {\n                iter = iter->next;\n                continue;\n            }\n            if (cl_general(xcsf, s, c)) {")],
 [(c, "                s->num += c->num;\n                c->num = 0;\n                clset_add(&xcsf->kset, c);", "                const int n = c->num;\n                c->num = 0;\n                s->num += n;\n                clset_add(&xcsf->kset, c);")],
 [(c, "        const int prev_psize = xcsf->pset.size;\n        clset_pset_enforce_limit(xcsf);", "        clset_pset_enforce_limit(xcsf);\n        clset_validate(&xcsf->mset);\n        const int prev_psize = xcsf->pset.size;")],
]
