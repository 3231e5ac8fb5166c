CHECK = 'C10'
c, e = 'xcsf/clset.c', 'xcsf/ea.c'
BROKEN = [
 [(e, "    clset_pset_enforce_limit(xcsf);\n", "")],
 [(e, "    clset_pset_enforce_limit(xcsf);\n", "    if (!xcsf->ea->subsumption) {\n        clset_pset_enforce_limit(xcsf);\n    }\n")],
 [(c, "        clset_pset_enforce_limit(xcsf);\n        // if a", "        // if a")],
 [(c, "    clset_pset_enforce_limit(xcsf);\n    clset_kill", "    clset_kill")],
 [(c, "    while (xcsf->pset.num > xcsf->POP_SIZE) {", "    if (xcsf->pset.num > xcsf->POP_SIZE) {")],
 [(c, "    while (xcsf->pset.num > xcsf->POP_SIZE) {", "    while (xcsf->pset.size > xcsf->POP_SIZE) {")],
 [(c, "    while (xcsf->pset.num > xcsf->POP_SIZE) {", "    while (xcsf->pset.num > xcsf->POP_SIZE + 1) {")],
 [(c, "    while (xcsf->pset.num > xcsf->POP_SIZE) {", "    while (xcsf->pset.num >= xcsf->POP_SIZE) {")],
 [(c, "        while (xcsf->pset.num < xcsf->POP_SIZE) {", "        while (xcsf->pset.num <= xcsf->POP_SIZE) {")],
 [(c, "        while (xcsf->pset.num < xcsf->POP_SIZE) {", "        while (xcsf->pset.size < xcsf->POP_SIZE) {")],
 [(e, "    for (int i = 0; i * 2 < xcsf->ea->lambda; ++i) {", "    clset_pset_enforce_limit(xcsf);\n    for (int i = 0; i * 2 < xcsf->ea->lambda; ++i) {"), (e, "m2mod);\n    }\n    clset_pset_enforce_limit(xcsf);", "m2mod);\n    }\n")],
]
KEPT = [
 [(c, "    while (xcsf->pset.num > xcsf->POP_SIZE) {\n        clset_pset_del(xcsf);\n    }", "    const int max = xcsf->POP_SIZE;\n    for (;;) {\n        if (xcsf->pset.num <= max) {\n            break;\n        }\n        clset_pset_del(xcsf);\n    }")],
 [(c, "    while (xcsf->pset.num > xcsf->POP_SIZE) {\n        clset_pset_del(xcsf);\n    }", "    while (xcsf->POP_SIZE < xcsf->pset.num) {\n        clset_pset_del(xcsf);\n    }")],
 [(c, "    while (xcsf->pset.num > xcsf->POP_SIZE) {\n        clset_pset_del(xcsf);\n    }", "    while (xcsf->pset.num - xcsf->POP_SIZE >= 1) {\n        clset_pset_del(xcsf);\n    }")],
 [(c, "    while (xcsf->pset.num > xcsf->POP_SIZE) {\n        clset_pset_del(xcsf);\n    }", "    int excess = xcsf->pset.num - xcsf->POP_SIZE;\n    while (excess > 0) {\n        clset_pset_del(xcsf);\n        --excess;\n    }")],
 [(c, "        clset_pset_enforce_limit(xcsf);\n        // if a", "        if (xcsf->pset.num > xcsf->POP_SIZE) clset_pset_enforce_limit(xcsf);\n        // if a")],
 [(e, "    clset_pset_enforce_limit(xcsf);\n", "    bool full = xcsf->pset.num > xcsf->POP_SIZE;\n    if (full) {\n        clset_pset_enforce_limit(xcsf);\n    }\n")],
]
