CHECK = 'C05'
BROKEN = [
 # 0 identical offspring leaked
 [('xcsf/ea.c', "        ++(c1p->num);\n        ++(xcsf->pset.num);\n        cl_free(xcsf, c1);\n", "        ++(c1p->num);\n        ++(xcsf->pset.num);\n")],
 # 1 fclose missing in save
 [('xcsf/xcsf.c', "    s += clset_pset_save(xcsf, fp);\n    fclose(fp);", "    s += clset_pset_save(xcsf, fp);")],
 # 2 act_covered lost
 [('xcsf/clset.c', "    free(act_covered);\n", "")],
 # 3 ellipsoid temp lost on early return
 [('xcsf/cond_ellipsoid.c', "                free(temp);\n", "")],
 # 4 json export string of component lost
 [('xcsf/cl.c', "        free(json_str);\n", "")],
 # 5 graph_str lost in cond_dgp
 [('xcsf/cond_dgp.c', "    free(graph_str);\n", "")],
 # 6 cJSON doc lost
 [('xcsf/rule_dgp.c', "    char *string = cJSON_Print(json);\n    cJSON_Delete(json);\n    return string;\n}\n\nvoid\nrule_dgp_cond_json_import", "    char *string = cJSON_Print(json);\n    return string;\n}\n\nvoid\nrule_dgp_cond_json_import")],
 # 7 cJSON_Delete replaced by free
 [('xcsf/rule_dgp.c', "    char *string = cJSON_Print(json);\n    cJSON_Delete(json);\n    return string;\n}\n\nvoid\nrule_dgp_cond_json_import", "    char *string = cJSON_Print(json);\n    free(json);\n    return string;\n}\n\nvoid\nrule_dgp_cond_json_import")],
 # 8 larg lost on error
 [('xcsf/act_neural.c', "            free(larg);\n            return ret;", "            return ret;")],
 # 9 max_i
 [('xcsf/pa.c', "    free(max_i);\n", "")],
 # 10 lstm cargs
 [('xcsf/neural_layer_lstm.c', "    free(cargs);\n", "")],
 # 11 layer args validation net
 [('xcsf/neural_layer_args.c', "    neural_free(&net);\n", "")],
 # 12 subsumed offspring leaked in the random branch
 [('xcsf/ea.c', "            ++(xcsf->pset.num);\n            cl_free(xcsf, c);\n        }\n        // if", "            ++(xcsf->pset.num);\n        }\n        // if")],
 # 13 cl_print string
 [('xcsf/cl.c', "    printf(\"%s\\n\", json_str);\n    free(json_str);", "    printf(\"%s\\n\", json_str);")],
 # 14 pop file buffer
 [('xcsf/clset.c', "    clset_json_insert(xcsf, json_buffer);\n    free(json_buffer);", "    clset_json_insert(xcsf, json_buffer);")],
 # 15 pop file handle
 [('xcsf/clset.c', "    const size_t s = fread(json_buffer, sizeof(char), len - 1, f);\n    fclose(f);", "    const size_t s = fread(json_buffer, sizeof(char), len - 1, f);")],
 # 16 param export ea string
 [('xcsf/param.c', "    free(ea_param_str);\n", "")],
 # 17 weights_str in lstm export third
 [('xcsf/neural_layer_lstm.c', "    cJSON *ui = cJSON_Parse(weights_str);\n    free(weights_str);\n", "    cJSON *ui = cJSON_Parse(weights_str);\n")],
 # 18 connected export returns early
 [('xcsf/neural_layer_connected.c', "    char *weights_str = layer_weight_json(l, return_weights);", "    char *weights_str = layer_weight_json(l, return_weights);\n    if (!return_weights && l->n_weights < 1) {\n        return cJSON_Print(json);\n    }")],
 # 19 tmp in cover attempts early return
 [('xcsf/clset.c', "        ++attempts;\n        if (attempts > MAX_COVER) {", "        ++attempts;\n        if (xcsf->pset.size < 1) {\n            return;\n        }\n        if (attempts > MAX_COVER) {")],
 # 20 json insert doc lost
 [('xcsf/clset.c', "    cJSON_Delete(json);\n}", "}")],
 # 21 cJSON array item created but not attached
 [('xcsf/gp.c', "cJSON_AddItemToObject(json, \"mutation\", mutation);", "(void) mutation;")],
 # 22 config_read handle
 [('xcsf/config.c', "    fclose(", "    (void) (")],
]
KEPT = [
 [('xcsf/cl.c', "    printf(\"%s\\n\", json_str);\n    free(json_str);", "    if (json_str != NULL) {\n        printf(\"%s\\n\", json_str);\n        free(json_str);\n    }")],
 [('xcsf/pa.c', "    free(max_i);\n", "    if (max_i != NULL) {\n        free(max_i);\n        max_i = NULL;\n    }\n")],
 [('xcsf/rule_dgp.c', "    free(graph_str);\n    cJSON_AddItemToObject(json, \"graph\", graph);", "    cJSON_AddItemToObject(json, \"graph\", graph);\n    cJSON_free(graph_str);")],
 [('xcsf/act_neural.c', "        if (ret != NULL) {\n            free(larg);\n            return ret;\n        }", "        const bool failed = (ret != NULL);\n        if (failed) {\n            free(larg);\n            return ret;\n        }")],
 [('xcsf/xcsf.c', "    s += clset_pset_save(xcsf, fp);\n    fclose(fp);\n    return s;", "    s += clset_pset_save(xcsf, fp);\n    const int closed = fclose(fp);\n    (void) closed;\n    return s;")],
 [('xcsf/ea.c', "    if (!cmod && !mmod) {\n        ++(c1p->num);\n        ++(xcsf->pset.num);\n        cl_free(xcsf, c1);\n    } else if (xcsf->ea->subsumption) {\n        ea_subsume(xcsf, c1, c1p, c2p, set);\n    } else {\n        clset_add(&xcsf->pset, c1);\n    }", "    if (cmod || mmod) {\n        if (xcsf->ea->subsumption) {\n            ea_subsume(xcsf, c1, c1p, c2p, set);\n            return;\n        }\n        clset_add(&xcsf->pset, c1);\n        return;\n    }\n    ++(c1p->num);\n    ++(xcsf->pset.num);\n    cl_free(xcsf, c1);")],
]
