// Stand-in for the METIS interface: checks what its documentation asks of the arguments, keeps a copy of the mesh it is
// given and paints the elements arbitrarily. Being deterministic, METIS paints the same mesh (up to the names of its nodes)
// the same way every time.
#pragma once
#include <vector>
#include <map>
using idx_t = int;
using real_t = float;
#define METIS_NOPTIONS 40
enum rstatus_et { METIS_OK = 1, METIS_ERROR_INPUT = -2, METIS_ERROR_MEMORY = -3, METIS_ERROR = -4 };
struct sx_metis_state {
    int calls = 0;
    int parts = 0;
    std::vector<std::vector<int>> elements;   // the nodes of each element, named by the order in which they appear
    std::vector<std::vector<int>> given;      // the nodes of each element as numbered by the caller
    std::vector<int> painting;
    bool each_its_own = false;                // all elements have different colours
};
inline sx_metis_state & sx_metis() { static sx_metis_state *s = new sx_metis_state; return *s; }
inline int METIS_SetDefaultOptions(idx_t *o) { for (int i = 0; i < METIS_NOPTIONS; i++) o[i] = -1; return METIS_OK; }
inline int METIS_PartMeshDual(idx_t *ne, idx_t *nn, idx_t *eptr, idx_t *eind, idx_t *vwgt, idx_t *vsize, idx_t *ncommon, idx_t *nparts, real_t *tpwgts, idx_t *options, idx_t *objval, idx_t *epart, idx_t *npart)
{
    auto & s = sx_metis();
    sx_check(*ne >= 1 && *nn >= 1 && *nparts >= 1, "sizes handed to METIS are positive");
    sx_check(!vwgt && !vsize && !tpwgts, "cells and parts have equal weights");
    bool plain = true;
    if (options) for (int i = 0; i < METIS_NOPTIONS; i++) plain = plain && options[i] == -1;
    sx_check(plain, "the options handed to METIS are its defaults");
    sx_check(eptr[0] == 0, "element index starts from zero");
    std::vector<std::vector<int>> elements(*ne), given(*ne);
    std::map<int, int> names;
    for (int e = 0; e < *ne; e++) {
        sx_check(eptr[e + 1] >= eptr[e], "element index is ascending");
        for (int i = eptr[e]; i < eptr[e + 1]; i++) {
            sx_check(eind[i] >= 0 && eind[i] < *nn, "nodes handed to METIS are numbered from zero with no gaps");
            given[e].push_back(eind[i]);
            elements[e].push_back(names.emplace(eind[i], (int)names.size()).first->second);
        }
        sx_check(*ncommon == (int)given[e].size() - 1, "cells are neighbours where they share a face");
    }
    sx_check((int)names.size() == *nn, "every node handed to METIS belongs to an element");
    if (s.calls++ == 0) {
        s.parts = *nparts;
        s.elements = elements;
        s.given = given;
        for (int e = 0; e < *ne; e++) s.painting.push_back(s.each_its_own ? (e * 2 + 1 < *ne ? e * 2 + 1 : 2 * (*ne - 1 - e)) : sx_choose("colour", *nparts));
    } else {
        sx_check(s.parts == *nparts, "all processes ask for the same number of parts");
        sx_check(s.elements == elements, "all processes hand the same mesh to METIS");
    }
    for (int e = 0; e < *ne; e++) epart[e] = s.painting[e];
    for (int i = 0; i < *nn; i++) npart[i] = 0;
    *objval = 0;
    return METIS_OK;
}
