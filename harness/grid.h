// a triangulated grid of w x h squares (numbers of its vertices); the diagonal and the order in which a triangle lists its
// vertices vary over the grid, all triangles turn the same way
#pragma once
#include <array>
#include <vector>
static std::vector<std::array<int, 3>> grid_triangles(int w, int h)
{
    std::vector<std::array<int, 3>> t;
    for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) {
        const int a = j * (w + 1) + i, b = a + 1, c = a + w + 2, d = a + w + 1;
        std::array<int, 3> p, q;
        if ((i + j) % 2) { p = { a, b, c }; q = { a, c, d }; }
        else { p = { a, b, d }; q = { b, c, d }; }
        const int r = (i + 2 * j) % 3;
        t.push_back({ p[r], p[(r + 1) % 3], p[(r + 2) % 3] });
        t.push_back({ q[(r + 1) % 3], q[(r + 2) % 3], q[r] });
    }
    return t;
}
