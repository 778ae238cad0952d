// Reference counts of shared handles equal the number of live owners.
// @run histories quick:steps=3 thorough:steps=5
// @run lone quick:steps=3 thorough:steps=5
// @run many quick:handles=70000 thorough:handles=300000
#include "sx.h"
#include <mito/utilities.h>
#include <new>
using namespace mito;
struct Res : public utilities::Shareable {
    int tag;
    Res(int t) : tag(t) {}
    ~Res() override {}
};
using ptr_t = utilities::SharedPointer<Res>;
using repo_t = utilities::Repository<ptr_t>;

SX_HARNESS(histories)
{
    const int steps = sx_bound("steps", 4);
    constexpr int N = 3, M = 2;
    repo_t repo(2);
    alignas(ptr_t) unsigned char mem[N][sizeof(ptr_t)];
    ptr_t * h[N] = {};
    int owner[N];
    ptr_t base[M] = { repo.emplace(10), repo.emplace(11) };
    auto check = [&] {
        for (int m = 0; m < M; m++) {
            int n = 1;
            for (int i = 0; i < N; i++)
                if (h[i] && owner[i] == m) n++;
            sx_check(base[m].references() == n, "reference count equals the number of live handles");
            sx_check(base[m]->tag == 10 + m, "handle denotes its resource");
        }
        for (int i = 0; i < N; i++)
            if (h[i]) {
                sx_check(h[i]->is_nullptr() == (owner[i] < 0), "null state");
                if (owner[i] >= 0) sx_check(h[i]->id() == base[owner[i]].id(), "handle identity");
                for (int m = 0; m < M; m++) {
                    sx_check((*h[i] == base[m]) == (owner[i] == m) && (base[m] != *h[i]) == (owner[i] != m), "handles are equal exactly when they share a resource");
                    if (owner[i] >= 0) sx_check((*h[i] < base[m]) + (base[m] < *h[i]) == (owner[i] != m), "handles are ordered by their resource");
                }
            }
    };
    for (int s = 0; s < steps; s++) {
        int i = sx_choose("target", N);
        if (!h[i]) {
            // construct
            int k = sx_choose("construct", 2 + N);
            if (k == 0) { h[i] = new (mem[i]) ptr_t(); owner[i] = -1; }
            else if (k == 1) { int m = sx_choose("resource", M); h[i] = new (mem[i]) ptr_t(base[m]); owner[i] = m; }
            else {
                int j = k - 2;
                if (j == i || !h[j]) sx_stop();
                if (sx_choose("move", 2)) { h[i] = new (mem[i]) ptr_t(std::move(*h[j])); owner[i] = owner[j]; owner[j] = -1; }
                else { h[i] = new (mem[i]) ptr_t(*h[j]); owner[i] = owner[j]; }
            }
        } else {
            int k = sx_choose("operate", 2 + N);
            if (k == 0) { h[i]->~ptr_t(); h[i] = nullptr; }
            else if (k == 1) { int m = sx_choose("resource", M); *h[i] = base[m]; owner[i] = m; }
            else {
                int j = k - 2;
                if (!h[j]) sx_stop();
                if (sx_choose("move", 2)) {
                    *h[i] = std::move(*h[j]);
                    if (i != j) { owner[i] = owner[j]; owner[j] = -1; }
                    else { owner[i] = h[i]->is_nullptr() ? -1 : owner[i]; }
                } else { *h[i] = *h[j]; owner[i] = owner[j]; }
            }
        }
        check();
    }
    for (int m = 0; m < M; m++) sx_observe_i("refs", base[m].references());
}
// resources that belong to nobody: the count is the number of handles also when it comes back from zero
SX_HARNESS(lone)
{
    const int steps = sx_bound("steps", 3);
    constexpr int N = 3, M = 2;
    Res r[M] = { Res(10), Res(11) };
    std::vector<ptr_t> h(N);
    int owner[N] = { -1, -1, -1 };
    auto check = [&] {
        for (int i = 0; i < N; i++) {
            sx_check(h[i].is_nullptr() == (owner[i] < 0), "null state");
            if (owner[i] < 0) continue;
            int n = 0;
            for (int j = 0; j < N; j++) n += owner[j] == owner[i];
            sx_check(h[i].references() == n, "reference count equals the number of live handles");
            sx_check(h[i]->tag == 10 + owner[i] && h[i].operator->() == &r[owner[i]], "handle denotes its resource");
        }
    };
    // every resource is counted through one more handle
    auto probe = [&] {
        for (int m = 0; m < M; m++) {
            int n = 1;
            for (int j = 0; j < N; j++) n += owner[j] == m;
            ptr_t q(&r[m]);
            sx_check(q.references() == n, "reference count equals the number of live handles");
            sx_check(r[m].is_valid(), "a resource with handles is valid");
            q = ptr_t();
            sx_check(r[m].is_valid() == (n > 1), "a resource is valid as long as it has handles");
        }
    };
    for (int s = 0; s < steps; s++) {
        const int i = sx_choose("target", N), k = sx_choose("operate", 3 + N);
        if (k == 0) { h[i] = ptr_t(); owner[i] = -1; }
        else if (k <= 2) { h[i] = ptr_t(&r[k - 1]); owner[i] = k - 1; }
        else {
            const int j = k - 3;
            switch (sx_choose("how", 3)) {
                case 0: h[i] = h[j]; owner[i] = owner[j]; break;
                case 1: if (i == j) sx_stop(); h[i] = std::move(h[j]); owner[i] = owner[j]; owner[j] = -1; break;
                default: std::swap(h[i], h[j]); std::swap(owner[i], owner[j]);
            }
        }
        check();
    }
    probe();
    for (int i = 0; i < N; i++) { h[i] = ptr_t(); owner[i] = -1; }
    probe();
}
// the count has no small limit: after any number of copies it is still exact, and comes down again
SX_HARNESS(many)
{
    const int N = sx_bound("handles", 70000);
    repo_t repo(2);
    ptr_t a = repo.emplace(10), b = repo.emplace(11);
    ptr_t * h = new ptr_t[N];
    const bool assign = sx_choose("assign", 2);
    for (int i = 0; i < N; i++) {
        if (assign) h[i] = (i & 1) ? a : b; else { ptr_t t(a); h[i] = std::move(t); }
        if (i + 1 != N && ((i + 2) & (i + 1)) != 0 && ((i + 3) & (i + 2)) != 0) continue;
        sx_check(a.references() == 1 + (assign ? (i + 1) / 2 : i + 1), "reference count equals the number of live handles");
        sx_check(b.references() == 1 + (assign ? (i + 2) / 2 : 0), "reference count equals the number of live handles");
        sx_check(a->is_valid() && b->is_valid(), "a resource with handles is valid");
    }
    delete[] h;
    sx_check(a.references() == 1 && b.references() == 1, "reference count equals the number of live handles");
}
