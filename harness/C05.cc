// Permutation sign is the parity of the permutation.
// @run sign3
// @run sign4
// @run sign5
// @run sign6 quick:full=0 thorough:full=1
// @run same
// @run same_lengths
// @run same4
// @run wide quick:n=8 thorough:n=12
// @run addresses
// @run mismatch
// @run mismatch4
#include "sx.h"
#include <mito/math.h>
#include <array>
#include <vector>
using namespace mito;

template <int N, class T>
static void fill(T & ref, T & data, int * p, bool sorted)
{
    for (int i = 0; i < N; i++) {
        ref[i] = sx_int("reference", -1000000, 1000000);
        for (int j = 0; j < i; j++) sx_assume(ref[i] != ref[j]);
        if (sorted && i > 0) sx_assume(ref[i - 1] < ref[i]);
    }
    for (int i = 0; i < N; i++) {
        int v = sx_int("position", 0, N - 1);
        for (int j = 0; j < i; j++) sx_assume(v != p[j]);
        p[i] = sx_concretize(v);
        data[i] = ref[p[i]];
    }
}
template <int N>
static int parity(const int * p)
{
    int inv = 0;
    for (int i = 0; i < N; i++)
        for (int j = 0; j < i; j++) inv += p[j] > p[i];
    return inv % 2;
}
template <int N>
static void sign(bool sorted)
{
    std::array<int, N> ref, data;
    int p[N];
    fill<N>(ref, data, p, sorted);
    auto d0 = data;
    auto r0 = ref;
    int s = math::permutation_sign(data, ref);
    sx_check(s == (parity<N>(p) ? -1 : 1), "sign is the parity of the number of inversions");
    sx_check(data == d0 && ref == r0, "arguments are unchanged");
    int n = math::swap_sort(data, ref);
    sx_check(n >= 0 && n % 2 == parity<N>(p), "number of swaps has the parity of the permutation");
    bool id = true;
    for (int i = 0; i < N; i++) id = id && p[i] == i;
    sx_check((n == 0) == id, "no swaps exactly for the identity");
    // any transposition flips the sign
    if constexpr (N > 1) {
    int a = sx_concretize(sx_int("a", 0, N - 1)), b = (a + 1) % N;
    std::swap(data[a], data[b]);
    sx_check(math::permutation_sign(data, ref) == -s, "a transposition flips the sign");
    }
    // inverse permutation has the same sign
    sx_check(math::permutation_sign(ref, d0) == s, "the inverse permutation has the same sign");
    sx_observe_i("sign", s);
}
SX_HARNESS(sign3) { sign<1>(false); sign<2>(false); sign<3>(false); }
SX_HARNESS(sign4) { sign<4>(true); }
SX_HARNESS(sign5) { sign<5>(true); }
SX_HARNESS(sign6)
{
    if (sx_bound("full", 0)) { sign<6>(true); return; }
    std::array<int, 6> ref, data;
    int p[6];
    fill<6>(ref, data, p, true);
    sx_check(math::permutation_sign(data, ref) == (parity<6>(p) ? -1 : 1), "sign is the parity of the number of inversions");
}
template <class A>
static bool multiset_equal(const A & a, const A & b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) {
        int ca = 0, cb = 0;
        for (size_t j = 0; j < a.size(); j++) { ca += a[j] == a[i]; cb += b[j] == a[i]; }
        if (ca != cb) return false;
    }
    return true;
}
SX_HARNESS(same)
{
    std::array<int, 3> a, b;
    for (auto & x : a) x = sx_int("a", -3, 1000);
    for (auto & x : b) x = sx_int("b", -3, 1000);
    auto a0 = a;
    bool s = math::same_elements(a, b);
    sx_check(s == multiset_equal(a, b), "contents are compared regardless of order");
    sx_check(a == a0, "arguments are unchanged");
    sx_observe_i("same", s);
}
// containers of any two lengths
SX_HARNESS(same_lengths)
{
    const int m = sx_choose("length", 5), n = sx_choose("length", 5);
    std::vector<int> a(m), b(n);
    if (m == n && m > 2) sx_stop();
    for (auto & x : a) x = sx_int("a", 0, 4);
    for (auto & x : b) x = sx_int("b", 0, 4);
    const auto a0 = a, b0 = b;
    const bool s = math::same_elements(a, b);
    sx_check(s == (m == n && multiset_equal(a, b)), "containers of different lengths differ");
    sx_check(a == a0 && b == b0, "arguments are unchanged");
}
SX_HARNESS(same4)
{
    std::array<int, 4> a, b;
    // up to renaming the values, the first container is sorted
    for (int i = 0; i < 4; i++) { a[i] = sx_int("a", 0, 3); if (i) sx_assume(a[i - 1] <= a[i]); }
    for (auto & x : b) x = sx_int("b", 0, 3);
    sx_check(math::same_elements(a, b) == multiset_equal(a, b), "contents are compared regardless of order");
    sx_check(math::same_elements(b, a) == multiset_equal(a, b), "the comparison is symmetric");
}
// exchanges over any distance in long containers
SX_HARNESS(wide)
{
    const int n = sx_bound("n", 8);
    std::vector<int> ref(n);
    for (int i = 0; i < n; i++) ref[i] = (i * 5) % n == i && i ? 100 + i : 10 * ((i * 7) % 13) + i;   // distinct, not sorted
    auto data = ref;
    int swaps = 0;
    for (int k = 0; k < 2; k++) {
        const int i = sx_choose("i", n), j = sx_choose("j", n);
        if (i > j) sx_stop();
        if (i != j) { std::swap(data[i], data[j]); swaps++; }
    }
    sx_check(math::permutation_sign(data, ref) == (swaps % 2 ? -1 : 1), "the sign counts the exchanges");
    sx_check(math::swap_sort(data, ref) % 2 == swaps % 2 && math::swap_sort(data, ref) <= n - 1, "number of swaps");
    sx_check(math::same_elements(data, ref), "same elements");
    // a rotation of the first places
    const int r = sx_choose("rotated", n);
    auto rot = ref;
    std::rotate(rot.begin(), rot.begin() + 1, rot.begin() + r + 1);
    sx_check(math::permutation_sign(rot, ref) == (r % 2 ? -1 : 1), "the sign of a cycle");
    std::reverse(rot.begin(), rot.end());
    sx_check(math::permutation_sign(rot, ref) == ((r + n * (n - 1) / 2) % 2 ? -1 : 1), "the sign of a reversed cycle");
}
// identifiers as the simplex factories use them
SX_HARNESS(addresses)
{
    static int mem[4];
    std::array<void *, 4> ref, data;
    int p[4] = { 0, 1, 2, 3 }, q[4] = { 0, 1, 2, 3 };
    for (int k = sx_choose("reference", 24); k > 0; k--) std::next_permutation(p, p + 4);
    for (int k = sx_choose("data", 24); k > 0; k--) std::next_permutation(q, q + 4);
    for (int i = 0; i < 4; i++) { ref[i] = mem + p[i]; data[i] = mem + q[i]; }
    sx_check(math::permutation_sign(data, ref) == ((parity<4>(p) + parity<4>(q)) % 2 ? -1 : 1), "sign of identifiers");
}
SX_HARNESS(mismatch4)
{
    const std::array<int, 4> b{ 3, 1, 4, 2 };
    std::array<int, 4> a;
    for (auto & x : a) x = sx_int("data", 0, 5);
    if (multiset_equal(a, b)) sx_stop();
    sx_expect_reject();
    sx_use(math::permutation_sign(a, b));
}
SX_HARNESS(mismatch)
{
    std::array<int, 3> a, b;
    for (int i = 0; i < 3; i++) {
        b[i] = sx_int("reference", -3, 1000);
        for (int j = 0; j < i; j++) sx_assume(b[i] != b[j]);
    }
    for (auto & x : a) x = sx_int("data", -3, 1000);
    if (multiset_equal(a, b)) sx_stop();
    sx_expect_reject();
    sx_use(math::permutation_sign(a, b));
}
