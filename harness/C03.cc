// Segmented containers: TRAVERSAL
// @run vector quick:steps=6,segment=3 thorough:steps=9
// @run repository quick:steps=6,segment=3 thorough:steps=8
// @run vector_filled quick:steps=3,segment=4,fill=9 thorough:steps=4,fill=12
// @run repository_filled quick:steps=3,segment=4,fill=9 thorough:steps=4,fill=12
// @run allocator quick:slots=9,segment=4 thorough:slots=16,segment=6
// @run large quick:scale=34000 thorough:scale=70000
#include "segmented.h"
SX_HARNESS(vector) { run_vector(TRAVERSAL, sx_bound("steps", 5), sx_bound("segment", 3), true); }
SX_HARNESS(repository) { run_repository(TRAVERSAL, sx_bound("steps", 5), sx_bound("segment", 3)); }
SX_HARNESS(vector_filled) { run_vector(TRAVERSAL, sx_bound("steps", 3), sx_bound("segment", 3), true, sx_bound("fill", 8)); }
SX_HARNESS(repository_filled) { run_repository(TRAVERSAL, sx_bound("steps", 3), sx_bound("segment", 3), sx_bound("fill", 8)); }
// the slots of the allocator beneath: its iterators walk over all of them in the order they were handed out
SX_HARNESS(allocator)
{
    utilities::segmented_allocator_t<long> a(1 + sx_concretize(sx_choose("segment", sx_bound("segment", 3))));
    const int n = sx_concretize(sx_choose("slots", 1 + sx_bound("slots", 9)));
    std::vector<long *> slot;
    for (int i = 0; i < n; i++) {
        const auto [p, reused] = a.location_for_placement();
        sx_check(!reused, "no slot was given back");
        for (long *q : slot) sx_check(p != q, "a slot of its own");
        *p = sx_int("value", -5, 5);
        a.insert(p);
        slot.push_back(p);
    }
    sx_check(a.size() == n && a.capacity() >= n && a.capacity() % a.segment_size() == 0, "size and capacity");
    int k = 0;
    for (auto & e : a) { sx_check(k < n && &e == slot[k], "slots in order"); k++; }
    sx_check(k == n, "every slot");
    auto it = a.begin(), jt = a.begin();
    for (k = 0; k < n; k++) {
        sx_check(it == jt && it.ptr() == slot[k] && *it == *slot[k] && it.operator->() == slot[k], "increments agree");
        const auto old = it++;
        sx_check(old == jt && old.ptr() == slot[k] && !(old != jt), "post increment returns the previous position");
        const auto & now = ++jt;
        sx_check(&now == &jt, "increment returns the iterator itself");
        sx_check(k + 1 == n ? it == a.end() && jt == a.end() : it != a.end(), "end of the slots");
    }
}
SX_HARNESS(large) { run_large(TRAVERSAL, sx_bound("scale", 34000)); }
