// Shared driver for the properties of segmented containers: symbolic histories against a reference model.
#pragma once
#include "sx.h"
#include <mito/utilities.h>
#include <new>
using namespace mito;

// ledger of live elements, keyed by address
constexpr int MAXE = 64;
static const void * led_addr[MAXE];
static int led_n = 0, led_constructed = 0, led_destroyed = 0;
static void led_born(const void * p)
{
    for (int i = 0; i < led_n; i++) sx_check(led_addr[i] != p, "an element is constructed on top of a live one");
    led_addr[led_n++] = p;
    led_constructed++;
}
static void led_dead(const void * p)
{
    led_destroyed++;
    for (int i = 0; i < led_n; i++)
        if (led_addr[i] == p) { led_addr[i] = led_addr[--led_n]; return; }
    sx_check(false, "an element that is not alive is destroyed");
}
struct VecElem : public utilities::Invalidatable {
    int value;
    VecElem(int v) : value(v) { led_born(this); }
    ~VecElem() { led_dead(this); }
};
struct RepElem final : public utilities::Shareable {
    int value;
    RepElem(int v) : value(v) { led_born(this); }
    ~RepElem() override { led_dead(this); }
};
using rep_ptr = utilities::shared_ptr<RepElem>;

// one element of the reference model
struct Cell { const void * addr; int value; bool live; };

enum Checks { STORAGE = 1, TRAVERSAL = 2, LIFETIME = 4 };

// histories over a segmented vector
inline void run_vector(int checks, int steps, int maxseg, bool moves, int warm = 0)
{
    using C = utilities::segmented_vector_t<VecElem>;
    led_n = led_constructed = led_destroyed = 0;
    long live0 = sx_heap_live();
    int seg = sx_concretize(sx_int("segment", 1, maxseg));
    {
        alignas(C) unsigned char mem[2][sizeof(C)];
        int at = 0;
        C * c = new (mem[0]) C(seg);
        Cell cell[MAXE];
        VecElem * h[MAXE];
        int n = 0, live = 0;
        bool moved = false;
        auto verify = [&] {
            if (checks & STORAGE) {
                sx_check(std::size(*c) == live, "size is the number of live elements");
                sx_check(c->capacity() % seg == 0 && c->capacity() >= live, "capacity");
                for (int i = 0; i < n; i++)
                    if (cell[i].live) {
                        sx_check(h[i]->value == cell[i].value, "live element keeps its value");
                        sx_check(h[i]->is_valid(), "live element is valid");
                        for (int j = 0; j < i; j++)
                            if (cell[j].live) {
                                long d = (const char *) cell[i].addr - (const char *) cell[j].addr;
                                sx_check(d >= (long) sizeof(VecElem) || -d >= (long) sizeof(VecElem), "live elements do not overlap");
                            }
                    } else sx_check(!h[i]->is_valid(), "erased element is invalid");
            }
            if (checks & TRAVERSAL) {
                int k = 0, seen = 0;
                for (auto & e : *c) {
                    while (k < n && !cell[k].live) k++;
                    sx_check(k < n && (const void *) &e == cell[k].addr && e.value == cell[k].value, "traversal visits the live elements in storage order");
                    k++; seen++;
                }
                sx_check(seen == live, "traversal visits every live element");
                // post increment
                auto it = c->begin();
                auto jt = c->begin();
                for (int i = 0; i < live; i++) {
                    sx_check(it == jt && &*it == &*jt, "increments agree");
                    auto old = it++;
                    sx_check(old == jt, "post increment returns the previous position");
                    ++jt;
                }
                sx_check(it == c->end() && jt == c->end(), "increments reach the end together");
                const C & cc = *c;
                for (int i = 0; i < n; i++)
                    sx_check(&(*c)[i] == cell[i].addr && &cc[i] == cell[i].addr, "positional access");
            }
            if (checks & LIFETIME)
                sx_check(led_constructed - led_destroyed == led_n, "construction balance");
        };
        verify();
        int fill = warm ? sx_concretize(sx_int("fill", 0, warm)) : 0;
        for (int s = 0; s < fill + steps; s++) {
            int nop = 2 + (moves && !moved ? 1 : 0);
            int op = s < fill ? 0 : sx_choose("op", nop);
            if (op == 0) {
                int v = sx_int("value", -1000, 1000);
                int cap = c->capacity();
                VecElem & e = c->emplace(v);
                int slot = -1;
                for (int i = 0; i < n; i++)
                    if (cell[i].addr == &e) slot = i;
                if (checks & STORAGE) {
                    if (slot >= 0) sx_check(!cell[slot].live, "a slot is reused only after its element was erased");
                    else sx_check(n == live, "erased slots are reused before new ones are taken");
                    sx_check(c->capacity() == (live < cap ? cap : cap + seg), "capacity grows by a segment only when full");
                    sx_check(e.value == v, "new element has its value");
                }
                if (slot < 0) slot = n++;
                cell[slot] = Cell { &e, v, true };
                h[slot] = &e;
                live++;
            } else if (op == 1) {
                if (n == 0) sx_stop();
                int i = sx_concretize(sx_int("which", 0, n - 1));
                int cap = c->capacity();
                bool r = c->erase(*h[i]);
                if (checks & STORAGE) {
                    sx_check(r == cell[i].live, "erase reports whether it erased");
                    sx_check(c->capacity() == cap, "erase keeps the capacity");
                }
                if (cell[i].live) { cell[i].live = false; live--; }
            } else {
                C * d = new (mem[1 - at]) C(std::move(*c));
                sx_check(std::size(*c) == 0 && c->capacity() == 0, "moved-from container is empty");
                int k = 0;
                for (auto & e : *c) { sx_use(e); k++; }
                sx_check(k == 0, "moved-from container has no elements");
                c->~C();
                c = d;
                at = 1 - at;
                moved = true;
            }
            verify();
        }
        sx_observe_i("size", std::size(*c));
        sx_observe_i("capacity", c->capacity());
        c->~C();
    }
    if (checks & LIFETIME) {
        sx_check(led_n == 0 && led_constructed == led_destroyed, "every element is destroyed exactly once");
        sx_check(sx_heap_live() == live0, "all memory is returned");
    }
}

// histories over a repository of shared resources
inline void run_repository(int checks, int steps, int maxseg, int warm = 0)
{
    using C = utilities::repository_t<rep_ptr>;
    led_n = led_constructed = led_destroyed = 0;
    long live0 = sx_heap_live();
    int seg = sx_concretize(sx_int("segment", 1, maxseg));
    {
        // handles outlive or not the repository: they are released first
        alignas(C) unsigned char mem[sizeof(C)];
        C * c = new (mem) C(seg);
        {
            Cell cell[MAXE];
            rep_ptr h[24];
            int n = 0, live = 0;
            auto verify = [&] {
                if (checks & STORAGE) {
                    sx_check(std::size(*c) == live, "size is the number of live elements");
                    sx_check(c->capacity() % seg == 0 && c->capacity() >= live, "capacity");
                    for (int i = 0; i < n; i++)
                        if (cell[i].live) {
                            sx_check(h[i]->value == cell[i].value, "live element keeps its value");
                            sx_check(h[i].references() == 1, "one owner");
                            auto again = C::resource(h[i].id());
                            sx_check(again.id() == h[i].id() && h[i].references() == 2, "lookup by id shares the resource");
                        }
                }
                if (checks & TRAVERSAL) {
                    int k = 0, seen = 0;
                    for (const auto & e : *c) {
                        while (k < n && !cell[k].live) k++;
                        sx_check(k < n && e.id() == h[k].id() && e->value == cell[k].value, "traversal visits the live elements in storage order");
                        k++; seen++;
                    }
                    sx_check(seen == live, "traversal visits every live element");
                    auto it = c->begin();
                    auto jt = c->begin();
                    for (int i = 0; i < live; i++) {
                        sx_check(it == jt, "increments agree");
                        auto old = it++;
                        sx_check(old == jt, "post increment returns the previous position");
                        ++jt;
                    }
                    sx_check(it == c->end() && jt == c->end(), "increments reach the end together");
                }
            };
            verify();
            int fill = warm ? sx_concretize(sx_int("fill", 0, warm)) : 0;
            for (int s = 0; s < fill + steps; s++) {
                int op = s < fill ? 1 - 1 : sx_choose("op", (checks == LIFETIME) ? 3 : 2);
                if (op == 2) {
                    // drop a handle without erasing: the element stays until the repository goes away
                    if (n == 0) sx_stop();
                    int i = sx_concretize(sx_int("which", 0, n - 1));
                    h[i] = rep_ptr();
                } else if (op == 0) {
                    int v = sx_int("value", -1000, 1000);
                    int cap = c->capacity();
                    auto p = c->emplace(v);
                    const void * a = p.operator->();
                    int slot = -1;
                    for (int i = 0; i < n; i++)
                        if (cell[i].addr == a) slot = i;
                    if (checks & STORAGE) {
                        if (slot >= 0) sx_check(!cell[slot].live, "a slot is reused only after its element was erased");
                        else sx_check(n == live, "erased slots are reused before new ones are taken");
                        sx_check(c->capacity() == (live < cap ? cap : cap + seg), "capacity grows by a segment only when full");
                        sx_check(p->value == v && p.references() == 1, "new element has its value");
                    }
                    if (slot < 0) slot = n++;
                    cell[slot] = Cell { a, v, true };
                    h[slot] = std::move(p);
                    live++;
                } else {
                    if (n == 0) sx_stop();
                    int i = sx_concretize(sx_int("which", 0, n - 1));
                    int cap = c->capacity();
                    bool r = c->erase(h[i]);
                    if (checks & STORAGE) {
                        sx_check(r == cell[i].live, "erase reports whether it erased");
                        sx_check(h[i].is_nullptr(), "erase nulls the handle");
                        sx_check(c->capacity() == cap, "erase keeps the capacity");
                    }
                    if (r) { cell[i].live = false; live--; }
                }
                verify();
            }
            sx_observe_i("size", std::size(*c));
            sx_observe_i("capacity", c->capacity());
        }
        c->~C();
    }
    if (checks & LIFETIME) {
        sx_check(led_n == 0 && led_constructed == led_destroyed, "every element is destroyed exactly once");
        sx_check(sx_heap_live() == live0, "all memory is returned");
    }
}

// large containers: nothing depends on the counts staying small
static long big_born = 0, big_dead = 0;
struct BigVecElem : public utilities::Invalidatable {
    int value;
    BigVecElem(int v) : value(v) { big_born++; }
    ~BigVecElem() { big_dead++; }
};
struct BigRepElem final : public utilities::Shareable {
    int value;
    BigRepElem(int v) : value(v) { big_born++; }
    ~BigRepElem() override { big_dead++; }
};
inline void run_large(int checks, int scale)
{
    struct Shape { int seg, n; };
    const Shape shapes[] = { { 1, scale / 4 }, { 2, scale }, { 130, scale }, { 40000, 2 * scale } };
    const Shape s = shapes[sx_choose("shape", 4)];
    const int stride = sx_choose("stride", 2) ? 3 : 129;
    const bool repository = sx_choose("repository", 2);
    big_born = big_dead = 0;
    const int gone = (s.n - 2) / stride + 1, full = (s.n + s.seg - 1) / s.seg * s.seg;
    auto at = [&](int k) { return k == 0 || (k & (k + 1)) == 0 || (k & (k - 1)) == 0 || k + 1 == s.n; };
    auto traverse = [&](const auto & c, bool erased) {
        if (!(checks & TRAVERSAL)) return;
        int k = 0, seen = 0, wrong = 0;
        for (const auto & e : c) {
            int v;
            if constexpr (requires { e->value; }) v = e->value; else v = e.value;
            if (erased) while (k % stride == 1) k++;
            wrong += v != k++;
            seen++;
        }
        sx_check(wrong == 0 && seen == s.n - (erased ? gone : 0), "a traversal visits every live element once, in the order of storage");
    };
    if (!repository) {
        utilities::segmented_vector_t<BigVecElem> c(s.seg);
        BigVecElem ** p = new BigVecElem *[s.n];
        for (int k = 0; k < s.n; k++) {
            p[k] = &c.emplace(k);
            if (at(k) && (checks & STORAGE)) {
                sx_check(std::size(c) == k + 1, "size is the number of live elements");
                sx_check(c.capacity() == (k + s.seg) / s.seg * s.seg, "capacity grows by whole segments");
            }
            if (at(k) && (checks & (STORAGE | TRAVERSAL))) sx_check(&c[k] == p[k] && c[k].value == k && std::as_const(c)[k].value == k && c[0].value == 0 && c[k / 2].value == k / 2, "element found under its index");
        }
        traverse(c, false);
        if (checks & STORAGE) {
            int wrong = 0;
            for (int k = 0; k < s.n; k++) wrong += !(&c[k] == p[k] && p[k]->value == k);
            sx_check(wrong == 0, "every element stays where it was built");
        }
        if (s.seg > 100) {
            for (int k = 1; k < s.n; k += stride) c.erase(*p[k]);
            if (checks & STORAGE) sx_check(std::size(c) == s.n - gone && c.capacity() == full, "erasing changes the size only");
            traverse(c, true);
            int same = 0;
            for (int k = 1; k < s.n; k += stride) same += &c.emplace(k) == p[k];
            if (checks & STORAGE) sx_check(std::size(c) == s.n && c.capacity() == full, "erased locations are used again");
            if (checks & TRAVERSAL) { int seen = 0; long sum = 0; for (const auto & e : c) { seen++; sum += e.value; } sx_check(seen == s.n && sum == (long) s.n * (s.n - 1) / 2, "a traversal visits every live element once"); }
        }
        delete[] p;
    } else {
        using ptr = utilities::shared_ptr<BigRepElem>;
        utilities::repository_t<ptr> c(s.seg);
        ptr * p = new ptr[s.n];
        for (int k = 0; k < s.n; k++) {
            p[k] = c.emplace(k);
            if (at(k) && (checks & STORAGE)) {
                sx_check(std::size(c) == k + 1, "size is the number of live elements");
                sx_check(c.capacity() == (k + s.seg) / s.seg * s.seg, "capacity grows by whole segments");
            }
        }
        traverse(c, false);
        if (checks & STORAGE) {
            int wrong = 0;
            for (int k = 0; k < s.n; k++) wrong += p[k]->value != k || p[k].references() != 1;
            sx_check(wrong == 0, "every element stays where it was built");
        }
        if (s.seg > 100) {
            for (int k = 1; k < s.n; k += stride) c.erase(p[k]);
            if (checks & STORAGE) sx_check(std::size(c) == s.n - gone && c.capacity() == full, "erasing changes the size only");
            traverse(c, true);
            for (int k = 1; k < s.n; k += stride) p[k] = c.emplace(k);
            if (checks & STORAGE) sx_check(std::size(c) == s.n && c.capacity() == full, "erased locations are used again");
        }
        delete[] p;
    }
    if (checks & LIFETIME) sx_check(big_born == big_dead, "every element built is destroyed exactly once");
}
