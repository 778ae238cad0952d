// Stand-in for pybind11: keeps what a module defines (classes, constructors, methods, properties) and calls it as Python
// would. Objects are counted; the last reference gone, the C++ object is destroyed, unless something was told to keep it
// alive (keep_alive). Methods taking a reference get the object itself, everything else is converted by value.
#pragma once
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "../../sx.h"
namespace pybind11 {
    template <class T> inline char sx_tag;
    struct object;
    struct sx_holder {
        const char *tag = nullptr;
        void *p = nullptr;
        void (*destroy)(void *) = nullptr;
        int count = 0;
        std::vector<object> kept;
        ~sx_holder();
    };
    struct object {
        sx_holder *h = nullptr;
        object() {}
        object(const object & o) : h(o.h) { if (h) h->count++; }
        object(object && o) noexcept : h(o.h) { o.h = nullptr; }
        object & operator=(object o) { std::swap(h, o.h); return *this; }
        ~object() { drop(); }
        void drop() { if (h && --h->count == 0) delete h; h = nullptr; }
        template <class T> T *as() const { return h && h->tag == &sx_tag<T> ? (T *) h->p : nullptr; }
    };
    inline sx_holder::~sx_holder() { if (destroy) destroy(p); }
    using args_t = std::vector<object>;
    template <class T> object sx_own(T *p)
    {
        object o;
        o.h = new sx_holder;
        o.h->count = 1;
        o.h->tag = &sx_tag<T>;
        o.h->p = p;
        o.h->destroy = [](void *q) { delete (T *) q; };
        return o;
    }
    template <class T> object sx_borrow(const T *p)
    {
        object o = sx_own(const_cast<T *>(p));
        o.h->destroy = nullptr;
        return o;
    }
    template <class T> object sx_value(T v) { return sx_own(new T(std::move(v))); }
    using function = std::function<object(const args_t &)>;
    // Python object to C++ argument
    template <class A> struct sx_caster {
        A *p = nullptr;
        bool load(const object & o) { return (p = o.as<A>()); }
        A & get() { return *p; }
    };
    template <class R> requires(std::is_floating_point_v<R>) struct sx_caster<R> {
        R v = 0;
        bool load(const object & o)
        {
            if (auto *d = o.as<double>()) { v = R(*d); return true; }
            if (auto *i = o.as<int>()) { v = R(*i); return true; }
            return false;
        }
        R & get() { return v; }
    };
    template <class I> requires(std::is_integral_v<I>) struct sx_caster<I> {
        I v = 0;
        bool load(const object & o)
        {
            auto *i = o.as<int>();
            if (!i || (std::is_unsigned_v<I> && *i < 0)) return false;
            v = I(*i);
            return true;
        }
        I & get() { return v; }
    };
    template <class... T> struct sx_caster<std::tuple<T...>> {
        std::tuple<T...> v;
        template <class U> static bool one(const object & o, U & u)
        {
            sx_caster<U> c;
            if (!c.load(o)) return false;
            u = c.get();
            return true;
        }
        template <size_t... K> bool each(const args_t & a, std::index_sequence<K...>)
        {
            return (one(a[K], std::get<K>(v)) && ...);
        }
        bool load(const object & o)
        {
            auto *a = o.as<args_t>();
            return a && a->size() == sizeof...(T) && each(*a, std::index_sequence_for<T...>{});
        }
        std::tuple<T...> & get() { return v; }
    };
    template <class R, class... A> struct sx_caster<std::function<R(A...)>> {
        std::function<R(A...)> v;
        bool load(const object & o)
        {
            auto *f = o.as<function>();
            if (!f) return false;
            v = [keep = o, f](A... a) -> R {
                const object r = (*f)(args_t{ sx_value<std::remove_cvref_t<A>>(a)... });
                sx_caster<std::remove_cvref_t<R>> c;
                sx_check(c.load(r), "result of the Python function");
                return c.get();
            };
            return true;
        }
        std::function<R(A...)> & get() { return v; }
    };
    // signatures
    template <class F> struct sx_sig : sx_sig<decltype(&F::operator())> {};
    template <class R, class... A> struct sx_sig<R (*)(A...)> { using ret = R; using args = std::tuple<std::remove_cvref_t<A>...>; };
    template <class C, class R, class... A> struct sx_sig<R (C::*)(A...)> { using ret = R; using args = std::tuple<std::remove_cvref_t<A>...>; };
    template <class C, class R, class... A> struct sx_sig<R (C::*)(A...) const> { using ret = R; using args = std::tuple<std::remove_cvref_t<A>...>; };
    template <class C, class R, class... A> struct sx_sig<R (C::*)(A...) noexcept> : sx_sig<R (C::*)(A...)> {};
    template <class C, class R, class... A> struct sx_sig<R (C::*)(A...) const noexcept> : sx_sig<R (C::*)(A...) const> {};
    template <class Tuple> struct sx_args;
    template <class... A> struct sx_args<std::tuple<A...>> {
        template <class G, size_t... K> static bool run(const args_t & a, size_t from, G && g, std::index_sequence<K...>)
        {
            if (a.size() != from + sizeof...(A)) return false;
            std::tuple<sx_caster<A>...> c;
            if (!(std::get<K>(c).load(a[from + K]) && ...)) return false;
            g(std::get<K>(c).get()...);
            return true;
        }
        template <class G> static bool call(const args_t & a, size_t from, G && g) { return run(a, from, g, std::index_sequence_for<A...>{}); }
    };
    // options of definitions
    template <size_t Nurse, size_t Patient> struct keep_alive {};
    template <class... G> struct call_guard {};
    enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
    struct arg { arg(const char *) {} template <class T> arg & operator=(const T &) { return *this; } };
    struct doc { doc(const char *) {} };
    struct is_operator {};
    struct sx_extra { std::vector<std::pair<size_t, size_t>> alive; bool reference = false, internal = false; };
    template <class T> void sx_option(sx_extra &, const T &) {}
    template <size_t N, size_t P> void sx_option(sx_extra & e, const keep_alive<N, P> &) { e.alive.push_back({ N, P }); }
    inline void sx_option(sx_extra & e, const return_value_policy & p)
    {
        e.internal = p == return_value_policy::reference_internal;
        e.reference = e.internal || p == return_value_policy::reference;
    }
    // position 0 is the result, 1 the object itself, 2 the first argument
    inline void sx_keep(const sx_extra & e, const object & result, const args_t & a)
    {
        auto at = [&](size_t i) -> const object & { return i == 0 ? result : a[i - 1]; };
        for (const auto & [n, p] : e.alive)
            if (n <= a.size() && p <= a.size() && at(n).h && at(p).h) at(n).h->kept.push_back(at(p));
    }
    template <class R> object sx_result(const sx_extra & e, R && r, const args_t & a)
    {
        using T = std::remove_cvref_t<R>;
        if constexpr (std::is_lvalue_reference_v<R>) {
            if (e.reference) {
                object o = sx_borrow<T>(&r);
                if (e.internal) o.h->kept.push_back(a[0]);
                return o;
            }
            if constexpr (std::is_copy_constructible_v<T>) return sx_value<T>(r);
            else return object();
        } else if constexpr (std::is_integral_v<T>) return sx_value<int>(int(r));
        else if constexpr (std::is_floating_point_v<T>) return sx_value<double>(double(r));
        else return sx_value<T>(std::move(r));
    }
    // constructors
    template <class... A> struct sx_init {};
    template <class F> struct sx_factory { F f; };
    template <class... A> sx_init<A...> init() { return {}; }
    template <class F> sx_factory<F> init(F f) { return { std::move(f) }; }
    template <class T> T *sx_construct(T && r) { return new T(std::move(r)); }
    template <class T> T *sx_construct(T * r) { return r; }
    template <class T> T *sx_construct(std::unique_ptr<T> && r) { return r.release(); }
    struct sx_class {
        std::string name;
        // {call(arguments, self or result)}: whether the arguments fit
        using call_t = std::function<bool(const args_t &, object &)>;
        std::vector<std::pair<std::string, call_t>> methods, properties;
    };
    struct module_ {
        std::vector<sx_class *> classes;
        std::string text;
        std::string & doc() { return text; }
        module_() {}
        module_(const module_ &) = delete;
        ~module_() { for (auto *c : classes) delete c; }
        object call_in(std::vector<std::pair<std::string, sx_class::call_t>> & list, const std::string & what, const args_t & a)
        {
            for (auto & [n, f] : list)
                if (object r; n == what && f(a, r)) return r;
            sx_check(false, "the Python interface accepts the call");
            return object();
        }
        sx_class *find(const std::string & name)
        {
            for (auto *c : classes) if (c->name == name) return c;
            sx_check(false, "the Python interface has the class");
            sx_stop();
        }
        object make(const std::string & name, const args_t & a) { return call_in(find(name)->methods, "__init__", a); }
        object call(const std::string & name, const std::string & what, const args_t & a) { return call_in(find(name)->methods, what, a); }
        object get(const std::string & name, const std::string & what, const object & self) { return call_in(find(name)->properties, what, { self }); }
    };
    template <class T, class... Options> struct class_ {
        sx_class *c;
        template <class... X> class_(module_ & m, const char *name, const X &...) : c(new sx_class{ name, {}, {} }) { m.classes.push_back(c); }
        template <class... X> static sx_extra extras(const X &... x) { sx_extra e; (sx_option(e, x), ...); return e; }
        void made(const sx_extra & e, const object & o, const args_t & a)
        {
            args_t all{ o };
            all.insert(all.end(), a.begin(), a.end());
            sx_keep(e, object(), all);
        }
        template <class... A, class... X> class_ & def(sx_init<A...>, const X &... x)
        {
            c->methods.push_back({ "__init__", [this_ = *this, e = extras(x...)](const args_t & a, object & r) mutable {
                const bool ok = sx_args<std::tuple<std::remove_cvref_t<A>...>>::call(a, 0, [&](auto &... v) {
                    if constexpr (std::is_constructible_v<T, A...>) r = sx_own(new T(static_cast<A>(v)...));
                    else r = sx_own(new T{ static_cast<A>(v)... });
                });
                if (ok) this_.made(e, r, a);
                return ok;
            } });
            return *this;
        }
        template <class F, class... X> class_ & def(sx_factory<F> f, const X &... x)
        {
            c->methods.push_back({ "__init__", [this_ = *this, f, e = extras(x...)](const args_t & a, object & r) mutable {
                const bool ok = sx_args<typename sx_sig<F>::args>::call(a, 0, [&](auto &... v) { r = sx_own(sx_construct<T>(f.f(v...))); });
                if (ok) this_.made(e, r, a);
                return ok;
            } });
            return *this;
        }
        template <class F> static sx_class::call_t method(F f, sx_extra e)
        {
            return [f, e](const args_t & a, object & r) mutable {
                auto run = [&](auto && g) {
                    using R = decltype(g());
                    if constexpr (std::is_void_v<R>) g();
                    else r = sx_result<R>(e, g(), a);
                };
                bool ok;
                if constexpr (std::is_member_function_pointer_v<F>) {
                    T *self = a.empty() ? nullptr : a[0].template as<T>();
                    ok = self && sx_args<typename sx_sig<F>::args>::call(a, 1, [&](auto &... v) { run([&]() -> decltype(auto) { return (self->*f)(v...); }); });
                } else
                    ok = sx_args<typename sx_sig<F>::args>::call(a, 0, [&](auto &... v) { run([&]() -> decltype(auto) { return f(v...); }); });
                if (ok) sx_keep(e, r, a);
                return ok;
            };
        }
        template <class F, class... X> class_ & def(const char *name, F f, const X &... x)
        {
            c->methods.push_back({ name, method(f, extras(x...)) });
            return *this;
        }
        template <class F, class... X> class_ & def_property_readonly(const char *name, F f, const X &... x)
        {
            sx_extra e;
            e.reference = e.internal = true;
            (sx_option(e, x), ...);
            c->properties.push_back({ name, method(f, e) });
            return *this;
        }
    };
    struct index_error : std::runtime_error { index_error(const char *s = "") : std::runtime_error(s) {} };
    struct value_error : std::runtime_error { value_error(const char *s = "") : std::runtime_error(s) {} };
}
#define PYBIND11_MODULE(name, variable, ...) static void sx_python_module(::pybind11::module_ & variable)
