// Replacement for pyre's journal used by the harness builds: diagnostics text is discarded, a flushed
// firewall or error ends the run through sx_firewall() (an uncaught exception in the real library).
#pragma once
#include <string>
#include <string_view>
#include <source_location>
extern "C" [[noreturn]] void sx_firewall();
namespace pyre::journal {
    struct endl_t {}; struct newline_t {}; struct indent_t { constexpr indent_t operator()(int) const { return *this; } }; struct outdent_t { constexpr outdent_t operator()(int) const { return *this; } };
    inline constexpr endl_t endl{}; inline constexpr newline_t newline{}; inline constexpr indent_t indent{}; inline constexpr outdent_t outdent{};
    struct at_t { template <class... A> constexpr explicit at_t(A &&...) {} };
    template <class... A> constexpr auto at(A &&...) -> at_t { return at_t(); }
    struct note_t { template <class... A> constexpr explicit note_t(A &&...) {} };
    template <class... A> constexpr auto note(A &&...) -> note_t { return note_t(); }
    template <bool fatal> struct channel_t {
        constexpr explicit channel_t(const char *) {}
        constexpr explicit channel_t(const char *, int) {}
        template <class T> constexpr auto operator<<(const T &) -> channel_t & { return *this; }
        inline auto operator<<(const endl_t &) -> channel_t & { if constexpr (fatal) sx_firewall(); return *this; }
        constexpr void activate() {} constexpr void deactivate() {} constexpr void active(bool) {} constexpr void fatal_(bool) {}
        constexpr explicit operator bool() const { return true; }
    };
    using info_t = channel_t<false>; using debug_t = channel_t<false>; using warning_t = channel_t<false>; using help_t = channel_t<false>;
    using error_t = channel_t<true>; using firewall_t = channel_t<true>;
    inline void init(int = 0, char ** = nullptr) {}
}
#ifndef __HERE__
#define __HERE__ 0
#endif
