// Stand-in for file streams: a file is a sequence of words and numbers kept in memory, so that the numbers may be
// symbolic. A number printed with fewer than 17 significant digits comes back with an arbitrary rounding error of the
// size the precision allows. Words and integers are plain text: what is printed without a blank in between runs together.
#pragma once
#include <fstream>
#include <iomanip>
#include <iostream>
#include <string>
#include <vector>
#include "sx.h"
struct sx_piece { enum { TEXT, REAL, LINE } kind; bool glued; std::string text; double value; };
struct sx_file { std::string name; std::vector<sx_piece> pieces; bool open_for_writing = false; };
inline std::vector<sx_file *> & sx_files() { static auto *f = new std::vector<sx_file *>; return *f; }
inline sx_file *sx_find_file(const std::string & name) { for (auto *f : sx_files()) if (f->name == name) return f; return nullptr; }
inline std::string sx_digits(long v)
{
    std::string s;
    const bool neg = v < 0;
    unsigned long u = neg ? -(unsigned long) v : v;
    do { s.insert(s.begin(), char('0' + u % 10)); u /= 10; } while (u);
    if (neg) s.insert(s.begin(), '-');
    return s;
}
namespace std {
    class sx_ofstream {
        sx_file *f = nullptr;
        bool blank = true, fixed_ = false;
        int prec = 6;
        double scale(int p) { double b = 0.5; for (int i = 0; i < p; i++) b /= 10; return b; }

      public:
        sx_ofstream() {}
        sx_ofstream(const std::string & n, std::ios_base::openmode m = std::ios_base::out) { open(n, m); }
        sx_ofstream(const char *n, std::ios_base::openmode m = std::ios_base::out) { open(n, m); }
        sx_ofstream(const sx_ofstream &) = delete;
        ~sx_ofstream() { close(); }
        void open(const std::string & n, std::ios_base::openmode m = std::ios_base::out)
        {
            f = sx_find_file(n);
            if (!f) { f = new sx_file; f->name = n; sx_files().push_back(f); }
            else if (!(m & std::ios_base::app)) f->pieces.clear();
            f->open_for_writing = true;
            blank = true;
        }
        void close() { if (f) f->open_for_writing = false; f = nullptr; }
        bool is_open() const { return f; }
        bool good() const { return f; }
        bool fail() const { return !f; }
        explicit operator bool() const { return f; }
        bool operator!() const { return !f; }
        void flush() {}
        int precision() const { return prec; }
        int precision(int p) { int o = prec; prec = p; return o; }
        sx_ofstream & put(char c)
        {
            if (!f) return *this;
            if (c == '\n') { f->pieces.push_back({ sx_piece::LINE, false, "", 0 }); blank = true; }
            else if (c == ' ' || c == '\t' || c == '\r') blank = true;
            else {
                if (!blank && !f->pieces.empty() && f->pieces.back().kind == sx_piece::TEXT) f->pieces.back().text += c;
                else f->pieces.push_back({ sx_piece::TEXT, !blank, std::string(1, c), 0 });
                blank = false;
            }
            return *this;
        }
        sx_ofstream & write(const char *s, long n) { while (n-- > 0) put(*s++); return *this; }
        sx_ofstream & operator<<(char c) { return put(c); }
        sx_ofstream & operator<<(const char *s) { while (*s) put(*s++); return *this; }
        sx_ofstream & operator<<(const std::string & s) { return *this << s.c_str(); }
        sx_ofstream & operator<<(int v) { return *this << sx_digits(v); }
        sx_ofstream & operator<<(long v) { return *this << sx_digits(v); }
        sx_ofstream & operator<<(unsigned v) { return *this << sx_digits(v); }
        sx_ofstream & operator<<(unsigned long v) { return *this << sx_digits(v); }
        sx_ofstream & operator<<(bool v) { return *this << (v ? "1" : "0"); }
        sx_ofstream & operator<<(double v)
        {
            if (!f) return *this;
            double d = 0;
            if (fixed_) d = prec < 17 ? sx_real("rounding", -scale(prec), scale(prec)) : 0;
            else if (prec < 17) { const double b = scale(prec > 0 ? prec - 1 : 0); d = v * sx_real("rounding", -b, b); }
            f->pieces.push_back({ sx_piece::REAL, !blank, "", v + d });
            blank = false;
            return *this;
        }
        sx_ofstream & operator<<(float v) { const int p = prec; if (prec > 8) prec = 8; *this << (double) v; prec = p; return *this; }
        sx_ofstream & operator<<(std::ostream & (*m)(std::ostream &) )
        {
            if (m == static_cast<std::ostream & (*) (std::ostream &)>(std::endl)) put('\n');
            return *this;
        }
        sx_ofstream & operator<<(std::ios_base & (*m)(std::ios_base &) )
        {
            if (m == std::fixed) fixed_ = true;
            else if (m == std::defaultfloat || m == std::scientific) fixed_ = false;
            return *this;
        }
        sx_ofstream & operator<<(std::_Setprecision p) { prec = p._M_n; return *this; }
        sx_ofstream & operator<<(std::_Setw) { return *this; }
    };
    class sx_ifstream {
        sx_file *f = nullptr;
        std::vector<sx_piece> p;
        size_t at = 0;
        bool bad = false;
        bool word(std::string & s)
        {
            while (at < p.size() && p[at].kind == sx_piece::LINE) at++;
            if (at >= p.size()) { bad = true; return false; }
            s.clear();
            do { s += p[at].kind == sx_piece::TEXT ? p[at].text : std::string("#"); at++; } while (at < p.size() && p[at].kind != sx_piece::LINE && p[at].glued);
            return true;
        }

      public:
        sx_ifstream() {}
        sx_ifstream(const std::string & n, std::ios_base::openmode = std::ios_base::in) { open(n); }
        sx_ifstream(const char *n, std::ios_base::openmode = std::ios_base::in) { open(n); }
        sx_ifstream(const sx_ifstream &) = delete;
        void open(const std::string & n)
        {
            f = sx_find_file(n);
            bad = !f;
            at = 0;
            if (f) { sx_check(!f->open_for_writing, "a file is complete before it is read"); p = f->pieces; }
        }
        void close() { f = nullptr; }
        bool is_open() const { return f; }
        bool fail() const { return bad; }
        bool good() const { return !bad && !eof(); }
        bool eof() const { return at >= p.size(); }
        explicit operator bool() const { return !bad; }
        bool operator!() const { return bad; }
        void clear() { bad = false; }
        long integer()
        {
            std::string s;
            if (bad || !word(s)) return 0;
            size_t k = s[0] == '-' || s[0] == '+';
            long v = 0;
            const size_t first = k;
            for (; k < s.size() && s[k] >= '0' && s[k] <= '9'; k++) v = 10 * v + (s[k] - '0');
            if (k == first) { bad = true; at--; return 0; }
            if (k < s.size()) { p[--at] = { sx_piece::TEXT, false, s.substr(k), 0 }; sx_check(s.find('#') == std::string::npos, "no integer is read where a real number stands"); }
            return s[0] == '-' ? -v : v;
        }
        sx_ifstream & operator>>(int & v) { const bool end = bad || eof(); const long x = integer(); if (!end) v = (int) x; return *this; }
        sx_ifstream & operator>>(long & v) { const bool end = bad || eof(); const long x = integer(); if (!end) v = x; return *this; }
        sx_ifstream & operator>>(unsigned & v) { const bool end = bad || eof(); const long x = integer(); if (!end) v = (unsigned) x; return *this; }
        sx_ifstream & operator>>(unsigned long & v) { const bool end = bad || eof(); const long x = integer(); if (!end) v = (unsigned long) x; return *this; }
        sx_ifstream & operator>>(double & v)
        {
            if (bad) return *this;
            while (at < p.size() && p[at].kind == sx_piece::LINE) at++;
            if (at >= p.size()) { bad = true; return *this; }
            if (p[at].kind == sx_piece::REAL) {
                v = p[at++].value;
                if (at < p.size() && p[at].kind != sx_piece::LINE && p[at].glued) sx_check(false, "numbers are separated from what follows");
                return *this;
            }
            std::string s;
            word(s);
            size_t k = s[0] == '-' || s[0] == '+';
            double x = 0, unit = 1;
            bool any = false;
            for (; k < s.size() && s[k] >= '0' && s[k] <= '9'; k++, any = true) x = 10 * x + (s[k] - '0');
            if (k < s.size() && s[k] == '.') for (k++; k < s.size() && s[k] >= '0' && s[k] <= '9'; k++, any = true) { unit /= 10; x += unit * (s[k] - '0'); }
            if (!any) { bad = true; at--; v = 0; return *this; }
            if (k < s.size()) p[--at] = { sx_piece::TEXT, false, s.substr(k), 0 };
            v = s[0] == '-' ? -x : x;
            return *this;
        }
        sx_ifstream & operator>>(std::string & s) { if (!bad) word(s); return *this; }
        sx_ifstream & operator>>(std::istream & (*) (std::istream &) ) { while (at < p.size() && p[at].kind == sx_piece::LINE) at++; return *this; }
        // single characters: a number counts as one digit
        int peek()
        {
            if (bad || at >= p.size()) return -1;
            if (p[at].kind == sx_piece::LINE) return '\n';
            if (at && !p[at].glued && p[at - 1].kind != sx_piece::LINE) return ' ';
            return p[at].kind == sx_piece::TEXT ? p[at].text[0] : '0';
        }
        int get()
        {
            const int c = peek();
            if (c < 0) { bad = true; return c; }
            if (c == '\n') at++;
            else if (c == ' ') p[at].glued = true;
            else { sx_check(p[at].kind == sx_piece::TEXT, "numbers are read as numbers"); p[at].text.erase(0, 1); p[at].glued = true; if (p[at].text.empty()) at++; }
            return c;
        }
        sx_ifstream & get(char & c) { const int x = get(); if (x >= 0) c = (char) x; return *this; }
        sx_ifstream & ignore(long = 1, int = 0) { std::string s; line(s); return *this; }
        void line(std::string & s)
        {
            s.clear();
            if (bad || at >= p.size()) { bad = true; return; }
            for (; at < p.size() && p[at].kind != sx_piece::LINE; at++) { if (!s.empty() && !p[at].glued) s += ' '; s += p[at].kind == sx_piece::TEXT ? p[at].text : std::string("#"); }
            if (at < p.size()) at++;
        }
    };
    inline sx_ifstream & getline(sx_ifstream & f, std::string & s) { f.line(s); return f; }
}
#define ifstream sx_ifstream
#define ofstream sx_ofstream
