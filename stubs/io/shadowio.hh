// Streams that keep what is written: text as such, floating point numbers as '@' with their values beside it.
#ifndef SHADOW_IO_HH
#define SHADOW_IO_HH
#include <iosfwd>
#include <string>
#include <vector>
#include <ios_shadow.hh>
namespace std {
template<> class basic_ostream<char, char_traits<char>>
{
public:
    std::string text; std::vector<double> values;
    basic_ostream() {}
    virtual ~basic_ostream() {}
    basic_ostream& operator<<(const char* s) { text += s; return *this; }
    basic_ostream& operator<<(char c) { text += c; return *this; }
    basic_ostream& operator<<(const std::string& s) { text += s; return *this; }
    basic_ostream& operator<<(int v) { text += std::to_string(v); return *this; }
    basic_ostream& operator<<(long v) { text += std::to_string(v); return *this; }
    basic_ostream& operator<<(long long v) { text += std::to_string(v); return *this; }
    basic_ostream& operator<<(unsigned v) { text += std::to_string(v); return *this; }
    basic_ostream& operator<<(unsigned long v) { text += std::to_string(v); return *this; }
    basic_ostream& operator<<(unsigned long long v) { text += std::to_string(v); return *this; }
    basic_ostream& operator<<(bool v) { text += v ? '1' : '0'; return *this; }
    basic_ostream& operator<<(double v) { text += '@'; values.push_back(v); return *this; }
    basic_ostream& operator<<(float v) { return *this << double(v); }
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
    basic_ostream& operator<<(shadow::manip) { return *this; }
    basic_ostream& operator<<(ios_base& (*)(ios_base&)) { return *this; }
    basic_ostream& put(char c) { text += c; return *this; }
    basic_ostream& write(const char* s, long n) { text.append(s, n); return *this; }
    basic_ostream& flush() { return *this; }
    long precision() const { return 6; }
    long precision(long) { return 6; }
    bool good() const { return true; }
    bool fail() const { return false; }
    explicit operator bool() const { return true; }
    bool operator!() const { return false; }
};
inline ostream& endl(ostream& s) { s.text += '\n'; return s; }
inline ostream& flush(ostream& s) { return s; }
inline ostream cout, cerr, clog;
}
#endif
