// Offline stand-in for the picojson submodule (empty in this checkout): the same value interface, no text parser.
#ifndef PICOJSON_STUB_H
#define PICOJSON_STUB_H
#include <exception>
#include <istream>
#include <map>
#include <string>
#include <vector>
#include <fstream>
#include <iomanip>
#include <sstream>
#include "defines.hpp"
#ifdef V_CONFIG
// the configuration file is always there, its text is document()
namespace std
{
struct v_ifstream
{
  template <class A, class B> void open(A, B) {}
  bool is_open() { return true; }
  int rdbuf() { return 0; }
  void close() {}
};
struct v_stringstream { v_stringstream &operator<<(int) { return *this; } };
}
#define ifstream v_ifstream
#define stringstream v_stringstream
#endif
namespace picojson
{
class value;
typedef std::vector<value> array;
typedef std::map<std::string, value> object;
struct type_error : std::exception
{
  const char *what() const noexcept { return "type mismatch"; }
};
template <class T> struct type_tag;
class value
{
public:
  int kind = 0;                 // 0 null, 1 boolean, 2 number, 3 string, 4 array, 5 object
  bool b = false;
  double n = 0;
  std::string *s = 0;
  array *a = 0;
  object *o = 0;
  value() {}
  explicit value(bool x) : kind(1), b(x) {}
  explicit value(double x) : kind(2), n(x) {}
  explicit value(const std::string &x) : kind(3), s(new std::string(x)) {}
  explicit value(const char *x) : kind(3), s(new std::string(x)) {}
  explicit value(const array &x) : kind(4), a(new array(x)) {}
  explicit value(const object &x) : kind(5), o(new object(x)) {}
  value(const value &v) { *this = v; }
  value &operator=(const value &v)
  {
    kind = v.kind; b = v.b; n = v.n;
    std::string *s2 = v.s ? new std::string(*v.s) : 0;
    array *a2 = v.a ? new array(*v.a) : 0;
    object *o2 = v.o ? new object(*v.o) : 0;
    s = s2; a = a2; o = o2;
    return *this;
  }
  typedef picojson::array array;
  template <class T> void set(const T &x) { *this = value(x); }
  template <class T> bool is() const { return kind == type_tag<T>::kind; }
  template <class T> T &get()
  {
    if (!is<T>()) throw type_error();
    return type_tag<T>::at(*this);
  }
  std::string serialize(bool = false) const { return s ? *s : "json"; }
};
template <> struct type_tag<bool> { enum { kind = 1 }; static bool &at(value &v) { return v.b; } };
template <> struct type_tag<double> { enum { kind = 2 }; static double &at(value &v) { return v.n; } };
template <> struct type_tag<std::string> { enum { kind = 3 }; static std::string &at(value &v) { return *v.s; } };
template <> struct type_tag<array> { enum { kind = 4 }; static array &at(value &v) { return *v.a; } };
template <> struct type_tag<object> { enum { kind = 5 }; static object &at(value &v) { return *v.o; } };
inline std::string get_last_error() { return ""; }
// the document the next "parse" reads
inline value *&document() { static value *d = 0; return d; }
#ifdef V_CONFIG
inline std::v_stringstream &operator>>(std::v_stringstream &i, value &v) { v = *document(); return i; }
#else
inline std::istream &operator>>(std::istream &i, value &v) { v = *document(); return i; }
#endif
}
#endif
