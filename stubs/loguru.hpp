// Offline stand-in for the loguru submodule (empty in this checkout).
#ifndef V_LOGURU_HPP
#define V_LOGURU_HPP
#include <string>
#include <sstream>
extern "C" [[noreturn]] void v_fatal(const char *);
struct VNull
{
  template <class T> const VNull &operator<< (const T &) const { return *this; }
  const VNull &operator<< (std::ostream &(*)(std::ostream &)) const { return *this; }
};
#define V_LOG_FATAL for (v_fatal("LOG_S(FATAL)"); false;) VNull()
#define V_LOG_NONE for (; false;) VNull()
#include "defines.hpp"
#ifdef V_CONFIG
extern int v_errors;
#define V_LOG_ERROR for (++v_errors; false;) VNull()
#else
#define V_LOG_ERROR V_LOG_NONE
#endif
namespace loguru
{
enum FileMode { Truncate, Append };
enum { Verbosity_MAX = 9, Verbosity_INFO = 0 };
static int g_stderr_verbosity;
inline bool add_file(const char *, FileMode, int) { return true; }
struct SignalOptions { bool unsafe_signal_handler, sigabrt, sigbus, sigfpe, sigill, sigint, sigsegv, sigterm; };
struct Options { SignalOptions signals; };
static bool g_preamble_header, g_preamble_date, g_preamble_time;
inline void init(int, char **, const Options &) {}
}
#define V_LOG_WARNING V_LOG_NONE
#ifdef V_SIGNALS
void v_point(int);                     // a signal may arrive here
#define V_LOG_INFO for (v_point(0); false;) VNull()
#else
#define V_LOG_INFO V_LOG_NONE
#endif
#define V_LOG_MAX V_LOG_NONE
#define V_LOG_1 V_LOG_NONE
#define V_LOG_2 V_LOG_NONE
#define V_LOG_3 V_LOG_NONE
#define LOG_S(x) V_LOG_##x
#endif
