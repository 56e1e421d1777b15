// stand-in for the logging library (not in this checkout): a FATAL message ends the program
#ifndef DEMO_LOGURU
#define DEMO_LOGURU
#include <cstdlib>
#include <iostream>
#include <sstream>
struct DemoLog { bool f; std::ostringstream s; DemoLog(bool x) : f(x) {} ~DemoLog() { if (f) { std::cerr << "FATAL " << s.str() << "\n"; std::_Exit(97); } }
  template <class T> DemoLog &operator<<(const T &x) { s << x; return *this; } };
enum DemoLevel { L_FATAL, L_OTHER };
#define DL_FATAL true
#define DL_ERROR false
#define DL_WARNING false
#define DL_INFO false
#define DL_MAX false
#define DL_1 false
#define DL_2 false
#define DL_3 false
#define LOG_S(x) DemoLog(DL_##x)
#endif
