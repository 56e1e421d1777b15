// The engine itself: exceptions, clean-up, containers
#include "v.hpp"
#include <stdexcept>
#include <string>
#include <vector>
#include <map>
struct Base { virtual ~Base() {} int code; };
struct Der : Base { };
struct Err : std::exception { std::string m; Err(std::string s) : m(s) {} const char *what() const noexcept { return m.c_str(); } };
static int dtor = 0;
struct Guard { ~Guard() { ++dtor; } };
__attribute__((noinline)) void f(int n) { Guard g; if (n == 1) throw Der(); if (n == 2) throw Err("x"); if (n == 3) throw 5; std::vector<int> v(1); v.at(n) = 1; }
__attribute__((noinline)) int h(int n) { Guard g; try { f(n); } catch (Err &e) { return 2; } return 0; }
extern "C" void t()
{
  int n = isym("n", 0, 4), r = -1;
  try { r = h(n); } catch (Base &b) { r = 1; } catch (std::exception &e) { r = 4; } catch (int i) { r = i; }
  v_check(n == 0 ? r == 0 : n == 1 ? r == 1 : n == 2 ? r == 2 : n == 3 ? r == 5 : r == 4, "caught");
  v_check(dtor == 2, "cleanup");
  std::map<std::string, int> m; m["b"] = 2; m["a"] = n; m["c"] = 3; m["b"] = 4;
  int s = 0; for (auto &x : m) s = s * 10 + x.second;
  v_check(s == 100 * n + 43 && m.count("a") && !m.count("d"), "map");
}
