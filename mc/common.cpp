#include "stream.hpp"
std::string g_diag; unsigned g_diag_calls; void (*g_diag_hook)(); bool g_diag_bad;
