// Force-included into every library source: calls of exit() reach the
// harness, which turns them into an exception (or really exits, see
// mc_exit_mode).
#pragma once
#include <cstdlib>
#include <stdlib.h>
#include <unistd.h>
[[noreturn]] void mc_exit_hook(int code);
namespace std { using ::mc_exit_hook; }
#define exit mc_exit_hook
#define _Exit mc_exit_hook
#define quick_exit mc_exit_hook
