#pragma once
// the monitor process (BBL.cpp): its start routine starts one thread; a pass is what that thread does between two sleeps
#include <thread>
#include <setjmp.h>
int bbl_tpsvrinit(int, char **);
#define main bbl_main
#define tpsvrinit bbl_tpsvrinit
#define TMIB bbl_TMIB
#include "BBL.cpp"
#undef main
#undef tpsvrinit
#undef TMIB
static void *wd_thread; static long wd_now;
namespace std { void thread::_M_start_thread(_State_ptr s, void (*)()) { sym_check(!wd_thread, "the monitor watches once"); wd_thread = s.release(); _M_id = id(7); } void thread::detach() { _M_id = id(); } void thread::join() { ((_State *)wd_thread)->_M_run(); } } // joining is made to run it
static jmp_buf wd_jmp; static int wd_sleeps;
static void wd_sleep() { sym_check(!env_lock_depth, "the monitor does not sleep with the lock"); if (wd_sleeps++) longjmp(wd_jmp, 1); if (wd_now) env_now_ns = wd_now; }
static void monitor_pass() {
  if (!wd_thread) sym_check(bbl_tpsvrinit(0, nullptr) == 0 && wd_thread, "the monitor starts to watch");
  wd_sleeps = 0; auto was = env_on_sleep; env_on_sleep = wd_sleep;
  if (!setjmp(wd_jmp)) { try { std::thread t; t.join(); } catch (const std::exception &) { } sym_fail("the monitor goes on"); }
  env_on_sleep = was; }
