// std::thread on top of the cooperative scheduler (linked with --wrap for the start and join entry points)
#include "sym.h"
#include <thread>
extern "C" void verif_fail_thread(const char* m) { sym_fail(m); }
struct LA { std::thread::_State* s; };
static void launch(void* a) { LA* l = (LA*)a; std::thread::_State* s = l->s; delete l; s->_M_run(); delete s; }
extern "C" void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread* t, std::unique_ptr<std::thread::_State>* s, void (*)()) { int id = sym_thread_create(launch, new LA{s->release()}); *(unsigned long*)t = (unsigned long)id; }
extern "C" void __wrap__ZNSt6thread4joinEv(std::thread* t) { if (!t->joinable()) sym_fail("join of a thread that is not joinable (std::system_error)"); sym_thread_join((int)*(unsigned long*)t); *(unsigned long*)t = 0; }
extern "C" int __wrap_nanosleep(const struct timespec*, struct timespec*) { return 0; }
