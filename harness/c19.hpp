// shared between the instrumented operations and the scheduler of C19
#ifndef C19_HPP_
#define C19_HPP_
#include <cstddef>
#include <cstdint>
struct Op
{
  const char* name; int rows, cols;
  void (*run)(const Op*, void* args, uint64_t* out);   // makes the call
  void* arg[4];                                         // argument sets (shared, read-only for the calls)
  size_t size;
};
extern Op* c19_ops; extern size_t c19_nops;
void c19_register();
#endif
