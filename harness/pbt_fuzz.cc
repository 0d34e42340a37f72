// libFuzzer driver for the target named by PBT_TARGET.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include "pbt.h"

static pbt::Property fn;
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  const char* n = getenv("PBT_TARGET");
  for (auto& t : pbt::targets())
    if (n && strcmp(n, t.name) == 0) fn = t.fn;
  if (!fn) {
    fprintf(stderr, "PBT_TARGET?\n");
    _Exit(2);
  }
  if (pbt::global_setup) pbt::global_setup();
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  pbt::Gen g(data, size);
  try {
    fn(g);
  } catch (const pbt::Fail& f) {
    fprintf(stderr, "PROPERTY FAILED: %s\n", f.msg.c_str());
    __builtin_trap();
  } catch (const std::exception& e) {
    fprintf(stderr, "PROPERTY FAILED: unexpected exception %s\n", e.what());
    __builtin_trap();
  }
  return 0;
}
