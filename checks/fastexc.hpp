// Every jm::Exception resolves a stack trace into symbol names, which takes milliseconds.  No property is
// about these names; checks that provoke many exceptions replace the resolver by a constant.
#pragma once
#include <cstdlib>
extern "C" char** backtrace_symbols(void* const*, int n)
{
   char** r = (char**)malloc(sizeof(char*) * (n > 0 ? n : 1));
   for(int i = 0; i < n; i++)r[i] = const_cast<char*>("?");
   return r;
}
extern "C" int backtrace(void** a, int)
{
   a[0] = nullptr;
   return 1;
}
