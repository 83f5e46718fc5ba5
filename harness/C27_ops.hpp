#pragma once
#include <cstdint>
namespace ops
{
    int count(bool surf);
    const char* name(bool surf, int op);
    void* make(int variant);                 // one curve and one surface
    int call(const void* shared, bool surf, int op, int arg, double* out, int cap);
}
