// The call a simulated thread makes. Built like the library (instrumented, same substitutions), so
// that memory the library returns is released by the same allocator.
#include <new>
#include <string>
#include <vector>
#include <cstdint>
#include "nxas.h"

extern "C" void simthr_result(int kind, const uint64_t* data, unsigned long words);

extern "C" void simthr_call(const char* src, unsigned long len, const char* name)
{
    try {
        const std::string code(src, len);
        const std::vector<uint64_t> image = nxas::assemble(code, name);
        simthr_result(1, image.data(), image.size());
    } catch (const std::bad_alloc&) {
        simthr_result(2, nullptr, 0);
    } catch (...) {
        simthr_result(3, nullptr, 0);
    }
}
