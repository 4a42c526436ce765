// Linked into the command-line tool by the simulator's build: the n-th allocation fails
// (n in NXAS_SIM_FAIL_ALLOC). The tool itself is unchanged.
#include <cstdlib>
#include <new>

static long countdown = -2;

static void* grab(std::size_t n)
{
    if (countdown == -2) {
        const char* e = std::getenv("NXAS_SIM_FAIL_ALLOC");
        countdown = e ? std::atol(e) : -1;
    }
    if (countdown >= 0 && countdown-- == 0)
        return nullptr;
    return std::malloc(n ? n : 1);
}
void* operator new(std::size_t n)
{
    if (void* p = grab(n))
        return p;
    throw std::bad_alloc();
}
void* operator new[](std::size_t n)
{
    return operator new(n);
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    return grab(n);
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept
{
    return grab(n);
}
void operator delete(void* p) noexcept
{
    std::free(p);
}
void operator delete[](void* p) noexcept
{
    std::free(p);
}
void operator delete(void* p, std::size_t) noexcept
{
    std::free(p);
}
void operator delete[](void* p, std::size_t) noexcept
{
    std::free(p);
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
    std::free(p);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept
{
    std::free(p);
}
