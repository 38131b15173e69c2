// Generation of stack traces.
#include <src/boost_stack_trace.cpp>
#include <src/stack_trace.cpp>
#include <src/detail/to_string.cpp>

namespace hx
{

std::string trace(unsigned n)
{
    return obake::stack_trace(n);
}

} // namespace hx
