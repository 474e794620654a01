// Verification unit: loss functions.  The body calls the real factory and what it returns.
#include "loss_fn.cpp"
#include "common.hpp"
#include <new>
using namespace Tsetlini;

extern "C" {
void vp_loss(loss_fn_name_t const & name, float C1, float x, float y, float * out)
{
    auto const f = make_loss_fn(name, loss_fn_C1_t{C1});
    out[0] = f(0.f);
    out[1] = f(x);
    out[2] = f(-x);
    out[3] = f(y);
}
}
