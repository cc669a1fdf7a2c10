#include "svc_impl.hpp"
static const bool reg = qg::register_kind<smooth::feedback::QuadraticProgram<3, 2>>("s32");
