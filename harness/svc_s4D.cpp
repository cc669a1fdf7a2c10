#include "svc_impl.hpp"
static const bool reg = qg::register_kind<smooth::feedback::QuadraticProgram<4, -1>>("s4D");
