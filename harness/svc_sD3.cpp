#include "svc_impl.hpp"
static const bool reg = qg::register_kind<smooth::feedback::QuadraticProgram<-1, 3>>("sD3");
