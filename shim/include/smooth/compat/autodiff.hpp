#pragma once
#ifndef SMOOTH_SHIM_AUTODIFF
#define SMOOTH_SHIM_AUTODIFF 1
#endif
#include <smooth/shim_core.hpp>
