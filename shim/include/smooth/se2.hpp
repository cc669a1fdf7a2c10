#pragma once
#include <smooth/shim_core.hpp>
