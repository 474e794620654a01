#pragma once
#include <cstddef>
#define VP_EXPORT extern "C" __attribute__((visibility("default")))
