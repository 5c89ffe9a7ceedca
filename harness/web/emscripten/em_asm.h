#pragma once
#include <emscripten.h>
