#pragma once
#include <cstdint>
#define FLATBUFFERS_LITTLEENDIAN 1
