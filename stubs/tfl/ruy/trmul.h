#pragma once
#include "ruy/ruy_all.h"
