#pragma once
#include <string>
#include <vector>
namespace mlir { namespace TFL { const std::vector<std::string>& AllTfFakeQuantOps(); } }
