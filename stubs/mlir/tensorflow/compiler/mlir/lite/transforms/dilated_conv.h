#pragma once
#include "verif_ops.h"
namespace mlir { namespace TFL { template <class T> struct ConvertTFDilatedConvOp : public ::mlir::OpRewritePattern<T> { using ::mlir::OpRewritePattern<T>::OpRewritePattern; ::mlir::LogicalResult matchAndRewrite(T, ::mlir::PatternRewriter&) const override; }; }}
