// Stand-ins for dialect operation classes: enough interface for the analysed sources to type-check against MLIR.
// Every member is declared only; the analysis sees calls to them as opaque, named operations.
#pragma once
#include "mlir/Bytecode/BytecodeOpInterface.h"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinAttributes.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/BuiltinTypes.h"
#include "mlir/IR/Diagnostics.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/Matchers.h"
#include "mlir/IR/OpDefinition.h"
#include "mlir/IR/PatternMatch.h"
#include "mlir/IR/TypeUtilities.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Quant/QuantTypes.h"
#include "mlir/Interfaces/SideEffectInterfaces.h"
#include "llvm/ADT/StringSwitch.h"
#include "llvm/ADT/STLExtras.h"
#include <cmath>
#include <numeric>
#include <string>
#include <vector>
#define VERIF_OP_COMMON(NAME)                                                            \
  VERIF_OP_BASE(NAME)                                                                    \
  static ::llvm::StringRef getOperationName();
#define VERIF_OP_BASE(NAME)                                                              \
 public:                                                                                 \
  using Op::Op;                                                                          \
  static ::llvm::ArrayRef<::llvm::StringRef> getAttributeNames();                        \
  template <class... A> static void build(::mlir::OpBuilder&, ::mlir::OperationState&, A&&... a);
#define VERIF_OP(NAME)                                                                   \
  class NAME : public ::mlir::Op<NAME, ::mlir::OpTrait::ZeroRegions,                     \
                                 ::mlir::OpTrait::VariadicResults,                       \
                                 ::mlir::OpTrait::VariadicOperands> {                    \
    VERIF_OP_COMMON(NAME)                                                                \
    ::mlir::Value getInput();                                                            \
    ::mlir::Value getOutput();                                                           \
    ::mlir::Value getX();                                                                \
    ::mlir::Value getY();                                                                \
    ::mlir::Value getLhs();                                                              \
    ::mlir::Value getRhs();                                                              \
    ::mlir::Value getFilter();                                                           \
    ::mlir::Value getBias();                                                             \
    ::mlir::Value getResult();                                                           \
    ::mlir::Type getType();                                                              \
    ::mlir::TypeAttr getQtypeAttr();                                                     \
    ::llvm::StringRef getPadding();                                                      \
    ::llvm::StringRef getFusedActivationFunction();                                      \
    operator ::mlir::Value();                                                            \
  }
namespace mlir { namespace TF {
class TensorFlowDialect : public ::mlir::Dialect { public: TensorFlowDialect(::mlir::MLIRContext*); static ::llvm::StringRef getDialectNamespace() { return "tf"; } };
VERIF_OP(Conv2DOp); VERIF_OP(PadV2Op); VERIF_OP(PadOp); VERIF_OP(ConstOp); VERIF_OP(SignOp); VERIF_OP(IdentityOp); VERIF_OP(IdentityNOp);
VERIF_OP(BroadcastToOp); VERIF_OP(ShapeOp); VERIF_OP(TransposeOp); VERIF_OP(DivOp); VERIF_OP(SelectOp); VERIF_OP(SelectV2Op); VERIF_OP(AddV2Op);
VERIF_OP(CheckNumericsOp); VERIF_OP(StopGradientOp); VERIF_OP(SnapshotOp); VERIF_OP(PlaceholderWithDefaultOp); VERIF_OP(LogicalNotOp); VERIF_OP(MaxPoolOp);
}
namespace TFL {
class TensorFlowLiteDialect : public ::mlir::Dialect { public: TensorFlowLiteDialect(::mlir::MLIRContext*); static ::llvm::StringRef getDialectNamespace() { return "tfl"; } };
VERIF_OP(AddOp); VERIF_OP(SubOp); VERIF_OP(MulOp); VERIF_OP(DivOp); VERIF_OP(QuantizeOp); VERIF_OP(DequantizeOp); VERIF_OP(PadOp); VERIF_OP(PadV2Op);
VERIF_OP(Conv2DOp); VERIF_OP(DepthwiseConv2DOp); VERIF_OP(MaxPool2DOp); VERIF_OP(AveragePool2DOp); VERIF_OP(NoValueOp); VERIF_OP(GreaterEqualOp); VERIF_OP(LessEqualOp);
VERIF_OP(ReluOp); VERIF_OP(Relu1Op); VERIF_OP(Relu6Op); VERIF_OP(QConstOp); VERIF_OP(ConstOp); VERIF_OP(ReshapeOp); VERIF_OP(CastOp);
class ConstBytesAttr : public ::mlir::Attribute { public: using Attribute::Attribute; static ConstBytesAttr get(::mlir::MLIRContext*, ::llvm::StringRef); ::llvm::StringRef getValue() const; static bool classof(::mlir::Attribute); };
class CustomOp : public ::mlir::Op<CustomOp, ::mlir::OpTrait::ZeroRegions, ::mlir::OpTrait::VariadicResults, ::mlir::OpTrait::VariadicOperands> {
  VERIF_OP_COMMON(CustomOp)
  ::mlir::Operation::operand_range getInput();
  ::mlir::Operation::result_range getOutput();
  ::llvm::StringRef getCustomCode();
  ::mlir::StringAttr getCustomCodeAttr();
  ConstBytesAttr getCustomOption();
  ConstBytesAttr getCustomOptionAttr();
};
}}
