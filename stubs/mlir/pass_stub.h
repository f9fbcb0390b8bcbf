#pragma once
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/Pass/Pass.h"
#define VERIF_PASS(name) template <typename... A> std::unique_ptr<::mlir::OperationPass<::mlir::func::FuncOp>> name(A... a);
#define VERIF_MPASS(name) template <typename... A> std::unique_ptr<::mlir::OperationPass<::mlir::ModuleOp>> name(A... a);
