"""Generates stand-in C++ declarations of the `lq` dialect from the repository's lce_ops.td (through llvm-tblgen's
JSON dump), so that the C++ sources type-check. Declarations only."""
import json, os, subprocess, sys

def tbl(repo, stubs, td):
    out = subprocess.run(["/usr/lib/llvm-18/bin/llvm-tblgen", "--dump-json", "-I" + repo, "-I" + stubs + "/td",
                          "-I/usr/lib/llvm-18/include", os.path.join(repo, td)], capture_output=True, text=True)
    if out.returncode:
        raise RuntimeError("tblgen failed on %s: %s" % (td, out.stderr[:2000]))
    return json.loads(out.stdout)

def locations(repo, stubs, td):
    """record name -> file:line"""
    import re
    out = subprocess.run(["/usr/lib/llvm-18/bin/llvm-tblgen", "--print-detailed-records", "-I" + repo, "-I" + stubs + "/td",
                          "-I/usr/lib/llvm-18/include", os.path.join(repo, td)], capture_output=True, text=True)
    return dict(re.findall(r"^(\w+)  \|([^|]*)\|$", out.stdout, re.M))

def camel(n):
    return "".join(p[:1].upper() + p[1:] for p in n.split("_"))

def superclasses(d, name):
    return d[name]["!superclasses"] if name in d else []

def gen(repo, stubs, outdir):
    d = tbl(repo, stubs, "larq_compute_engine/mlir/ir/lce_ops.td")
    ops = [n for n in d["!instanceof"]["Op"] if n.startswith("LQ_")]
    o = ["#pragma once", '#include "verif_ops.h"', "namespace mlir { namespace lq {"]
    for n in ops:
        cls = n[3:]
        r = d[n]
        acc, decl = [], []
        for a, an in r["arguments"]["args"]:
            t = a["def"]
            sc = superclasses(d, t)
            if not an: continue
            if "Attr" in sc or "AttrConstraint" in sc:
                if "StringBasedAttr" in sc: ct, at = "::llvm::StringRef", "::mlir::StringAttr"
                elif "BoolAttr" in (t,): ct, at = "bool", "::mlir::BoolAttr"
                elif d[t].get("returnType", "").strip(): ct, at = d[t]["returnType"].strip(), "::mlir::IntegerAttr"
                else: ct, at = "uint32_t", "::mlir::IntegerAttr"
                acc.append("%s get%s(); %s get%sAttr();" % (ct, camel(an), at, camel(an)))
            else:
                acc.append("::mlir::Value get%s();" % camel(an))
        for a, an in r["results"]["args"]:
            if an: acc.append("::mlir::Value get%s();" % camel(an))
        operands = "OneOperand" if sum(1 for a, an in r["arguments"]["args"] if an and not {"Attr", "AttrConstraint"} & set(superclasses(d, a["def"]))) == 1 else "VariadicOperands"
        fold = "using FoldAdaptor = ::mlir::verif_FoldAdaptor; ::mlir::OpFoldResult fold(FoldAdaptor adaptor);" if r.get("hasFolder") else ""
        builders = ""
        if r.get("builders"): builders = "static void build(::mlir::OpBuilder& b, ::mlir::OperationState& s, ::mlir::Value x);"
        o.append("class %s : public ::mlir::Op<%s, ::mlir::OpTrait::ZeroRegions, ::mlir::OpTrait::OneResult, ::mlir::OpTrait::%s> {" % (cls, cls, operands))
        o.append("  VERIF_OP_BASE(%s) static ::llvm::StringRef getOperationName() { return \"lq.%s\"; }" % (cls, r["opName"]))
        o.append("  " + "\n  ".join(acc))
        o.append("  %s %s" % (fold, builders))
        o.append("  ::mlir::Type getType();")
        o.append("  " + (r.get("extraClassDeclaration") or ""))
        o.append("};")
    o.append("}}")
    base = os.path.join(outdir, "larq_compute_engine/mlir")
    os.makedirs(base + "/ir", exist_ok=True)
    os.makedirs(base + "/transforms", exist_ok=True)
    open(base + "/ir/lce_ops.h.inc", "w").write("\n".join(o))
    open(base + "/ir/lce_dialect.h.inc", "w").write("""#pragma once
#include "verif_ops.h"
namespace mlir { struct verif_FoldAdaptor { template <typename R, typename O> verif_FoldAdaptor(R r, O op); ::llvm::ArrayRef<::mlir::Attribute> getOperands() const; ::mlir::Attribute getX() const; };
namespace lq { class LarqDialect : public ::mlir::Dialect { public: explicit LarqDialect(::mlir::MLIRContext*); static ::llvm::StringRef getDialectNamespace() { return "lq"; } void initialize();
::mlir::Operation* materializeConstant(::mlir::OpBuilder& builder, ::mlir::Attribute value, ::mlir::Type type, ::mlir::Location loc); }; }}
""")
    open(base + "/ir/lce_dialect.cc.inc", "w").write("")
    open(base + "/ir/lce_ops.cc.inc", "w").write("#ifdef GET_OP_CLASSES\n#undef GET_OP_CLASSES\n#endif\n#ifdef GET_OP_LIST\n#undef GET_OP_LIST\n%s\n#endif\n" % ",\n".join("::mlir::lq::" + n[3:] for n in ops))
    for g in ["op_removal", "prepare_target_arm", "prepare_target_other", "optimize_target_arm", "optimize_target_other",
              "bitpack_activations", "bitpack_weights", "quantize", "fuse_padding"]:
        open(base + "/transforms/generated_%s.inc" % g, "w").write("void populateWithGenerated(::mlir::RewritePatternSet& patterns);\n")

if __name__ == "__main__":
    gen(*sys.argv[1:4])
