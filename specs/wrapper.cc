#include "larq_compute_engine/tflite/python/interpreter_wrapper_lite.cc"
namespace spec {
using W = LiteInterpreterWrapper;

struct Error {};
TfLiteTensor* cached(std::map<int, TfLiteTensor*>* cache, const tflite::Interpreter* i, size_t index) {
  auto at = cache->find(index);
  if (at != cache->end()) return at->second;
  TfLiteTensor* t = i->tensor(index);
  (*cache)[index] = t;
  return t;
}
TfLiteTensor* get_tensor(W* w, size_t index) { return cached(&w->tensors, w->interpreter_.get(), index); }

TfLiteType type_of(pybind11::dtype d) {
  if (d.is(pybind11::dtype::of<float>())) return kTfLiteFloat32;
  if (d.is(pybind11::dtype::of<std::uint8_t>())) return kTfLiteUInt8;
  if (d.is(pybind11::dtype::of<std::int8_t>())) return kTfLiteInt8;
  if (d.is(pybind11::dtype::of<std::int16_t>())) return kTfLiteInt16;
  if (d.is(pybind11::dtype::of<std::int32_t>())) return kTfLiteInt32;
  if (d.is(pybind11::dtype::of<std::int64_t>())) return kTfLiteInt64;
  if (d.is(pybind11::dtype::of<bool>())) return kTfLiteBool;
  if (d.is(pybind11::dtype::of<char*>())) return kTfLiteString;
  return kTfLiteNoType;
}
pybind11::dtype dtype_of(TfLiteType t) {
  if (t == kTfLiteFloat32) return pybind11::dtype::of<float>();
  if (t == kTfLiteUInt8) return pybind11::dtype::of<std::uint8_t>();
  if (t == kTfLiteInt8) return pybind11::dtype::of<std::int8_t>();
  if (t == kTfLiteInt16) return pybind11::dtype::of<std::int16_t>();
  if (t == kTfLiteInt32) return pybind11::dtype::of<std::int32_t>();
  if (t == kTfLiteInt64) return pybind11::dtype::of<std::int64_t>();
  if (t == kTfLiteBool) return pybind11::dtype::of<bool>();
  if (t == kTfLiteString) return pybind11::dtype::of<char*>();
  throw Error();
}
void set_tensor(const TfLiteTensor* t, const pybind11::array& a) {
  if (type_of(a.dtype()) != t->type) throw Error();
  int n = a.ndim();
  if (n != t->dims->size) throw Error();
  for (int i = 0; i < n; i++)
    if (t->dims->data[i] != a.shape(i)) throw Error();
  if (a.nbytes() != t->bytes) throw Error();
  memcpy(t->data.raw, a.data(), a.nbytes());
}
bool SetTensor(const TfLiteTensor* t, const pybind11::array& a) {
  set_tensor(t, a);
  return true;
}
pybind11::list predict(W* w, const pybind11::list& in) {
  if (!w->interpreter_) throw Error();
  if (in.size() != w->interpreter_->inputs().size()) throw Error();
  for (size_t i = 0; i < in.size(); i++) {
    pybind11::array a = pybind11::array::ensure(in[i], pybind11::array::c_style);
    if (!a) throw Error();
    set_tensor(get_tensor(w, w->interpreter_->inputs()[i]), a);
  }
  if (w->interpreter_->Invoke() != kTfLiteOk) throw Error();
  pybind11::list out;
  for (auto o : w->interpreter_->outputs()) {
    TfLiteTensor* t = get_tensor(w, o);
    std::vector<int> shape(t->dims->data, t->dims->data + t->dims->size);
    pybind11::array a(dtype_of(t->type), shape, t->data.raw);
    out.append(a);
  }
  return out;
}

pybind11::list types(W* w, const std::vector<int>& ids) {
  pybind11::list r;
  for (auto i : ids) r.append(dtype_of(get_tensor(w, i)->type));
  return r;
}
pybind11::list shapes(W* w, const std::vector<int>& ids) {
  pybind11::list r;
  for (auto i : ids) {
    const TfLiteTensor* t = get_tensor(w, i);
    pybind11::tuple s(t->dims->size);
    for (int j = 0; j < t->dims->size; j++) s[j] = t->dims->data[j];
    r.append(s);
  }
  return r;
}
pybind11::list zero_points(W* w, const std::vector<int>& ids) {
  pybind11::list r;
  for (auto i : ids) {
    const TfLiteTensor* t = get_tensor(w, i);
    if (t->quantization.type != kTfLiteAffineQuantization) {
      r.append(pybind11::cast<pybind11::none>(Py_None));
      continue;
    }
    const int zero_point = t->params.zero_point;
    auto* q = reinterpret_cast<TfLiteAffineQuantization*>(t->quantization.params);
    if (!q) throw Error();
    if (!q->zero_point) throw Error();
    for (int j = 0; j < q->zero_point->size; j++)
      if (q->zero_point->data[j] != zero_point) throw Error();
    r.append(pybind11::cast(zero_point));
  }
  return r;
}
pybind11::list scales(W* w, const std::vector<int>& ids) {
  pybind11::list r;
  for (auto i : ids) {
    const TfLiteTensor* t = get_tensor(w, i);
    if (t->quantization.type != kTfLiteAffineQuantization) {
      r.append(pybind11::cast<pybind11::none>(Py_None));
      continue;
    }
    const float scale = t->params.scale;
    auto* q = reinterpret_cast<TfLiteAffineQuantization*>(t->quantization.params);
    if (!q) throw Error();
    if (!q->scale) throw Error();
    if (q->scale->size != 1) {
      std::vector<float> all;
      for (int j = 0; j < q->scale->size; j++) all.push_back(q->scale->data[j]);
      r.append(pybind11::cast(all));
      continue;
    }
    if (q->scale->data[0] != scale) throw Error();
    r.append(pybind11::cast(scale));
  }
  return r;
}
pybind11::list input_types(W* w) { if (!w->interpreter_) throw Error(); return types(w, w->interpreter_->inputs()); }
pybind11::list output_types(W* w) { if (!w->interpreter_) throw Error(); return types(w, w->interpreter_->outputs()); }
pybind11::list input_shapes(W* w) { if (!w->interpreter_) throw Error(); return shapes(w, w->interpreter_->inputs()); }
pybind11::list output_shapes(W* w) { if (!w->interpreter_) throw Error(); return shapes(w, w->interpreter_->outputs()); }
pybind11::list input_zero_points(W* w) { if (!w->interpreter_) throw Error(); return zero_points(w, w->interpreter_->inputs()); }
pybind11::list output_zero_points(W* w) { if (!w->interpreter_) throw Error(); return zero_points(w, w->interpreter_->outputs()); }
pybind11::list input_scales(W* w) { if (!w->interpreter_) throw Error(); return scales(w, w->interpreter_->inputs()); }
pybind11::list output_scales(W* w) { if (!w->interpreter_) throw Error(); return scales(w, w->interpreter_->outputs()); }
}  // namespace spec
namespace spec {
struct Lite : public InterpreterWrapperBase<tflite::Interpreter> {
  Lite(const pybind11::bytes& flatbuffer, const int num_threads, const bool use_reference_bconv, const bool use_indirect_bgemm, const bool use_xnnpack) {
    flatbuffer_ = static_cast<std::string>(flatbuffer);
    model_ = tflite::FlatBufferModel::BuildFromBuffer(flatbuffer_.data(), flatbuffer_.size());
    if (!model_) throw Error();
    if (use_xnnpack)
      resolver_ = std::make_unique<tflite::ops::builtin::BuiltinOpResolver>();
    else
      resolver_ = std::make_unique<tflite::ops::builtin::BuiltinOpResolverWithoutDefaultDelegates>();
    compute_engine::tflite::RegisterLCECustomOps(resolver_.get(), use_reference_bconv, use_indirect_bgemm);
    tflite::InterpreterBuilder builder(*model_, *resolver_);
    builder(&interpreter_, num_threads);
    if (interpreter_ == nullptr) throw Error();
    if (interpreter_->AllocateTensors() != kTfLiteOk) throw Error();
  }
  std::string flatbuffer_;
  std::unique_ptr<tflite::FlatBufferModel> model_;
  std::unique_ptr<tflite::ops::builtin::BuiltinOpResolver> resolver_;
};
void module(pybind11::module_& m) {
  using L = LiteInterpreterWrapper;
  pybind11::class_<L>(m, "LiteInterpreter")
      .def(pybind11::init<const pybind11::bytes&, const int, const bool, const bool, const bool>())
      .def_property("input_types", &L::get_input_types, nullptr)
      .def_property("output_types", &L::get_output_types, nullptr)
      .def_property("input_shapes", &L::get_input_shapes, nullptr)
      .def_property("output_shapes", &L::get_output_shapes, nullptr)
      .def_property("input_zero_points", &L::get_input_zero_points, nullptr)
      .def_property("output_zero_points", &L::get_output_zero_points, nullptr)
      .def_property("input_scales", &L::get_input_scales, nullptr)
      .def_property("output_scales", &L::get_output_scales, nullptr)
      .def("predict", &L::predict);
}
}  // namespace spec
