#include "codec.h"

#include "json_serializer.h"

namespace codec {

const char* backend() {
#if defined(CPPDAP_JSON_NLOHMANN)
  return "nlohmann";
#elif defined(CPPDAP_JSON_RAPID)
  return "rapidjson";
#else
  return "jsoncpp";
#endif
}
bool encodeWith(const std::function<bool(dap::Serializer*)>& f, std::string* text) {
  dap::json::Serializer s;
  if (!f(&s)) {
    return false;
  }
  *text = s.dump();
  return true;
}
bool decodeWith(const std::function<bool(const dap::Deserializer*)>& f, const std::string& text) {
  dap::json::Deserializer d(text);
  return f(&d);
}
bool encode(const dap::TypeInfo* type, const void* value, std::string* text) {
  return encodeWith([&](dap::Serializer* s) { return type->serialize(s, value); }, text);
}
bool decode(const dap::TypeInfo* type, void* value, const std::string& text) {
  return decodeWith([&](const dap::Deserializer* d) { return type->deserialize(d, value); }, text);
}

}  // namespace codec
