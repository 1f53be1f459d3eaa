// The code under test's JSON encoding and decoding, behind a neutral interface.
#ifndef VERIF_CODEC_H
#define VERIF_CODEC_H

#include <functional>
#include <string>

#include "dap/protocol.h"

namespace codec {
const char* backend();
bool encode(const dap::TypeInfo* type, const void* value, std::string* text);
bool decode(const dap::TypeInfo* type, void* value, const std::string& text);
bool encodeWith(const std::function<bool(dap::Serializer*)>& f, std::string* text);
bool decodeWith(const std::function<bool(const dap::Deserializer*)>& f, const std::string& text);
}  // namespace codec

#endif
