// An independent MDF3 encoder, written from the standard.
#pragma once
#include <map>
#include <string>
#include <vector>

#include "common/enc4.h"
#include "vp.h"

namespace enc {

// Makes the generated layout one that MDF3 can express.
void ToMdf3(vp::Gen& g, File& f);

struct Text3 {
  std::string long_name, description, unit, comment;
};

// The file; texts by (short) channel name. With all_blocks also conversion rules, dependencies and reductions.
std::vector<uint8_t> Encode3(vp::Gen& g, const File& f, std::map<std::string, Text3>& text, std::string& version,
                             bool all_blocks);

// The data groups of the file, as the library reads them. Others may follow.
void CheckRead3(mdf::MdfReader& r, const File& f, const std::map<std::string, Text3>& text, const std::string& version,
                const std::string& when, bool header_too = true);

}  // namespace enc
