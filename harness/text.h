// Independent writers of the text formats (not the library's)
#pragma once
#include "model.h"
std::string json_string (const std::string& s);
std::string json_value (const Val& v);
std::string json_of (const CfgSpec& c);                 // siblings of one name must be adjacent
std::string json_of_mold (const MoldSpec& m);
std::string toml_string (const std::string& s);
std::string toml_value (const Val& v);
std::string toml_of (const CfgSpec& c);
