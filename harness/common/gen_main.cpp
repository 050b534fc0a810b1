#include "tools/generate_profiles.hpp"
int main() { principia::tools::_generate_profiles::GenerateProfiles(); }
