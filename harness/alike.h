#pragma once
// Different texts that a shortcut would take for the same: equal under a common weak hash, under case folding, up to a
// length, up to the order of their bytes. Names and keys are compared by content, so nothing may confuse them.
#include <string>
#include <vector>
inline const std::vector<std::pair<std::string, std::string>>& Twins() {
  static const std::vector<std::pair<std::string, std::string>> v{
      {"Aa", "BB"}, {"AaAa", "BBBB"}, {"AaBBx", "BBAax"},                       // h * 31 + c
      {"ab", "bA"}, {"xabab", "xbAbA"},                                         // h * 33 + c
      {"vbagac", "vaeaeb"},                                                     // h * 257 + c
      {"costarring", "liquid"}, {"declinate", "macallums"},                     // FNV-1a, 32 bits
      {"creamwove", "quists"}, {"vceaab", "vjast"}, {"vvwaab", "vgpuw"},        // FNV-1, FNV-1a's low half
      {"plumless", "buckeroo"}, {"vxaaab", "vdogo"},                            // CRC-32
      {"vhtr", "vcal"}, {"vvfnf", "vmzk"}, {"vkqcj", "vngvg"},                  // std::hash: low half, high half, folded
      {"vhkbh", "vjgwb"}, {"vkeaf", "vohmb"},                                   // MurmurHash3 32, one-at-a-time
      {"abc", "cba"}, {"listen", "silent"}, {"ad", "bc"},                       // sums and exclusive ors of bytes
      {"name", "Name"}, {"name", "NAME"}, {"a_b", "a__b"}, {"x1", "x01"},       // spellings
      {"prefix_a", "prefix_b"}, {"abcd1", "abcd2"}, {"abcdefgh1", "abcdefgh2"}, // first bytes
      {"abcdefghijklmnop1", "abcdefghijklmnop2"}, {"abcdefghijklmnopqrstuvwxyz0123451", "abcdefghijklmnopqrstuvwxyz0123452"},
      {"p1_tail", "q1_tail"}, {"head_x_tail", "head_y_tail"}};
  return v;
}
