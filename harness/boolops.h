#pragma once
#include "k.h"
#include <kigumi/Boolean_operator.h>
namespace ops {
using kigumi::Boolean_operator;
inline bool formula(char op, bool a, bool b) {
  switch (op) {
    case 'V': return true; case 'A': return a || b; case 'B': return !(b && !a); case 'C': return !(a && !b);
    case 'D': return !(a && b); case 'E': return a == b; case 'F': return !a; case 'G': return !b; case 'H': return b; case 'I': return a;
    case 'J': return a != b; case 'K': return a && b; case 'L': return a && !b; case 'M': return b && !a; case 'X': return !(a || b); default: return false;
  }
}
inline const std::vector<std::pair<char, Boolean_operator>>& all() {
  static const std::vector<std::pair<char, Boolean_operator>> OPS{
    {'V', Boolean_operator::V}, {'A', Boolean_operator::A}, {'B', Boolean_operator::B}, {'C', Boolean_operator::C}, {'D', Boolean_operator::D}, {'E', Boolean_operator::E},
    {'F', Boolean_operator::F}, {'G', Boolean_operator::G}, {'H', Boolean_operator::H}, {'I', Boolean_operator::I}, {'J', Boolean_operator::J}, {'K', Boolean_operator::K},
    {'L', Boolean_operator::L}, {'M', Boolean_operator::M}, {'X', Boolean_operator::X}, {'O', Boolean_operator::O}};
  return OPS;
}
}  // namespace ops
