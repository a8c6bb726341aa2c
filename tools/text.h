// The constant part of what a writer puts into the file, in the order of the program.
#pragma once
#include "writers.h"
#include <regex>

// placeholder of a value that is not constant / separator of alternatives
enum { HOLE = '\1', OR = '\2', BYTE = '\7' }; // BYTE: of a single byte or a buffer, told apart from the byte 1

struct Piece {
  Instruction *I;
  std::string s;
  bool alternatives = false;
  size_t at = 0; // offset in the text of the block
};
struct Text {
  Writer &W;
  std::map<BasicBlock *, std::vector<Piece>> pieces;
  std::map<BasicBlock *, std::string> text;
  Text(Writer &W);
  void add(Instruction *I, const std::string &s); // a further piece, put at its place in the block
  void finish();
  // instructions at which a match of the expression ends; sure: not one of several alternatives
  std::vector<Instruction *> find(BasicBlock *B, const std::regex &r, bool sureOnly);
};
std::vector<std::string> stringsOf(Value *V, int depth = 0); // constant strings a pointer may be; empty string with HOLE if unknown
