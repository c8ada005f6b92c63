// Cache files of the abstract dataset W, encoded on demand when the fetchers of /repo open them, with a fault plan.
#pragma once
#include "vt.hpp"
namespace vt {
// what is wrong with one file
enum FaultKind { OK_ = 0, MISSING, DENIED, BROKEN /* the stream ends early or its framing is wrong */, BROKENLATE /* the second read fails */, BIT /* one bit of one word */, ZERO /* a word of zeros */, INTS /* an integer of a list takes any value */, TEXT /* a character of a text changes */, EDIT /* the harness edits the message */ };
struct Fault { std::string file; int kind = OK_; long word = 0, bit = 0; int lane = 0; long value = 0; bool hit = false; };
extern std::vector<Fault> faults;
std::vector<std::string> files();     // every cache file of W
struct Role { char kind; int lane; }; // P pointer, T text, I integer list (lane bytes), D struct data, - unused
std::vector<Role> rolesOf(const std::string &file);  // word by word
// edits applied while encoding (inconsistent identifiers, list lengths)
struct Edit { std::string file; int what = 0; int item = 0, pos = 0; };
enum EditKind { E_NONE = 0, E_UNKNOWN_ID, E_BAD_ID, E_EMPTY_ID, E_FEWER, E_MORE, E_NONE_LEFT, E_DUP, E_JSON, E_UTF8, E_COUNT };
extern Edit edit;
extern int opened, broken;
extern World *customWorld;  // what the files below a custom cache path hold (null: the same dataset)
}
