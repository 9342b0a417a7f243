// Stand-in programs and the pure functions that define what they produce.
#pragma once
#include "os.h"
#include <string>
#include <vector>
#include <map>

enum FailMode { FM_NONE, FM_EXIT_EARLY, FM_EXIT_PARTIAL, FM_EXIT_LATE, FM_SIGNAL };
struct ToolWorld {
  std::map<std::string, int> fail;      // basename of the product (or tag) -> FailMode
  int slowPct = 20;                     // how often a tool sleeps between steps
  int noise = 0;                        // percentage of compilers that print diagnostics
};
extern ToolWorld TW;

std::string hex16(uint64_t v);
std::string contentHash(const std::string &s);                  // 16 hex digits
bool saysNothing(const std::string &words);   // programs run with -q print nothing for some arguments
std::string baseName(const std::string &p);
std::string bulkText(const std::string &seed, size_t n);        // deterministic text of n bytes
// what `gen` writes: lines are copied, then a trailer describes words and inputs
std::string genContent(const std::string &outBase, const std::vector<std::string> &lines, const std::vector<std::string> &words,
                       const std::vector<std::pair<std::string, std::string>> &ins);
// what `cc` writes: flags (everything but -I./ -c -o -M*), source and all files included
std::string objContent(const std::string &objBase, const std::string &cc, const std::vector<std::string> &flags, const std::string &srcBase, const std::string &srcData,
                       const std::vector<std::pair<std::string, std::string>> &incs);
std::string ldContent(const std::string &outBase, const std::vector<std::string> &words, const std::vector<std::pair<std::string, std::string>> &objs);
std::vector<std::string> includesOf(const std::string &data);  // names in #include "..." lines, in order

void installTools();                       // puts the tools into the simulated file system
void progsExec(Proc &p, const std::string &exe);   // Sim::onExec
