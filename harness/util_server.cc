// Answers calls of the helper functions of include-what-you-use, one per line:
// the name of the function and its arguments in hexadecimal ("-" is the empty
// string); the reply is a line of results in the same form.
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "iwyu_path_util.h"
#include "iwyu_regex.h"
#include "iwyu_string_util.h"

using namespace include_what_you_use;
using Args = std::vector<std::string>;

static std::string Unhex(const std::string& s) {
  std::string out;
  if (s == "-") return out;
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    out += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
  return out;
}

static std::string Hex(const std::string& s) {
  if (s.empty()) return "-";
  static const char* digits = "0123456789abcdef";
  std::string out;
  for (unsigned char c : s) { out += digits[c >> 4]; out += digits[c & 15]; }
  return out;
}

static std::string Bool(bool b) { return b ? "1" : "0"; }

static Args Call(const std::string& op, const Args& a) {
  auto num = [&](size_t i) { return static_cast<size_t>(std::stoul(a[i])); };
  auto dialect = [&](size_t i) {
    RegexDialect d = RegexDialect::LLVM;
    if (!ParseRegexDialect(a[i].c_str(), &d)) abort();
    return d;
  };
  if (op == "StartsWith") return {Bool(StartsWith(a[0], a[1]))};
  if (op == "EndsWith") return {Bool(EndsWith(a[0], a[1]))};
  std::string s = a.empty() ? "" : a[0];
  if (op == "StripLeft") { bool b = StripLeft(&s, a[1]); return {Bool(b), s}; }
  if (op == "StripRight") { bool b = StripRight(&s, a[1]); return {Bool(b), s}; }
  if (op == "StripPast") { bool b = StripPast(&s, a[1]); return {Bool(b), s}; }
  if (op == "DropFrom") { bool b = DropFrom(&s, a[1]); return {Bool(b), s}; }
  if (op == "Ellipsize") return {Ellipsize(a[0], num(1))};
  if (op == "StripWhiteSpaceLeft") { StripWhiteSpaceLeft(&s); return {s}; }
  if (op == "StripWhiteSpaceRight") { StripWhiteSpaceRight(&s); return {s}; }
  if (op == "StripWhiteSpace") { StripWhiteSpace(&s); return {s}; }
  if (op == "ReplaceAll") { ReplaceAll(&s, a[1], a[2]); return {s}; }
  if (op == "Split") return Split(a[0], a[1], num(2));
  if (op == "SplitOnWhiteSpace") return SplitOnWhiteSpace(a[0], num(1));
  if (op == "SplitOnWhiteSpacePreservingQuotes")
    return SplitOnWhiteSpacePreservingQuotes(a[0], num(1));
  if (op == "IsHeaderFile") return {Bool(IsHeaderFile(a[0]))};
  if (op == "Basename") return {Basename(a[0])};
  if (op == "GetCanonicalName") return {GetCanonicalName(a[0])};
  if (op == "NormalizeFilePath") return {NormalizeFilePath(a[0])};
  if (op == "NormalizeDirPath") return {NormalizeDirPath(a[0])};
  if (op == "IsAbsolutePath") return {Bool(IsAbsolutePath(a[0]))};
  if (op == "MakeAbsolutePath") return {MakeAbsolutePath(a[0])};
  if (op == "MakeAbsolutePath2") return {MakeAbsolutePath(a[0], a[1])};
  if (op == "GetParentPath") return {GetParentPath(a[0])};
  if (op == "StripPathPrefix") { bool b = StripPathPrefix(&s, a[1]); return {Bool(b), s}; }
  if (op == "IsQuotedInclude") return {Bool(IsQuotedInclude(a[0]))};
  if (op == "IsSpecialFilename") return {Bool(IsSpecialFilename(a[0]))};
  if (op == "AddQuotes") return {AddQuotes(a[0], a[1] == "1")};
  if (op == "ConvertToQuotedInclude") {
    // The path, the includer's directory, then pairs of directory and type.
    std::vector<HeaderSearchPath> dirs;
    for (size_t i = 2; i + 1 < a.size(); i += 2)
      dirs.push_back(HeaderSearchPath(a[i], a[i + 1] == "1" ? HeaderSearchPath::kSystemPath
                                                          : HeaderSearchPath::kUserPath));
    SetHeaderSearchPaths(dirs);
    return {ConvertToQuotedInclude(a[0], a[1])};
  }
  if (op == "RegexMatch") return {Bool(RegexMatch(dialect(0), a[1], a[2]))};
  if (op == "RegexReplace") return {RegexReplace(dialect(0), a[1], a[2], a[3])};
  if (op == "ParseRegexDialect") {
    RegexDialect d = RegexDialect::LLVM;
    bool b = ParseRegexDialect(a[0].c_str(), &d);
    return {Bool(b), b ? std::to_string(static_cast<int>(d)) : ""};
  }
  fprintf(stderr, "unknown function %s\n", op.c_str());
  exit(3);
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, word;
    in >> op;
    Args args;
    while (in >> word) args.push_back(Unhex(word));
    std::string out;
    for (const std::string& r : Call(op, args)) out += Hex(r) + " ";
    std::cout << out << "." << std::endl;
  }
  return 0;
}
