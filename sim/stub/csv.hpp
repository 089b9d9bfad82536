// Stands in for the CSV library, which is not installed here: plain fields,
// a header row, read through the simulated disk.
#ifndef VERIF_STUB_CSV_HPP
#define VERIF_STUB_CSV_HPP
#include <cerrno>
#include <cstdio>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
namespace csv {
using string_view = std::string_view;
class CSVFormat {
public:
  char D = ',';
  CSVFormat &delimiter(char C) {
    D = C;
    return *this;
  }
};
class CSVField {
  std::string S;

public:
  explicit CSVField(std::string S) : S(std::move(S)) {}
  template <class T = std::string> T get() const { return T(S); }
  bool operator==(std::string_view O) const { return S == O; }
};
class CSVRow {
  std::shared_ptr<std::vector<std::string>> Names;
  std::vector<std::string> Fields;

public:
  CSVRow(std::shared_ptr<std::vector<std::string>> N, std::vector<std::string> F)
      : Names(std::move(N)), Fields(std::move(F)) {}
  std::vector<std::string> get_col_names() const { return *Names; }
  std::size_t size() const { return Fields.size(); }
  CSVField operator[](const std::string &N) const {
    for (std::size_t I = 0; I < Names->size() && I < Fields.size(); ++I)
      if ((*Names)[I] == N)
        return CSVField(Fields[I]);
    throw std::runtime_error("Can't find a column named " + N);
  }
  CSVField operator[](std::size_t I) const { return CSVField(Fields.at(I)); }
};
class CSVReader {
  std::shared_ptr<std::vector<std::string>> Names =
      std::make_shared<std::vector<std::string>>();
  std::vector<CSVRow> Rows;

public:
  CSVReader(std::string_view Path, CSVFormat F = CSVFormat()) {
    std::FILE *In;
    do
      In = std::fopen(std::string(Path).c_str(), "r");
    while (!In && errno == EINTR);
    if (!In)
      throw std::runtime_error("Cannot open file " + std::string(Path));
    std::string T;
    char Buf[512];
    for (std::size_t N;
         (N = std::fread(Buf, 1, sizeof Buf, In)) > 0 ||
         (std::ferror(In) && errno == EINTR);) {
      T.append(Buf, N);
      std::clearerr(In);
    }
    bool Bad = std::ferror(In);
    std::fclose(In);
    if (Bad)
      throw std::runtime_error("Cannot read file " + std::string(Path));
    bool First = true;
    for (std::size_t P = 0; P < T.size();) {
      std::size_t E = T.find('\n', P);
      std::string L = T.substr(P, E == std::string::npos ? E : E - P);
      P = E == std::string::npos ? T.size() : E + 1;
      if (L.empty())
        continue;
      std::vector<std::string> V(1);
      for (char C : L)
        if (C == F.D)
          V.emplace_back();
        else
          V.back() += C;
      if (First)
        *Names = V;
      else if (V.size() == Names->size())
        Rows.emplace_back(Names, V);
      First = false;
    }
  }
  std::vector<std::string> get_col_names() const { return *Names; }
  auto begin() { return Rows.begin(); }
  auto end() { return Rows.end(); }
};
} // namespace csv
#endif
