// Declarations-only stand-in for the happly header (not shipped in this checkout), so that the sources that include it
// can be parsed by the extractor. Nothing here is ever executed.
#pragma once
#include <array>
#include <cstddef>
#include <istream>
#include <ostream>
#include <string>
#include <vector>
namespace happly {
enum class DataFormat { ASCII, Binary, BinaryBigEndian };
class Element {
public:
  std::string name;
  size_t count;
  bool hasProperty(const std::string& n);
  template <class T> std::vector<T> getProperty(const std::string& n);
  template <class T> std::vector<std::vector<T>> getListProperty(const std::string& n);
  template <class T> void addProperty(const std::string& n, const std::vector<T>& d);
  template <class T> void addListProperty(const std::string& n, const std::vector<std::vector<T>>& d);
};
class PLYData {
public:
  PLYData();
  PLYData(const std::string& f, bool verbose = false);
  PLYData(std::istream& s, bool verbose = false);
  void validate();
  void write(const std::string& f, DataFormat fmt = DataFormat::ASCII);
  void write(std::ostream& s, DataFormat fmt = DataFormat::ASCII);
  Element& getElement(const std::string& n);
  bool hasElement(const std::string& n);
  void addElement(const std::string& n, size_t c);
  std::vector<std::array<double, 3>> getVertexPositions(const std::string& n = "vertex");
  template <class T = size_t> std::vector<std::vector<T>> getFaceIndices();
  void addVertexPositions(std::vector<std::array<double, 3>>& v);
  template <class T> void addFaceIndices(std::vector<std::vector<T>>& v);
  std::vector<std::string> comments;
};
} // namespace happly
