// Offline stand-in for the HighFive submodule (empty in this checkout): data sets in memory, the errors of HDF5.
#ifndef HIGHFIVE_STUB_HPP
#define HIGHFIVE_STUB_HPP
#include <exception>
#include <string>
#include <vector>
typedef unsigned long long hsize_t;
#define H5E_DEFAULT 0
inline int H5Eset_auto(int, void *, void *) { return 0; }
#ifdef V_SIGNALS
void v_point(int);
#endif
namespace HighFive
{
struct Exception : std::exception
{
  std::string m;
  Exception(const char *x) : m(x) {}
  const char *what() const noexcept { return m.c_str(); }
};
struct FileException : Exception { using Exception::Exception; };
struct GroupException : Exception { using Exception::Exception; };
struct DataSetException : Exception { using Exception::Exception; };
struct DataSpaceException : Exception { using Exception::Exception; };
struct AttributeException : Exception { using Exception::Exception; };

struct DataSpace
{
  static const size_t UNLIMITED = (size_t)-1;
  std::vector<size_t> dims, max;
  DataSpace(std::vector<size_t> d, std::vector<size_t> m) : dims(d), max(m) {}
  DataSpace() {}
  template <class T> static DataSpace From(const T &) { return DataSpace(); }
};
struct Chunking { Chunking(const std::vector<hsize_t> &) {} };
struct DataSetCreateProps { template <class T> void add(const T &) {} };
template <class T> struct AtomicType {};

struct Store
{
  std::string name;
  std::vector<size_t> dims, max;
  std::vector<double> data;
  std::vector<int> writes;      // how often each value has been written
  size_t at(const std::vector<size_t> &i) const
  {
    size_t k = 0;
    for (size_t d = 0; d < dims.size(); ++d) k = k * dims[d] + i[d];
    return k;
  }
  size_t count() const
  {
    size_t n = 1;
    for (size_t d = 0; d < dims.size(); ++d) n *= dims[d];
    return n;
  }
};
struct Selection
{
  Store *s;
  std::vector<size_t> off, size;
  void put(const std::vector<size_t> &i, double x)
  {
    std::vector<size_t> j;
    for (size_t d = 0; d < i.size(); ++d) j.push_back(off[d] + i[d]);
    s->data[s->at(j)] = x;
    ++s->writes[s->at(j)];
  }
  void fits(size_t d, size_t n)
  {
    if (d >= size.size() || size[d] != n) throw DataSpaceException("size of the data differs from the selection");
  }
  void write(const std::vector<std::vector<std::vector<double>>> &v)
  {
    if (size.size() != 3) throw DataSpaceException("dimensions of the data differ from the selection");
    fits(0, v.size());
    for (size_t a = 0; a < v.size(); ++a)
    {
      fits(1, v[a].size());
      for (size_t b = 0; b < v[a].size(); ++b)
      {
        fits(2, v[a][b].size());
        for (size_t c = 0; c < v[a][b].size(); ++c) put({a, b, c}, v[a][b][c]);
      }
    }
  }
  void write(const std::vector<std::vector<double>> &v)
  {
    if (size.size() != 2) throw DataSpaceException("dimensions of the data differ from the selection");
    fits(0, v.size());
    for (size_t a = 0; a < v.size(); ++a)
    {
      fits(1, v[a].size());
      for (size_t b = 0; b < v[a].size(); ++b) put({a, b}, v[a][b]);
    }
  }
  void write(const double &x)
  {
    for (size_t d = 0; d < size.size(); ++d)
      if (size[d] != 1) throw DataSpaceException("size of the data differs from the selection");
    put(std::vector<size_t>(size.size(), 0), x);
  }
};
struct DataSet
{
  Store *s;
  std::vector<size_t> getDimensions() const { return s->dims; }
  void resize(const std::vector<size_t> &d)
  {
    if (d.size() != s->dims.size()) throw DataSetException("resize");
    for (size_t i = 0; i < d.size(); ++i)
      if (d[i] > s->max[i] || (i && d[i] != s->dims[i])) throw DataSetException("resize");
    s->dims = d;
    s->data.resize(s->count(), 0);
    s->writes.resize(s->count(), 0);
  }
  Selection select(const std::vector<size_t> &off, const std::vector<size_t> &size) const
  {
    if (off.size() != s->dims.size() || size.size() != s->dims.size()) throw DataSpaceException("dimensions of a selection");
    for (size_t i = 0; i < off.size(); ++i)
      if (off[i] + size[i] > s->dims[i]) throw DataSpaceException("selection out of bounds");
    return Selection{s, off, size};
  }
};
struct Attribute { template <class T> void write(const T &) {} };
struct File;
struct Group
{
  File *f;
  template <class T> Attribute createAttribute(const std::string &, const DataSpace &) { return Attribute(); }
};
#ifdef V_SIGNALS
#define V_POINT(x) v_point(x)
#else
#define V_POINT(x)
#endif
// what stays when a file is closed
struct Disk
{
  std::vector<Store *> sets;
  std::vector<std::string> groups;
  std::string path;
  int open = 0;
};
inline std::vector<Disk *> disks;
struct File
{
  enum { ReadWrite = 1, Create = 2, Excl = 4 };
  Disk *disk;
  std::vector<Store *> &sets;
  std::vector<std::string> &groups;
  static Disk *opened(const char *path, int how)
  {
    V_POINT(1);
    Disk *d = 0;
    for (auto i : disks)
      if (i->path == path) d = i;
    if (d && (how & Excl)) throw FileException("Unable to create the file: it exists");
    if (d && d->open) throw FileException("Unable to lock the file");
    if (!d)
    {
      if (!(how & Create)) throw FileException("Unable to open the file");
      disks.push_back(d = new Disk());
      d->path = path;
    }
    ++d->open;
    return d;
  }
  File() : disk(new Disk()), sets(disk->sets), groups(disk->groups) { ++disk->open; }
  File(const char *path, int how) : disk(opened(path, how)), sets(disk->sets), groups(disk->groups) {}
  File(const File &) = delete;
  ~File() { --disk->open; V_POINT(1); }
  static std::string norm(const std::string &p) { return p.size() && p[0] == '/' ? p.substr(1) : p; }
  Store *find(const std::string &p)
  {
    for (auto s : sets)
      if (s->name == norm(p)) return s;
    return 0;
  }
  Group createGroup(const std::string &p)
  {
    for (auto &g : groups)
      if (g == norm(p)) throw GroupException("Unable to create the group");
    groups.push_back(norm(p));
    return Group{this};
  }
  Group getGroup(const std::string &) { return Group{this}; }
  DataSet getDataSet(const std::string &p)
  {
    V_POINT(2);
    Store *s = find(p);
    if (!s) throw DataSetException("Unable to open the dataset");
    return DataSet{s};
  }
  template <class T> DataSet createDataSet(const std::string &p, const DataSpace &d, const AtomicType<T> &, const DataSetCreateProps &)
  {
    if (find(p)) throw DataSetException("Unable to create the dataset");
    Store *s = new Store();
    s->name = norm(p); s->dims = d.dims; s->max = d.max;
    s->data.resize(s->count(), 0);
    s->writes.resize(s->count(), 0);
    sets.push_back(s);
    return DataSet{s};
  }
};
}
#endif
