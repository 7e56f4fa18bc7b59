#ifndef VERIF_P25_VIEW_HPP
#define VERIF_P25_VIEW_HPP
struct View
{
  sys::error_code (*make)(int cat, int v);
  const void* (*category)(int cat);
  std::string (*message)(const sys::error_code&);
  std::string (*category_name)(int cat);
  bool (*is)(const sys::error_code&, int cat, int v);
  sys::error_code (*parse)(const std::string&);
  void (*throw_it)(const sys::error_code&);
  int (*catch_it)(void (*)(const sys::error_code&), const sys::error_code&, sys::error_code&);
  const void* (*service)(asio::io_context&);
};
#endif
