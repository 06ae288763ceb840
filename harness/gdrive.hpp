// Registration of generated grammars; each driver defines GDRIVE_ENTRY (a type with a static make<P>()).
#pragma once
#include "gobs.hpp"
#ifndef GD_ACTIONS
#    define GD_ACTIONS 0
#endif
namespace gd
{
using gobs::Obs;
struct Entry
{
    const char* name;
    const char* model;
    // one function per kind of run; unused ones are null
    Obs (*parse)(const std::string&)  = nullptr;
    Obs (*tree)(const std::string&)   = nullptr;
    std::string (*job)(int, const void*) = nullptr;
    void (*extra)(const Entry&, const std::string&, const Obs& model) = nullptr;
};
std::vector<Entry>& registry();
// reports a violation unless the observed result is the model's
bool compare(const char* what, const Entry& e, const std::string& in, const Obs& model, const Obs& got, bool tree);
struct Reg
{
    explicit Reg(Entry e)
    {
        registry().push_back(e);
    }
};
} // namespace gd
namespace dsl = lexy::dsl;
#define GDRIVE_CAT2(a, b) a##b
#define GDRIVE_CAT(a, b) GDRIVE_CAT2(a, b)
#define GDRIVE_REGISTER(P, NAME, MODEL) static gd::Reg GDRIVE_CAT(reg_, __COUNTER__){gd::make<P>(NAME, MODEL)};
