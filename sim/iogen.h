// Documents in both file formats, written independently of the library.
#ifndef IOGEN_H
#define IOGEN_H
#include "refmodel.h"
namespace io {
using namespace rm;
void vary(RModel &m);         // more extreme values
std::string xmlDoc(RModel &m); // m: adjusted to what the document says
std::string sxfmDoc(RModel &m, uint32_t maxF);
std::string encode(const std::string &t);
ExprP flattenOr(const ExprP &e);
bool readable(const Con &c); // its text is in the constraint language
std::string damageBytes(std::string &t, const std::string &other);
std::string damageXml(std::string &t, const RModel &m, bool &must);
std::string damageSxfm(std::string &t, bool &must);
} // namespace io
#endif
