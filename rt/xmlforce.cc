#define XML_FORCE_MODEL 1
#include "xml.cc"
