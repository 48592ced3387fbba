#ifndef VEXC_H
#define VEXC_H
#include <DMI/Exception.h>
inline std::string excstr (const std::exception &e)
{
  const LOFAR::Exception *l = dynamic_cast<const LOFAR::Exception*>(&e);
  return l ? l->message() : std::string(e.what());
}
#endif
