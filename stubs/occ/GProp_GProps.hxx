#include "occfake.hxx"
