#include <pinocchio/standin.h>
