#include "mpact/verif/elfio_shim.h"
