#include <asdcp/AS_DCP.h>
